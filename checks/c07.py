"""C07: wavefunction objects stay valid and normalized through any history."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import fail, label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis), model-based: generated histories of writes, bindings, flips and file round trips against a plain list model"
ASSUMPTIONS = [
    "norms within 1e-7 of one count as valid, further than 1e-4 as invalid; in between nothing is claimed",
    "slice writes are generated for numeric states only",
]
NAMES = ["a", "b", "c"]

number = st.one_of(
    st.tuples(st.floats(-1, 1), st.floats(-1, 1)).map(list),
    st.sampled_from([[0.5, 0.0], [0.0, 0.5], [1.0, 0.0], [0.0, 0.0], [0.5, 0.5], [-0.5, 0.0], [0.6, 0.0], [0.0, 0.8], [math.sqrt(0.5), 0.0]]),
)


def is_num(e):
    return not isinstance(e[0], str)


def cval(e):
    return complex(*e) if is_num(e) else None


def to_obj(e):
    import sympy

    if is_num(e):
        z = complex(*e)
        return z if z.imag else z.real
    return expr.to_sympy(e)


entry = st.one_of(
    number,
    st.sampled_from(NAMES).map(lambda s: ["sym", s]),
    st.sampled_from(NAMES).map(lambda s: ["div", ["sym", s], 2]),
    st.tuples(st.sampled_from(NAMES), st.sampled_from(NAMES)).map(lambda t: ["mul", ["sym", t[0]], ["add", ["sym", t[1]], ["num", 0.25]]]),
)


@st.composite
def histories(draw):
    n = draw(st.integers(1, 3))
    d = 2**n
    symbolic = draw(st.booleans())
    if symbolic:
        kind = draw(st.sampled_from(["free", "quarter"]))
        vec = [draw(entry) if kind == "free" else draw(st.sampled_from([["sym", "a"], ["sym", "b"], [0.5, 0.0], [0.0, 0.0], [0.0, 0.3]])) for _ in range(d)]
        if all(is_num(e) for e in vec):
            vec[draw(st.integers(0, d - 1))] = ["sym", "a"]
    else:
        vec = [draw(number) for _ in range(d)]
    normalize = not symbolic and draw(st.integers(0, 4)) > 0
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["set", "set", "phase", "perm", "slice", "bind", "bind", "fill", "bad", "alias"]))
        if k == "set":
            steps.append([k, draw(st.integers(-d, d - 1)), draw(entry)])
        elif k == "phase":
            steps.append([k, draw(st.integers(0, d - 1)), draw(st.floats(-3, 3))])
        elif k in ("perm", "slice"):
            a = draw(st.integers(0, d - 1))
            b = draw(st.integers(a, d))
            step = draw(st.sampled_from([1, 1, 2]))
            m = len(range(a, b, step))
            arg = list(draw(st.permutations(list(range(m))))) if k == "perm" else [draw(number) for _ in range(m)]
            steps.append([k, a, b, step, arg])
        elif k == "bind":
            steps.append([k, {s: draw(st.one_of(number, st.sampled_from(NAMES).map(lambda q: ["sym", q]))) for s in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1))}])
        elif k == "fill":
            steps.append([k, draw(st.integers(0, d - 1)), draw(st.floats(-3, 3)), draw(st.booleans())])
        elif k == "bad":
            steps.append([k, draw(st.sampled_from(["text", "long", "index", "none"]))])
        else:
            steps.append([k])
    return {"n": n, "vec": vec, "normalize": normalize, "steps": steps}


def norm_of(vec):
    return sum(abs(cval(e)) ** 2 for e in vec if is_num(e))


def verdict(vec, kind):
    """True: must be accepted, False: must be refused, None: too close to call."""
    s = norm_of(vec)
    if all(is_num(e) for e in vec):
        return True if abs(s - 1) < 1e-7 else (False if abs(s - 1) > 1e-4 else None)
    return True if s < 1 - 1e-7 else (False if s > 1 + 1e-4 else None)


def same(obj, vec, what):
    require(len(obj) == len(vec), f"{what}: length")
    import sympy

    for i, e in enumerate(vec):
        x = obj[i]
        if is_num(e):
            try:
                v = complex(x)
            except TypeError:
                fail(f"{what}: amplitude {i} is {x}, expected {cval(e)}")
            require(abs(v - cval(e)) < 1e-12, f"{what}: amplitude {i} is {x}, expected {cval(e)}")
        else:
            require(
                isinstance(x, sympy.Expr) and sympy.expand(x - expr.to_sympy(e)) == 0,
                f"{what}: amplitude {i} is {x}, expected {expr.to_sympy(e)}",
            )
    names = set()
    for e in vec:
        if not is_num(e):
            names |= expr.symbols(e)
    require({str(s) for s in obj.free_symbols} == names, f"{what}: free symbols {obj.free_symbols}")
    amps = obj.amplitudes
    require(isinstance(amps, np.ndarray) and amps.shape == (len(vec),), f"{what}: amplitudes shape {np.shape(amps)}")
    if not names:
        want = np.array([cval(e) for e in vec])
        p = obj.get_probabilities()
        require(np.shape(p) == (len(vec),) and np.allclose(np.array(p, dtype=float), abs(want) ** 2, atol=1e-12), f"{what}: probabilities {p}")
        n = int(math.log2(len(vec)))
        table = obj.get_outcome_probs()
        require(len(table) == len(vec), f"{what}: outcome table size")
        for i in range(len(vec)):
            key = "".join(str((i >> q) & 1) for q in range(n))
            require(key in table and abs(float(table[key]) - abs(want[i]) ** 2) < 1e-12, f"{what}: outcome {key}")


def subst(e, m):
    if is_num(e):
        return e
    if e[0] == "sym":
        v = m.get(e[1], e)
        return ["cnum", *v] if is_num(v) else v
    return [e[0]] + [subst(x, m) if isinstance(x, list) else x for x in e[1:]]


def simplify(e):
    """A tree without symbols becomes a number."""
    if is_num(e):
        return e

    def ev(t):
        if t[0] == "cnum":
            return complex(*t[1:])
        if t[0] == "num":
            return t[1]
        if t[0] == "sym":
            return None
        a = ev(t[1])
        b = ev(t[2]) if isinstance(t[2], list) else t[2]
        # 0 * symbol vanishes
        if t[0] == "mul" and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        return {"add": lambda: a + b, "mul": lambda: a * b, "div": lambda: a / b}[t[0]]()

    v = ev(e)
    return e if v is None else [complex(v).real, complex(v).imag]


@sub(
    histories,
    quick=350,
    thorough=12000,
    shards=4,
    rule="at least three steps",
    nt=lambda x: len(x["steps"]) >= 3,
)
def history(x):
    import sympy
    from zquantum.core.wavefunction import Wavefunction

    vec = x["vec"]
    if x["normalize"]:
        s = math.sqrt(norm_of(vec))
        if s < 1e-3:
            vec = [[1.0, 0.0]] + [[0.0, 0.0]] * (len(vec) - 1)
        else:
            vec = [[e[0] / s, e[1] / s] for e in vec]
    ok = verdict(vec, None)
    source = [to_obj(e) for e in vec]
    arr = source
    if all(is_num(e) for e in vec):
        arr = np.array(source, dtype=complex)
    elif len(x["steps"]) % 2:
        arr = sympy.Matrix(source)
    if ok is None:
        return
    if not ok:
        raises(ValueError, lambda: Wavefunction(arr), "construction with a wrong norm")
        label("rejected construction")
        return
    w = Wavefunction(arr)
    same(w, vec, "constructed")
    numeric_kind = all(is_num(e) for e in vec)  # stored as numbers: symbols cannot be written
    d = len(vec)
    for i, s in enumerate(x["steps"]):
        what = f"step {i} {s}"
        k = s[0]
        new = list(vec)
        if k in ("set", "phase", "fill"):
            idx = s[1]
            if k == "set":
                val = s[2]
            elif k == "phase":
                if not is_num(vec[idx]):
                    continue
                z = cval(vec[idx]) * np.exp(1j * s[2])
                val = [z.real, z.imag]
            else:
                # exactly what is missing to unit norm, with any phase
                rest = sum(abs(cval(e)) ** 2 for j, e in enumerate(vec) if j != idx and is_num(e))
                if rest > 1 - 1e-6:
                    continue
                z = math.sqrt(1 - rest) * (0.5 if s[3] else 1.0) * np.exp(1j * s[2])
                val = [z.real, z.imag]
            new[idx] = val
            act = lambda: w.__setitem__(idx, to_obj(val))
        elif k in ("perm", "slice"):
            if not numeric_kind:
                continue
            _, a, b, step, arg = s
            idxs = list(range(a, b, step))
            vals = [vec[idxs[j]] for j in arg] if k == "perm" else arg
            for j, v in zip(idxs, vals):
                new[j] = v
            act = lambda: w.__setitem__(slice(a, b, step), np.array([cval(v) for v in vals], dtype=complex))
        elif k == "bind":
            m = {key: v for key, v in s[1].items()}
            new = [simplify(subst(e, m)) for e in vec]
            before = repr([w[j] for j in range(d)])
            mm = {sympy.Symbol(key): (to_obj(v) if not is_num(v) else sympy.sympify(to_obj(v))) for key, v in m.items()}
            ok = verdict(new, None)
            if ok is None:
                continue
            if all(is_num(e) for e in vec):
                b2 = w.bind(mm)
                same(b2, vec, what + " (nothing to bind)")
                continue
            if not ok:
                raises(ValueError, lambda: w.bind(mm), what)
                label("rejected bind")
                same(w, vec, what + " refused")
            else:
                b2 = w.bind(mm)
                same(b2, new, what)
                same(w, vec, what + " original")
                w, vec = b2, new
                numeric_kind = all(is_num(e) for e in vec)
            continue
        elif k == "bad":
            try:
                if s[1] == "text":
                    w[0] = "not a number!"
                elif s[1] == "long":
                    w[0:1] = [0.5, 0.5, 0.5]
                elif s[1] == "index":
                    w[d + 3] = 0.0
                else:
                    w[0:0] = []
            except Exception:
                pass
            same(w, vec, what)
            continue
        else:
            # the caller's container does not alias the state
            if isinstance(arr, np.ndarray):
                arr[:] = 7.0
            elif isinstance(arr, list):
                arr[0] = 7.0
            same(w, vec, "after the caller changed the source container")
            continue
        ok = verdict(new, None)
        if numeric_kind and not all(is_num(e) for e in new):
            # numbers only: must refuse (or really hold the symbol) and stay intact
            try:
                act()
            except Exception:
                same(w, vec, what + " refused")
                continue
            same(w, new, what)
            vec = new
            numeric_kind = False
            continue
        if ok is None:
            try:
                act()
                vec = new
            except ValueError:
                pass
            same(w, vec, what)
        elif ok:
            label("accepted write")
            act()
            vec = new
            same(w, vec, what)
        else:
            label("rejected write")
            raises(ValueError, act, what)
            same(w, vec, what + " refused")


# ------------------------------------------------------------ sizes, predefined states


@st.composite
def constructions(draw):
    k = draw(st.sampled_from(["length", "zero", "dicke", "dicke"]))
    if k == "length":
        m = draw(st.integers(1, 20))
        return {"k": k, "m": m, "hot": draw(st.integers(0, m - 1)), "form": draw(st.sampled_from(["list", "array", "tuple"]))}
    if k == "zero":
        return {"k": k, "n": draw(st.sampled_from([-2, -1, 0, 1, 2, 3, 4, 6, 8, 10, 12, 2.0, 3.7, 0.5]))}
    n = draw(st.integers(-1, 10))
    return {"k": k, "n": n, "w": draw(st.one_of(st.integers(-2, 10), st.just(1.0)))}


@sub(
    constructions,
    quick=250,
    thorough=2500,
    rule="a Dicke state of weight at least two",
    nt=lambda x: x["k"] == "dicke" and 2 <= x["w"] <= x["n"],
    examples=[{"k": "dicke", "n": n, "w": w} for n in range(1, 11) for w in range(0, n + 2)]
    + [{"k": "dicke", "n": n, "w": w} for n, w in ((11, 5), (12, 6), (13, 6), (13, 7), (13, 12), (14, 2), (14, 7))]
    + [{"k": "zero", "n": n} for n in list(range(-1, 12)) + [14, 16]],
)
def predefined(x):
    from zquantum.core.wavefunction import Wavefunction

    if x["k"] == "length":
        v = [0.0] * x["m"]
        v[x["hot"]] = 1.0
        arg = {"list": list, "array": np.array, "tuple": tuple}[x["form"]](v)
        if x["m"] & (x["m"] - 1):
            raises(ValueError, lambda: Wavefunction(arg), f"length {x['m']}")
        else:
            w = Wavefunction(arg)
            require(len(w) == x["m"] and w.n_qubits == int(math.log2(x["m"])), "size")
            require(np.array_equal(w.amplitudes, np.array(v, dtype=complex)), "amplitudes")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if x["k"] == "zero":
            n = x["n"]
            if int(n) <= 0:
                raises(ValueError, lambda: Wavefunction.zero_state(n), f"zero_state({n})")
                return
            w = Wavefunction.zero_state(n)
            want = np.zeros(2 ** int(n), dtype=complex)
            want[0] = 1
        else:
            n, h = x["n"], x["w"]
            if n <= 0 or h < 0 or h > n or not isinstance(h, int):
                raises(ValueError, lambda: Wavefunction.dicke_state(n, h), f"dicke_state({n}, {h})")
                return
            w = Wavefunction.dicke_state(n, h)
            want = np.array([1.0 if bin(i).count("1") == h else 0.0 for i in range(2**n)], dtype=complex)
            want /= math.sqrt(math.comb(n, h))
    require(w.n_qubits == int(x["n"]), "number of qubits")
    require(w.amplitudes.shape == want.shape and np.allclose(w.amplitudes, want, atol=1e-12), "predefined state")


# ------------------------------------------------------------ flips and files


@st.composite
def states(draw, max_n=5):
    n = draw(st.integers(1, max_n))
    vec = [draw(number) for _ in range(2**n)]
    return {"n": n, "vec": vec}


def normalized(x):
    v = np.array([complex(*e) for e in x["vec"]])
    s = np.linalg.norm(v)
    if s < 1e-3:
        v = np.zeros(len(v), dtype=complex)
        v[-1] = 1
        return v
    return v / s


@sub(
    states,
    quick=200,
    thorough=4000,
    rule="at least two qubits and two non-zero amplitudes",
    nt=lambda x: x["n"] > 1 and sum(1 for e in x["vec"] if e != [0.0, 0.0]) > 1,
)
def flip_and_files(x):
    from zquantum.core.measurement import load_wavefunction, save_wavefunction
    from zquantum.core.wavefunction import Wavefunction, flip_amplitudes, flip_wavefunction

    v = normalized(x)
    n = x["n"]
    w = Wavefunction(v)
    perm = [int("".join(str((i >> q) & 1) for q in range(n)), 2) for i in range(2**n)]
    f = flip_wavefunction(w)
    require(np.array_equal(np.asarray(f.amplitudes), v[perm]), "flipped amplitudes")
    require(np.array_equal(np.asarray(flip_amplitudes(list(v))), v[perm]), "flip_amplitudes of a list")
    require(np.array_equal(np.asarray(flip_wavefunction(f).amplitudes), v), "flip is not an involution")
    require(np.array_equal(np.asarray(w.amplitudes), v), "flip changed its argument")
    with scratch():
        save_wavefunction(w, "w.json")
        back = load_wavefunction("w.json")
        require(np.array_equal(back.amplitudes, v), "amplitudes differ after saving and loading")
        with open("w.json") as h:
            back = load_wavefunction(h)
        require(np.array_equal(back.amplitudes, v) and back.n_qubits == n, "loading from a file object")
    require((w == back) is True or bool(np.all(w == back)), "equal states do not compare equal")


# ------------------------------------------------------------ binding


@st.composite
def bindings(draw):
    n = draw(st.integers(1, 2))
    d = 2**n
    angs = [draw(st.sampled_from(NAMES)) for _ in range(2)]
    vals = {s: draw(st.floats(-3, 3)) for s in NAMES}
    kind = draw(st.sampled_from(["polar", "swap"]))
    return {"n": n, "names": angs, "vals": vals, "kind": kind, "scale": draw(st.sampled_from([1.0, 1.0, 0.5, 1.5]))}


@sub(bindings, quick=120, thorough=2500, rule="the two angles have different names", nt=lambda x: x["names"][0] != x["names"][1])
def bind_circle(x):
    """States given by angles: cos t, e^{i p} sin t; any binding of the angles is normalized."""
    import sympy
    from zquantum.core.wavefunction import Wavefunction

    t, p = (sympy.Symbol(s) for s in x["names"])
    c = x["scale"]
    amps = [sympy.cos(t), c * sympy.sin(t) * sympy.exp(sympy.I * p)] + [0] * (2 ** x["n"] - 2)
    w = Wavefunction(amps)
    tv, pv = x["vals"][x["names"][0]], x["vals"][x["names"][1]]
    want = np.array([math.cos(tv), c * math.sin(tv) * np.exp(1j * pv)] + [0] * (2 ** x["n"] - 2))
    full = {sympy.Symbol(s): v for s, v in x["vals"].items()}
    total = float(np.sum(abs(want) ** 2))
    if x["kind"] == "swap" and x["names"][0] != x["names"][1]:
        w2 = w.bind({t: p, p: t})
        want = np.array([math.cos(pv), c * math.sin(pv) * np.exp(1j * tv)] + [0] * (2 ** x["n"] - 2))
        total = float(np.sum(abs(want) ** 2))
        w = w2
    if abs(total - 1) > 1e-4:
        raises(ValueError, lambda: w.bind(full), "binding to a wrong norm")
        label("rejected")
        require({str(s) for s in w.free_symbols} == set(x["names"]), "a refused binding changed the state")
    elif abs(total - 1) < 1e-7:
        b = w.bind(full)
        require(b.amplitudes.shape == want.shape and np.allclose(b.amplitudes, want, atol=1e-9), "bound amplitudes", b.amplitudes, want)
        require(np.allclose(b.get_probabilities(), abs(want) ** 2, atol=1e-9), "bound probabilities")
        require(not b.free_symbols, "symbols left")


# ------------------------------------------------------------ many qubits


@st.composite
def wide(draw):
    n = draw(st.integers(6, 13))
    top = 2**n - 1
    idx = draw(st.lists(st.one_of(st.integers(0, top), st.sampled_from([0, 1, top, top - 1, top // 2])), min_size=1, max_size=6, unique=True))
    w = [draw(st.integers(1, 9)) for _ in idx]
    ph = [draw(st.floats(-3, 3)) for _ in idx]
    return {"n": n, "idx": idx, "w": w, "ph": ph}


@sub(wide, quick=40, thorough=800, rule="nine qubits or more", nt=lambda x: x["n"] >= 9)
def many_qubits(x):
    """A few non-zero amplitudes among many: tables, flips and files name the right outcomes."""
    from zquantum.core.measurement import load_wavefunction, save_wavefunction
    from zquantum.core.wavefunction import Wavefunction, flip_wavefunction

    n, total = x["n"], sum(x["w"])
    v = np.zeros(2**n, dtype=complex)
    for i, w, p in zip(x["idx"], x["w"], x["ph"]):
        v[i] = math.sqrt(w / total) * np.exp(1j * p)
    state = Wavefunction(v)
    require(state.n_qubits == n and len(state) == 2**n, "size of the state")
    table = state.get_outcome_probs()
    require(len(table) == 2**n, "outcome table size", len(table))
    model = {"".join(str((i >> q) & 1) for q in range(n)): w / total for i, w in zip(x["idx"], x["w"])}
    for key, p in table.items():
        require(len(key) == n and set(key) <= {"0", "1"}, f"outcome {key!r} of {n} qubits")
        require(abs(p - model.get(key, 0.0)) < 1e-12, f"probability of {key}", p, model.get(key, 0.0))
    flipped = np.asarray(flip_wavefunction(state).amplitudes)
    want = np.zeros(2**n, dtype=complex)
    for i in x["idx"]:
        want[int(format(i, f"0{n}b")[::-1], 2)] = v[i]
    require(np.array_equal(flipped, want), "flipped amplitudes")
    with scratch():
        save_wavefunction(state, "w.json")
        require(np.array_equal(load_wavefunction("w.json").amplitudes, v), "amplitudes differ after saving and loading")
    # writing keeps the norm
    i = x["idx"][0]
    raises(ValueError, lambda: state.__setitem__(i, v[i] + 1.5), "a write that breaks the norm")
    require(np.array_equal(np.asarray(state.amplitudes), v), "a refused write changed the state")
