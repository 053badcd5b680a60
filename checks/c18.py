"""C18: tensor-form operators denote the same operator through every change."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import excluded, label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated tensors and histories of arithmetic against a dictionary model and dense occupation-number matrices"
ASSUMPTIONS = [
    "up to 7 modes; products of up to 6 ladder operators per tensor (4 modes and 4 ladder operators in histories)",
    "tensors have at least one non-constant part (the number of modes is read from it)",
    "rotations are unitary up to rounding",
    "projection keeps the constant unless an exact, non-empty selection is made",
]

F18 = "F18-missing-key-sign"
KEYS = [(1,), (0,), (1, 0), (0, 1), (1, 1), (0, 0), (1, 0, 1), (1, 1, 0, 0), (1, 0, 1, 0), (0, 1, 1, 0), (0, 0, 1, 1)]
NUMS = [1, -1, 2, 0.5, -0.25, 1.5, -3, 0.75]


@st.composite
def tensors(draw, n, keys=None, min_keys=1, cplx=None, nums=None):
    cplx = draw(st.booleans()) if cplx is None else cplx
    chosen = draw(st.lists(st.sampled_from(keys or KEYS), min_size=min_keys, max_size=3, unique=True))
    parts = []
    for k in chosen:
        entries = [[[draw(st.integers(0, n - 1)) for _ in k], draw(st.sampled_from(nums or NUMS)), draw(st.sampled_from([0, 0, 1, -0.5])) if cplx else 0] for _ in range(draw(st.integers(0, 4)))]
        parts.append([list(k), entries])
    return {"n": n, "cplx": cplx, "int": not cplx and draw(st.integers(0, 4)) == 0, "parts": parts, "constant": draw(st.one_of(st.none(), st.sampled_from([0, 1, -0.5, 2.25])))}


def model(t):
    """{key: {index: value}} with the constant at ()."""
    out = {}
    for k, entries in t["parts"]:
        d = out.setdefault(tuple(k), {})
        for idx, x, y in entries:
            d[tuple(idx)] = int(2 * x) if t["int"] else complex(x, y)
    if t["constant"] is not None:
        out[()] = {(): t["constant"]}
    return out


def arrays(m, t):
    out = {}
    for k, d in m.items():
        if k == ():
            out[k] = d[()]
            continue
        a = np.zeros((t["n"],) * len(k), dtype=int if t["int"] else complex if t["cplx"] else float)
        for idx, v in d.items():
            a[idx] = v if t["cplx"] or t["int"] else v.real
        out[k] = a
    return out


def make(t):
    from zquantum.core.openfermion.ops import PolynomialTensor

    return PolynomialTensor(arrays(model(t), t))


def model_matrix(m, n):
    out = np.zeros((2**n, 2**n), dtype=complex)
    for k, d in m.items():
        for idx, v in d.items():
            out += v * ref.fermion_term_matrix(list(zip(idx, k)), n)
    return out


def model_masks(m):
    """The same operator as a Pauli sum, for any number of modes."""
    return ref.jw_masks({tuple(zip(idx, k)): v for k, d in m.items() for idx, v in d.items()})


SIX = (1, 1, 1, 0, 0, 0)


def content(obj):
    """Non-zero elements of a tensor object as {key: {index: value}}."""
    out = {}
    for k, a in obj.n_body_tensors.items():
        if k == ():
            d = {(): complex(a)} if a != 0 else {}
        else:
            d = {tuple(int(x) for x in i): complex(a[tuple(i)]) for i in np.argwhere(np.asarray(a) != 0)}
        if d:
            out[k] = d
    return out


def clean(m):
    out = {}
    for k, d in m.items():
        e = {i: complex(v) for i, v in d.items() if v != 0}
        if e:
            out[k] = e
    return out


def same(a, b, tol=1e-9):
    a, b = clean(a), clean(b)
    for k in set(a) | set(b):
        x, y = a.get(k, {}), b.get(k, {})
        for i in set(x) | set(y):
            if abs(x.get(i, 0) - y.get(i, 0)) > tol:
                return False
    return True


def combine(a, b, f):
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k, {}), b.get(k, {})
        out[k] = {i: f(x.get(i, 0), y.get(i, 0)) for i in set(x) | set(y)}
    return out


@st.composite
def single(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    return draw(tensors(n, KEYS + [SIX, (1, 0, 0, 1, 1, 0)] if n <= 4 else KEYS, nums=NUMS + [1e-3, 5e-5, -5e-7, 6e-7]))


@sub(single(), quick=400, thorough=10000, rule="two or more kinds of tensor, one with two or more entries", nt=lambda t: len(t["parts"]) >= 2 and any(len(e) >= 2 for _, e in t["parts"]))
def access_and_fermion_form(t):
    t = dict(t, int=False)  # the tensors are documented as arrays of floats
    from zquantum.core.openfermion import get_fermion_operator, get_polynomial_tensor
    from zquantum.core.openfermion.utils import count_qubits

    n = t["n"]
    m = model(t)
    obj = make(t)
    require(obj.n_qubits == n and count_qubits(obj) == n, "number of modes", obj.n_qubits)
    require(obj.constant == m.get((), {(): 0})[()], "constant", obj.constant)
    full = clean(m)
    for k, d in m.items():
        if k == ():
            require(obj[()] == d[()], "constant through element access")
            continue
        every = itertools.product(range(n), repeat=len(k)) if n ** len(k) <= 300 else [tuple((i + s) % n for i in idx) for idx in list(d) + [tuple(range(len(k)))] for s in range(n)]
        for idx in every:
            require(obj[tuple(zip(idx, k))] == d.get(idx, 0), "element access", k, idx)
    listed = list(obj)
    want = {tuple(zip(i, k)) for k, d in full.items() for i in d} | ({()} if () in m else set())
    require(len(listed) == len(set(listed)) and set(listed) == want, "iteration does not list the non-zero elements once each", listed, want)
    fop = get_fermion_operator(obj)
    mat = model_masks(m)
    require(ref.masks_close(ref.jw_masks(fop.terms), mat, 1e-10), "fermion form", obj, fop.terms)
    if any(abs(v) > 1e-9 for v in mat.values()) and any(len(x) for x in fop.terms) and any(len(x) for x in _normal(fop).terms):
        back = get_polynomial_tensor(fop, n)
        require(back.n_qubits == n and ref.masks_close(model_masks(content(back)), mat, 1e-7), "tensor form of the fermion form", obj, back)
        require(ref.masks_close(ref.jw_masks(get_fermion_operator(back).terms), mat, 1e-7), "there and back again")
        w = count_qubits(fop)
        own = get_polynomial_tensor(fop)
        require(own.n_qubits == w, "derived number of modes", own.n_qubits, w)
        if w:
            raises(ValueError, lambda: get_polynomial_tensor(fop, w - 1), "too few modes")
        label("converted back")
    # element assignment
    for k in list(m):
        if k == ():
            continue
        idx = tuple((i + 1) % n for i in range(len(k)))
        obj[tuple(zip(idx, k))] = 7
        m[k][idx] = 7
    obj.constant = 4
    m[()] = {(): 4}
    require(same(content(obj), m), "element assignment", obj, m)
    raises(TypeError, lambda: get_polynomial_tensor(obj), "a tensor instead of a fermion operator")


def _normal(op):
    from zquantum.core.openfermion import normal_ordered

    return normal_ordered(op)





# ----- histories of arithmetic --------------------------------------------------------------------------


@st.composite
def histories(draw):
    n = draw(st.integers(1, 3))
    keys = draw(st.sampled_from([KEYS, [(1, 0), (1, 1, 0, 0)], [(1, 0), (0, 1)]]))
    start = [draw(tensors(n, keys)) for _ in range(draw(st.integers(2, 3)))]
    interactions = draw(st.integers(0, 3)) == 0
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["add", "iadd", "iadd", "sub", "isub", "mul", "imul", "smul", "ismul", "ismul", "rsmul", "div", "idiv", "neg", "sadd", "siadd", "ssub", "srsub", "sradd", "map", "mod", "copy", "set"]))
        steps.append([op, draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 3)), draw(st.sampled_from([2, -1, 0.5, -0.25, 4]))])
    return {"n": n, "start": start, "steps": steps, "interaction": interactions}


def interaction_object(t):
    from zquantum.core.openfermion.ops import InteractionOperator

    m = {k: d for k, d in model(t).items() if k in ((), (1, 0), (1, 1, 0, 0))}
    m.setdefault((), {(): 0.0})
    m.setdefault((1, 0), {})
    m.setdefault((1, 1, 0, 0), {})
    a = arrays(m, t)
    return m, a, InteractionOperator(a[()], a[(1, 0)], a[(1, 1, 0, 0)])


@sub(histories(), quick=700, thorough=20000, rule="three or more steps, one in place", nt=lambda c: len(c["steps"]) >= 3 and any(s[0] in ("iadd", "isub", "imul", "ismul", "idiv", "siadd") for s in c["steps"]))
def arithmetic_histories(case):
    """A pool of tensors; after every step all of them are compared with their models."""
    from zquantum.core.openfermion.ops import PolynomialTensor

    n = case["n"]
    pool, models, given = [], [], []
    owned = []
    for t in case["start"]:
        owned.append(False)
        if case["interaction"]:
            m, a, o = interaction_object(t)
        else:
            m = model(t)
            a = arrays(m, t)
            o = PolynomialTensor(dict(a))
        pool.append(o)
        models.append(m)
        given.append((a, {k: np.array(v) for k, v in a.items()}))
    for op, i, j, dest, x in case["steps"]:
        i, j = i % len(pool), j % len(pool)
        a, b, ma, mb = pool[i], pool[j], models[i], models[j]
        new = mnew = None
        inplace = None
        alternative = None
        if op == "set":
            # results do not share their entries with the operands they were computed from
            keys = [k for k in a.n_body_tensors if k != ()]
            if owned[i] and keys:
                k = keys[j % len(keys)]
                idx = tuple((dest + q) % n for q in range(len(k)))
                a[tuple(zip(idx, k))] = 7
                models[i] = {q: dict(d) for q, d in ma.items()}
                models[i].setdefault(k, {})[idx] = 7
                label("entry assigned")
                for o, m in zip(pool, models):
                    require(same(content(o), m), "assigning an entry changed another tensor", m, o)
            continue
        if op in ("add", "iadd"):
            mnew = combine(ma, mb, lambda u, v: u + v)
        elif op in ("sub", "isub"):
            mnew = combine(ma, mb, lambda u, v: u - v)
            missing = [k for k in mb if k not in a.n_body_tensors and any(mb[k].values())]
            if missing:
                excluded(F18)
                alternative = {k: dict(d) if k not in missing else dict(mb[k]) for k, d in mnew.items()}
        elif op in ("mul", "imul"):
            mnew = {k: {q: v * mb.get(k, {}).get(q, 0) for q, v in d.items()} for k, d in ma.items()}
        elif op in ("smul", "ismul", "rsmul"):
            mnew = {k: {q: v * x for q, v in d.items()} for k, d in ma.items()}
        elif op in ("div", "idiv"):
            mnew = {k: {q: v / x for q, v in d.items()} for k, d in ma.items()}
        elif op in ("neg", "srsub"):
            mnew = {k: {q: -v for q, v in d.items()} for k, d in ma.items()}
        elif op == "copy":
            import copy

            mnew = ma
        elif op == "map":
            mnew = {k: {q: v * v for q, v in d.items()} for k, d in ma.items()}
        elif op == "mod":
            if any(np.iscomplexobj(v) for v in a.n_body_tensors.values()):
                continue
            mnew = {k: {q: complex(v).real % 2 for q, v in d.items()} for k, d in ma.items()}
        else:
            mnew = {k: dict(d) for k, d in ma.items()}
        if op in ("sadd", "siadd", "sradd", "srsub"):
            mnew = {k: dict(d) for k, d in mnew.items()}
            mnew[()] = {(): mnew.get((), {(): 0})[()] + x}
        if op == "ssub":
            mnew[()] = {(): mnew.get((), {(): 0})[()] - x}
        if op == "add":
            new = a + b
        elif op == "iadd":
            inplace = a
            a += b
            new = a
        elif op == "sub":
            new = a - b
        elif op == "isub":
            inplace = a
            a -= b
            new = a
        elif op == "mul":
            new = a * b
        elif op == "imul":
            inplace = a
            a *= b
            new = a
        elif op == "smul":
            new = a * x
        elif op == "rsmul":
            new = x * a
        elif op == "ismul":
            inplace = a
            a *= x
            new = a
        elif op == "div":
            new = a / x
        elif op == "idiv":
            inplace = a
            a /= x
            new = a
        elif op == "neg":
            new = -a
        elif op == "sadd":
            new = a + x
        elif op == "sradd":
            new = x + a
        elif op == "siadd":
            inplace = a
            a += x
            new = a
        elif op == "ssub":
            new = a - x
        elif op == "srsub":
            new = x - a
        elif op == "map":
            new = a.with_function_applied_elementwise(lambda v: v * v)
        elif op == "mod":
            new = a % 2
        else:
            new = copy.deepcopy(a)
        label(op)
        require(isinstance(new, PolynomialTensor) and new.n_qubits == n, "result type or number of modes", op, type(new), new.n_qubits)
        if alternative is not None and not same(content(new), mnew):
            # the recorded finding, and nothing else
            require(same(content(new), alternative), "subtraction", op, ma, mb, new)
            mnew = alternative
        require(same(content(new), mnew), f"result of {op}", ma, mb, x, new)
        for k in new.n_body_tensors:
            if k == ():
                continue
            at = tuple(zip([dest % n] * len(k), k))
            value = new[at]
            new[at] = value + 1
            for o, m in ((a, ma), (b, mb)):
                if o is not new:
                    require(same(content(o), m), f"assigning an entry of the result of {op} changed its operand", m, o)
            new[at] = value
        if inplace is not None:
            require(new is inplace, "an in-place operation made another object", op)
            models[i] = mnew
        elif dest < len(pool) and len(pool) >= 3:
            pool[dest], models[dest], owned[dest] = new, mnew, True
        else:
            pool.append(new)
            models.append(mnew)
            owned.append(True)
        for o, m in zip(pool, models):
            require(same(content(o), m), f"{op} changed another tensor", m, o)
        for now, was in given:
            require(set(now) == set(was) and all(np.array_equal(now[k], was[k]) for k in was), f"{op} changed the caller's arrays")
    for a, ma in zip(pool, models):
        for b, mb in zip(pool, models):
            d = [abs(v) for k, e in combine(ma, mb, lambda u, v: u - v).items() for v in e.values()]
            if all(v < 1e-10 or v > 1e-6 for v in d):
                eq = all(v < 1e-10 for v in d)
                require(bool(a == b) == eq and bool(a != b) == (not eq), "comparison", ma, mb)


@st.composite
def mismatches(draw):
    n = draw(st.integers(1, 3))
    return [draw(tensors(n, [(1, 0), (0, 1)])), draw(tensors(draw(st.sampled_from([k for k in (1, 2, 3) if k != n])), [(1, 0), (0, 1)]))]


@sub(mismatches(), quick=60, thorough=500, rule="entries on both sides", nt=lambda c: all(any(e for _, e in t["parts"]) for t in c))
def mismatched_operands(case):
    a, b = make(case[0]), make(case[1])
    for f in (lambda: a + b, lambda: a - b, lambda: a * b, lambda: a + "x", lambda: a - None, lambda: a * "x", lambda: a / b, lambda: a / "x"):
        raises(TypeError, f, "operands that do not fit")
    require(not (a == b) and a != b, "tensors on different numbers of modes compare equal")
    require(same(content(a), model(case[0])) and same(content(b), model(case[1])), "a rejected operation changed an operand")


# ----- projections -----------------------------------------------------------------------------------------


@st.composite
def projections(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    sel = draw(st.one_of(st.integers(0, 6), st.lists(st.integers(0, n - 1), max_size=n, unique=True)))
    return {"t": draw(tensors(n, KEYS + [SIX] if n <= 5 else KEYS)), "selection": sel, "exact": draw(st.booleans()), "form": draw(st.sampled_from(["list", "set", "iterator"]))}


@sub(projections(), quick=300, thorough=6000, rule="an entry with two or more different modes", nt=lambda c: any(len(set(e[0])) >= 2 for _, es in c["t"]["parts"] for e in es))
def projection(case):
    sel, exact = case["selection"], case["exact"]
    obj, m = make(case["t"]), model(case["t"])
    arg = sel if isinstance(sel, int) else {"list": list, "set": set, "iterator": iter}[case["form"]](sel)
    got = obj.projected_n_body_tensors(arg, exact) if exact else obj.projected_n_body_tensors(arg)

    def keep(idx):
        s = set(idx)
        if isinstance(sel, int):
            return len(s) == sel if exact else len(s) <= sel
        return s == set(sel) if exact else s <= set(sel)

    want = {k: {i: v for i, v in d.items() if keep(i)} for k, d in m.items() if k != ()}
    if () in m:
        want[()] = {(): 0 if exact and sel not in (0, []) else m[()][()]}
    require(set(got) == set(m), "kinds of tensor", set(got))
    from zquantum.core.openfermion.ops import PolynomialTensor

    require(same(content(PolynomialTensor(got)), want), "projection", sel, exact, m, got)
    require(same(content(obj), m), "projecting changed the tensor")
    mi, _, inter = interaction_object(case["t"])
    arg = sel if isinstance(sel, int) else {"list": list, "set": set, "iterator": iter}[case["form"]](sel)
    p = inter.projected(arg, exact)
    want = {k: {i: v for i, v in d.items() if keep(i)} for k, d in mi.items() if k != ()}
    want[()] = {(): 0 if exact and sel not in (0, []) else mi[()][()]}
    require(type(p) is type(inter) and same(content(p), want), "projected interaction operator", sel, exact, mi, p)
    require(same(content(type(inter).zero(case["t"]["n"])), {}), "the zero operator")


# ----- symmetry-unique elements -------------------------------------------------------------------------------


@st.composite
def symmetric_tensors(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    cplx = draw(st.booleans())
    quads = [[draw(st.integers(0, n - 1)) for _ in range(4)] for _ in range(draw(st.integers(0, 4)))]
    if n >= 4 and draw(st.booleans()):
        quads.append(list(draw(st.permutations(range(n))))[:4])
    pairs = [[draw(st.integers(0, n - 1)) for _ in range(2)] for _ in range(draw(st.integers(0, 3)))]
    return {"n": n, "cplx": cplx, "quads": quads, "pairs": pairs, "constant": draw(st.sampled_from([0, 1.5]))}


def orbit(q, cplx):
    gens = [lambda p, q, r, s: (q, p, s, r), lambda p, q, r, s: (s, r, q, p)]
    if not cplx:
        gens.append(lambda p, q, r, s: (r, q, p, s))
    todo, seen = [tuple(q)], {tuple(q)}
    while todo:
        x = todo.pop()
        for g in gens:
            y = g(*x)
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


@sub(symmetric_tensors(), quick=150, thorough=3000, rule="an orbit of four or more elements", nt=lambda c: any(len(orbit(q, c["cplx"])) >= 4 for q in c["quads"]))
def unique_elements(case):
    """unique_iter gives exactly one element of every symmetry class."""
    from zquantum.core.openfermion.ops import InteractionOperator

    n, cplx = case["n"], case["cplx"]
    one, two = np.zeros((n, n)), np.zeros((n,) * 4)
    for p, q in case["pairs"]:
        one[p, q] = one[q, p] = 0.5
    for q in case["quads"]:
        for o in orbit(q, cplx):
            two[o] = 1.25
    op = InteractionOperator(case["constant"], one, two)
    got = list(op.unique_iter(cplx))
    require((() in got) == bool(case["constant"]), "constant", got)
    classes = [frozenset(t) if len(t) != 4 else t for t in got]
    require(len(set(classes)) == len(classes), "an element is listed twice", got)
    require(sorted(tuple(sorted(i for i, _ in t)) for t in got if len(t) == 2) == sorted({tuple(sorted(p)) for p in case["pairs"]}), "one-body elements", got)
    require(all([a for _, a in t] == [1, 0] for t in got if len(t) == 2), "one-body actions")
    quads = [tuple(i for i, _ in t) for t in got if len(t) == 4]
    require(all([a for _, a in t] == [1, 1, 0, 0] for t in got if len(t) == 4), "two-body actions")
    want = {frozenset(orbit(q, cplx)) for q in case["quads"]}
    require(len(quads) == len(want) and {frozenset(orbit(q, cplx)) for q in quads} == want, "two-body elements", quads, want)


# ----- fermion operators to interaction operators -----------------------------------------------------------------


@st.composite
def two_body(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8]))
    terms = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from([0, 1, 1, 2, 2, 2]))
        acts = draw(st.permutations([1] * k + [0] * k))
        c = draw(st.sampled_from([0.5, -1.0, [0.25, 1.0], 2, 5e-7]))
        terms.append([[[draw(st.integers(0, n - 1)), a] for a in acts], c])
    bad = draw(st.one_of(st.none(), st.none(), st.sampled_from([[1], [0], [1, 1], [0, 0], [1, 1, 1, 0], [1, 1, 1, 0, 0, 0]])))
    return {"n": n, "terms": terms, "bad": bad, "given": draw(st.booleans()), "extra": draw(st.integers(0, 1))}


@sub(two_body(), quick=300, thorough=6000, rule="a two-body term among two or more terms", nt=lambda c: len(c["terms"]) >= 2 and any(len(f) == 4 for f, _ in c["terms"]))
def interaction_form(case):
    from zquantum.core.openfermion import get_fermion_operator, get_interaction_operator
    from zquantum.core.openfermion.ops import FermionOperator, InteractionOperator
    from zquantum.core.openfermion.ops.representations import InteractionOperatorError
    from zquantum.core.openfermion.utils import count_qubits

    desc = {"kind": "fermion", "terms": case["terms"]}
    op = ops.build(desc)
    before = dict(op.terms)
    w = count_qubits(op)
    n = w + case["extra"] if case["given"] else w
    got = get_interaction_operator(op, n) if case["given"] else get_interaction_operator(op)
    require(type(got) is InteractionOperator and got.n_qubits == n, "type or number of modes", got.n_qubits, n)
    mat = {}
    for fs, c in case["terms"]:
        mat = ref.masks_add(mat, ref.jw_masks({tuple((i, a) for i, a in fs): complex(ops.coef_val(c))}))
    require(ref.masks_close(model_masks(content(got)), mat, 1e-7), "interaction form differs", op.terms, got)
    require(ref.masks_close(ref.jw_masks(get_fermion_operator(got).terms), mat, 1e-7), "there and back again", op.terms)
    require(op.terms == before, "the operator was changed")
    if w:
        raises(ValueError, lambda: get_interaction_operator(op, w - 1), "too few modes")
    raises(TypeError, lambda: get_interaction_operator(got), "an interaction operator as argument")
    if case["bad"] is not None:
        term = tuple((10 + i, a) for i, a in enumerate(case["bad"]))
        raises(InteractionOperatorError, lambda: get_interaction_operator(op + FermionOperator(term, 0.5)), f"a term with actions {case['bad']}")
        label("unsuitable term")


# ----- basis rotations ---------------------------------------------------------------------------------------------


@st.composite
def rotations(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6]))
    spin = n % 2 == 0 and draw(st.booleans())
    k = n // 2 if spin else n
    return {"t": draw(tensors(n, KEYS + [SIX, (1, 1, 0, 0, 1, 0)] if 3 <= n <= 4 else KEYS, min_keys=1)), "spin": spin, "kind": draw(st.sampled_from(["orthogonal", "unitary", "permutation", "phases"])), "k": k, "seed": draw(st.integers(0, 10**6)), "interaction": draw(st.booleans())}


def rotation_matrix(kind, k, seed):
    r = np.random.RandomState(seed)
    if kind == "permutation":
        return np.eye(k)[r.permutation(k)]
    if kind == "phases":
        return np.diag(np.exp(1j * r.uniform(0, 7, k)))
    a = r.randn(k, k) + (1j * r.randn(k, k) if kind == "unitary" else 0)
    q, _ = np.linalg.qr(a)
    return q


@sub(rotations(), quick=300, thorough=6000, rule="two or more modes rotated and an entry with two or more factors", nt=lambda c: c["k"] >= 2 and any(len(k) >= 2 and e for k, e in c["t"]["parts"]))
def basis_rotation(case):
    """sum M' b..b = sum M a..a with b^dagger_A = sum_a R[a, A] a^dagger_a."""
    n = case["t"]["n"]
    rot = rotation_matrix(case["kind"], case["k"], case["seed"])
    full = np.kron(rot, np.eye(2)) if case["spin"] else rot
    if case["interaction"]:
        m, a, obj = interaction_object(case["t"])
    else:
        m = model(case["t"])
        a = arrays(m, case["t"])
        from zquantum.core.openfermion.ops import PolynomialTensor

        obj = PolynomialTensor(dict(a))
    was = {k: np.array(v) for k, v in a.items()}
    keep = rot.copy()
    obj.rotate_basis(rot)
    # M[a, b, ...] = sum M'[A, B, ...] R[a, A] (conjugated for lowering operators) R[b, B] ...
    for k, arr in obj.n_body_tensors.items():
        if k == ():
            require(arr == a[()], "constant changed by a rotation", arr)
            continue
        back = np.asarray(arr, dtype=complex)
        for axis, act in enumerate(k):
            back = np.moveaxis(np.tensordot(full if act else full.conj(), back, axes=(1, axis)), 0, axis)
        require(ref.close(back, was[k], 1e-7), "rotating the tensor back gives another one", k, rot, m)
    label(case["kind"] + (" with spin" if case["spin"] else ""))
    if n > 4:
        return
    mat = model_matrix(m, n)
    up = [sum(full[x, A] * ref.ladder(n, x, True) for x in range(n)) for A in range(n)]
    down = [u.conj().T for u in up]
    total = np.zeros_like(mat)
    for k, d in content(obj).items():
        for idx, v in d.items():
            x = np.eye(2**n, dtype=complex)
            for i, act in zip(idx, k):
                x = x @ (up if act else down)[i]
            total += v * x
    require(ref.close(total, mat, 1e-7), "the rotated tensor in the rotated basis is another operator", m, rot, obj)
    require(np.array_equal(rot, keep) and all(np.array_equal(a[k], was[k]) for k in a), "rotation changed the caller's arrays")
    from zquantum.core.openfermion.ops.representations import general_basis_change

    for k in was:
        if k == ():
            continue
        require(ref.close(general_basis_change(was[k], rot, k), obj.n_body_tensors[k], 1e-7), "general_basis_change", k)


# ----- diagonal part, number operator, reordering, inactive orbitals --------------------------------------------------


@st.composite
def diagonals(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6]))
    t = draw(tensors(n, KEYS if draw(st.booleans()) else [(1, 0), (1, 1, 0, 0), (1, 0, 1, 0), (0, 1), (0, 1, 1, 0)]))
    for k, entries in t["parts"]:
        if len(k) in (2, 4) and sum(k) * 2 == len(k):
            for e in entries:
                if draw(st.booleans()):
                    ups = [i for i, a in zip(e[0], k) if a]
                    downs = draw(st.permutations(ups))
                    u, d = iter(ups), iter(downs)
                    e[0] = [next(u) if a else next(d) for a in k]
    return {"t": t, "interaction": draw(st.booleans())}


@sub(diagonals(), quick=300, thorough=6000, rule="two or more entries", nt=lambda c: sum(len(e) for _, e in c["t"]["parts"]) >= 2)
def diagonal_component(case):
    from zquantum.core.openfermion import get_diagonal_component

    n = case["t"]["n"]
    if case["interaction"]:
        m, a, obj = interaction_object(case["t"])
    else:
        m, obj = model(case["t"]), make(case["t"])
    diag, rest = get_diagonal_component(obj)
    require(same(content(obj), m), "splitting changed the operator")
    mat = model_masks(m)
    md, mr = model_masks(content(diag)), model_masks(content(rest))
    require(type(diag) is type(obj) and type(rest) is type(obj), "types of the parts")
    require(ref.masks_close(ref.masks_add(md, mr), mat), "the parts do not add up", m, diag, rest)
    require(all(x == 0 or abs(v) < 1e-9 for (x, z), v in md.items()), "the diagonal part is not diagonal", diag)
    require(all(x != 0 or abs(v) < 1e-9 for (x, z), v in mr.items()), "the remainder has a diagonal", rest)
    label("diagonal and remainder" if any(map(abs, md.values())) and any(map(abs, mr.values())) else "one part only")
    raises(TypeError, lambda: get_diagonal_component(np.eye(4)), "an array")


@st.composite
def numbers(draw):
    return {"n": draw(st.integers(1, 6)), "k": draw(st.one_of(st.none(), st.integers(-1, 7), st.sampled_from([1.5])))}


@sub(numbers(), quick=40, thorough=60, rule="a number of particles", nt=lambda c: c["k"] is not None)
def number_operators(case):
    from zquantum.core.openfermion import get_fermion_number_operator

    n, k = case["n"], case["k"]
    op = get_fermion_number_operator(n, k) if k is not None else get_fermion_number_operator(n)
    want = np.diag([bin(i).count("1") - (k or 0) for i in range(2**n)]).astype(complex)
    require(op.n_qubits == n and ref.close(model_matrix(content(op), n), want), "number operator", case, op)


@st.composite
def orderings(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
    return {"t": draw(tensors(n, [(1, 0), (1, 1, 0, 0)], min_keys=2)), "order": list(draw(st.permutations(range(n)))), "form": draw(st.sampled_from(["list", "array"]))}


@sub(orderings(), quick=200, thorough=4000, rule="a non-trivial ordering and an entry", nt=lambda c: c["order"] != sorted(c["order"]) and any(e for _, e in c["t"]["parts"]))
def mode_reordering(case):
    from zquantum.core.hamiltonian import reorder_fermionic_modes

    order = case["order"]
    m, a, obj = interaction_object(case["t"])
    got = reorder_fermionic_modes(obj, order if case["form"] == "list" else np.array(order))
    pos = {old: new for new, old in enumerate(order)}
    want = {k: {tuple(pos[i] for i in idx): v for idx, v in d.items()} for k, d in m.items()}
    require(same(content(got), want), "reordered operator", m, order, got)
    got.one_body_tensor[0, 0] = 99
    got.two_body_tensor[0, 0, 0, 0] = 99
    require(same(content(obj), m), "reordering changed (or shares data with) its argument")
    inverse = [pos[i] for i in range(len(order))]
    require(same(content(reorder_fermionic_modes(reorder_fermionic_modes(obj, order), inverse)), m), "the inverse ordering does not undo it")


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([8, 9, 10, 12]), "order": st.integers(0, 10**6), "seed": st.integers(0, 10**6), "cplx": st.booleans()}),
    quick=12,
    thorough=150,
    rule="nine modes or more",
    nt=lambda c: c["n"] >= 9,
)
def wide_reordering(case):
    """Reordering full tensors of up to twelve modes."""
    from zquantum.core.hamiltonian import reorder_fermionic_modes
    from zquantum.core.openfermion.ops import InteractionOperator

    n, rs = case["n"], np.random.RandomState(case["seed"])
    one, two = rs.uniform(-1, 1, (n,) * 2), rs.uniform(-1, 1, (n,) * 4)
    if case["cplx"]:
        one, two = one + 1j * rs.uniform(-1, 1, one.shape), two + 1j * rs.uniform(-1, 1, two.shape)
    order = [int(i) for i in np.random.RandomState(case["order"]).permutation(n)]
    got = reorder_fermionic_modes(InteractionOperator(0.5, one, two), order)
    require(np.array_equal(got.one_body_tensor, one[np.ix_(order, order)]) and np.array_equal(got.two_body_tensor, two[np.ix_(order, order, order, order)]) and got.constant == 0.5, "reordered tensors", n, order)


@st.composite
def active_spaces(draw):
    orbitals = draw(st.sampled_from([1, 2, 3, 4, 5]))
    n = 2 * orbitals
    core = draw(st.integers(0, orbitals))
    active = draw(st.one_of(st.none(), st.integers(0, orbitals - core)))
    t = draw(tensors(n, [(1, 0), (1, 1, 0, 0)], min_keys=2, cplx=None))
    for k, entries in t["parts"]:
        extra = draw(st.integers(0, 4))
        for _ in range(extra):
            h = [draw(st.integers(0, n - 1)) for _ in range(len(k) // 2)]
            entries.append([h + list(draw(st.permutations(h))), draw(st.sampled_from(NUMS)), 0])
    return {"t": t, "core": core, "active": active, "default_core": core == 0 and draw(st.booleans()), "orbitals": orbitals}


@sub(active_spaces(), quick=250, thorough=5000, rule="something removed and something left", nt=lambda c: c["core"] < c["orbitals"] and (c["core"] > 0 or c["active"] not in (None, c["orbitals"])) and c["active"] != 0)
def inactive_orbitals(case):
    """The result is the block of the matrix with the core filled and the virtual orbitals empty."""
    from zquantum.core.openfermion import remove_inactive_orbitals

    n = case["t"]["n"]
    m, a, obj = interaction_object(dict(case["t"], int=False))
    kwargs = {}
    if case["active"] is not None:
        kwargs["n_active"] = case["active"]
    if not case["default_core"]:
        kwargs["n_core"] = case["core"]
    got = remove_inactive_orbitals(obj, **kwargs)
    left = 2 * (case["orbitals"] - case["core"] if case["active"] is None else case["active"])
    require(got.n_qubits == left, "number of active spin orbitals", got.n_qubits, left)
    if left > 6:
        block = ref.masks_freeze(model_masks(m), range(2 * case["core"]), range(2 * case["core"] + left, n))
        require(ref.masks_close(model_masks(content(got)), block, 1e-7), "matrix elements in the active space", m, kwargs, got)
        require(same(content(obj), m), "the operator was changed")
        return
    rows = [int("1" * (2 * case["core"]) + "".join(map(str, ref.bits(i, left))) + "0" * (n - left - 2 * case["core"]), 2) for i in range(2**left)]
    require(ref.close(model_matrix(content(got), left), ref.fermion_block([(list(zip(idx, k)), v) for k, d in m.items() for idx, v in d.items()], rows, n), 1e-7), "matrix elements in the active space", m, kwargs, got)
    require(same(content(obj), m), "the operator was changed")
    label(f"{left} of {n} spin orbitals left")


# ----- operators with every element present -----------------------------------------------------------------------------


def canonical(h):
    """Coefficients of p^ q^ r s with p > q and r > s."""
    a = h - h.transpose(1, 0, 2, 3)
    a = a - a.transpose(0, 1, 3, 2)
    return a


def number_terms(op, n):
    """The number-conserving one- and two-body terms of a fermion operator as canonical arrays."""
    c, h1, h2 = 0.0, np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for term, v in op.terms.items():
        acts = tuple(a for _, a in term)
        idx = tuple(i for i, _ in term)
        if acts == ():
            c += v
        elif acts == (1, 0):
            h1[idx] += v
        else:
            require(acts == (1, 1, 0, 0), "a term with other actions", term)
            h2[idx] += v
    return c, h1, canonical(h2)


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([2, 3, 4, 5, 6, 6, 7]), "seed": st.integers(0, 10**6), "cplx": st.booleans(), "holes": st.sampled_from([0.0, 0.0, 0.5, 0.9]), "exact": st.booleans()}),
    quick=40,
    thorough=800,
    shards=3,
    rule="five modes or more",
    nt=lambda c: c["n"] >= 5,
)
def dense_operators(case):
    from zquantum.core.hamiltonian import reorder_fermionic_modes
    from zquantum.core.openfermion import get_diagonal_component, get_fermion_operator, get_interaction_operator
    from zquantum.core.openfermion.ops import InteractionOperator, PolynomialTensor

    n, r = case["n"], np.random.RandomState(case["seed"])

    def some(*shape):
        x = r.randint(1, 9, shape) * r.choice([-0.25, 0.25], shape)
        if case["cplx"]:
            x = x + 1j * r.randint(1, 5, shape) * 0.5
        return x * (r.uniform(size=shape) >= case["holes"])

    h1, h2 = some(n, n), some(n, n, n, n)
    i = np.indices((n,) * 4)
    h2[(i[0] == i[1]) | (i[2] == i[3])] = 0  # these vanish as operators
    keep1, keep2 = h1.copy(), h2.copy()
    inter = InteractionOperator(0.75, h1, h2)
    poly = PolynomialTensor({(): 0.75, (1, 0): h1.copy(), (1, 1, 0, 0): h2.copy()})
    # element by element
    op = get_fermion_operator(inter)
    want = {((p, 1), (q, 0)): h1[p, q] for p in range(n) for q in range(n) if h1[p, q]}
    want.update({((a, 1), (b, 1), (c, 0), (d, 0)): h2[a, b, c, d] for a, b, c, d in np.argwhere(h2 != 0).tolist()})
    want[()] = 0.75
    got = {t: v for t, v in op.terms.items() if v != 0}
    require(got == want, "fermion form of a dense operator", n)
    require({t: v for t, v in get_fermion_operator(poly).terms.items() if v != 0} == want, "fermion form of a dense tensor", n)
    if n <= 6:
        back = get_interaction_operator(op, n)
        require(abs(back.constant - 0.75) < 1e-9 and ref.close(back.one_body_tensor, h1, 1e-8) and ref.close(canonical(back.two_body_tensor), canonical(h2), 1e-8), "interaction form of a dense operator", n)
    # diagonal and remainder
    one = np.eye(n, dtype=bool)
    pair = ((i[0] == i[2]) & (i[1] == i[3])) | ((i[0] == i[3]) & (i[1] == i[2]))
    for obj in (inter, poly):
        d, rest = get_diagonal_component(obj)
        require(d.constant == 0.75 and rest.constant == 0, "constants of the parts", d.constant, rest.constant)
        for x, h, sel in (((1, 0), h1, one), ((1, 1, 0, 0), h2, pair)):
            require(np.array_equal(d.n_body_tensors[x], np.where(sel, h, 0)), "diagonal part", type(obj), x, n)
            require(np.array_equal(rest.n_body_tensors[x], np.where(sel, 0, h)), "remainder", type(obj), x, n)
    # reordering
    order = [int(x) for x in r.permutation(n)]
    new = reorder_fermionic_modes(inter, order)
    require(np.array_equal(new.one_body_tensor, h1[np.ix_(order, order)]) and np.array_equal(new.two_body_tensor, h2[np.ix_(order, order, order, order)]) and new.constant == 0.75, "reordered dense operator", order)
    # projection
    sel = sorted(int(x) for x in r.permutation(n)[: r.randint(n + 1)])
    exact = case["exact"]
    inside = np.isin(np.arange(n), sel)
    for obj in (inter, poly):
        proj = obj.projected_n_body_tensors(list(sel), exact)
        for x, h in (((1, 0), h1), ((1, 1, 0, 0), h2)):
            j = np.indices(h.shape)
            ok = np.all(inside[j], axis=0)
            if exact:
                for s in sel:
                    ok &= np.any(j == s, axis=0)
            require(np.array_equal(proj[x], np.where(ok, h, 0)), "projection of a dense operator", sel, exact, x)
    # arithmetic
    o1, o2 = some(n, n), some(n, n, n, n)
    other = PolynomialTensor({(): -0.5, (1, 0): o1, (1, 1, 0, 0): o2})
    for name, res, f in (("+", poly + other, lambda a, b: a + b), ("-", poly - other, lambda a, b: a - b), ("*", poly * other, lambda a, b: a * b), ("* 3", poly * 3, lambda a, b: a * 3), ("/ 4", poly / 4, lambda a, b: a / 4), ("neg", -poly, lambda a, b: -a)):
        require(res.constant == f(0.75, -0.5) and ref.close(res.n_body_tensors[1, 0], f(h1, o1), 1e-12) and ref.close(res.n_body_tensors[1, 1, 0, 0], f(h2, o2), 1e-12), f"arithmetic {name}", n)
    # element access
    for p, q, s, t in r.randint(0, n, (20, 4)).tolist():
        require(inter[(p, 1), (q, 0)] == h1[p, q] and inter[(p, 1), (q, 1), (s, 0), (t, 0)] == h2[p, q, s, t], "element", p, q, s, t)
        poly[(p, 1), (q, 0)] = 5.5
        poly[(p, 1), (q, 1), (s, 0), (t, 0)] = 6.5
        require(poly.n_body_tensors[1, 0][p, q] == 5.5 and poly.n_body_tensors[1, 1, 0, 0][p, q, s, t] == 6.5, "element written", p, q, s, t)
    require(np.array_equal(h1, keep1) and np.array_equal(h2, keep2), "the caller's arrays were changed")
    # rotation
    rot = rotation_matrix("unitary" if case["cplx"] else "orthogonal", n, case["seed"])
    inter = InteractionOperator(0.75, h1.copy(), h2.copy())
    inter.rotate_basis(rot)
    for arr, h in ((inter.one_body_tensor, h1), (inter.two_body_tensor, h2)):
        back = np.asarray(arr, dtype=complex)
        for axis in range(back.ndim):
            back = np.moveaxis(np.tensordot(rot if axis < back.ndim // 2 else rot.conj(), back, axes=(1, axis)), 0, axis)
        require(ref.close(back, h, 1e-7), "rotation of a dense operator", n)
    require(inter.constant == 0.75, "constant")
