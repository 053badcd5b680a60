"""C13: operator arithmetic is exact linear and multiplicative algebra."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated expression trees over generated operators, in pure and in-place form, against dense matrices; term-wise models for closeness and truncation"
ASSUMPTIONS = [
    "three modes or fewer for matrix comparisons; coefficients between 1e-2 and 3 except in the closeness and truncation checks",
    "closeness and truncation cases lie clearly (by a tenth) on one side of the tolerance",
]
N = 3


@st.composite
def scalars(draw, symbolic):
    return draw(ops.coefs(symbolic))


@st.composite
def trees(draw, leaves, symbolic, depth):
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        return ["leaf", draw(st.integers(0, leaves - 1))]
    k = draw(st.sampled_from(["add", "sub", "mul", "mul", "iadd", "isub", "imul", "self", "scalar", "scalar", "pow", "neg", "const"]))
    child = trees(leaves, symbolic, depth - 1)
    if k in ("add", "sub", "mul", "iadd", "isub", "imul"):
        return [k, draw(child), draw(child)]
    if k == "self":
        return [k, draw(st.sampled_from(["+=", "-=", "*=", "+", "-", "*"])), draw(child)]
    if k == "scalar":
        return [k, draw(st.sampled_from(["l", "r", "i", "/", "/="])), draw(scalars(symbolic)), draw(child)]
    if k == "const":
        return [k, draw(st.sampled_from(["+", "r+", "+=", "-", "r-", "-="])), draw(scalars(symbolic)), draw(child)]
    if k == "pow":
        return [k, draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5, 6])), draw(child)]
    return [k, draw(child)]


@st.composite
def programs(draw, symbolic=False):
    kind = draw(st.sampled_from(["qubit", "qubit", "ising", "fermion", "fermion"]))
    m = draw(st.integers(1, 3))
    leaves = [draw(ops.operators(kind, N, max_terms=3, min_terms=0 if draw(st.integers(0, 9)) == 0 else 1, max_len=3, symbolic=symbolic)) for _ in range(m)]
    return {"kind": kind, "leaves": leaves, "tree": draw(trees(m, symbolic, 2 if symbolic else 3))}


def nodes(t):
    out = [t[0]]
    for x in t[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            out += nodes(x)
    return out


def magnitude(t):
    """Rough number of multiplications, to keep powers of powers small."""
    if t[0] == "leaf":
        return 1
    if t[0] == "pow":
        return max(1, t[1]) * magnitude(t[2])
    if t[0] == "self":
        return 2 * magnitude(t[2]) if "*" in t[1] else magnitude(t[2])
    kids = [magnitude(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str)]
    return sum(kids) if t[0] in ("mul", "imul") else max(kids)


def evaluate(t, leaves, mats):
    """Returns (object, matrix)."""
    out, mat = compute(t, leaves, mats)
    if t[0] != "leaf":
        ops.independent(f"result of {t[0]}", out, *leaves)
    return out, mat


def compute(t, leaves, mats):
    k = t[0]
    if k == "leaf":
        return leaves[t[1]], mats[t[1]]
    if k in ("add", "sub", "mul", "iadd", "isub", "imul"):
        (x, mx), (y, my) = evaluate(t[1], leaves, mats), evaluate(t[2], leaves, mats)
        mat = {"add": mx + my, "sub": mx - my, "mul": mx @ my}[k.lstrip("i")]
        if k == "add":
            return x + y, mat
        if k == "sub":
            return x - y, mat
        if k == "mul":
            return x * y, mat
        z = copy.deepcopy(x)
        keep = z
        if k == "iadd":
            z += y
        elif k == "isub":
            z -= y
        else:
            z *= y
        require(z is keep, f"{k} returned another object")
        return z, mat
    if k == "self":
        x, mx = evaluate(t[2], leaves, mats)
        x = copy.deepcopy(x)
        mat = {"+": 2 * mx, "-": 0 * mx, "*": mx @ mx}[t[1][0]]
        if t[1] == "+":
            return x + x, mat
        if t[1] == "-":
            return x - x, mat
        if t[1] == "*":
            return x * x, mat
        if t[1] == "+=":
            x += x
        elif t[1] == "-=":
            x -= x
        else:
            x *= x
        return x, mat
    if k == "scalar":
        s, v = ops.coef_obj(t[2]), ops.coef_val(t[2])
        x, mx = evaluate(t[3], leaves, mats)
        if t[1] == "l":
            return s * x, v * mx
        if t[1] == "r":
            return x * s, v * mx
        if t[1] == "/":
            return x / s, mx / v
        z = copy.deepcopy(x)
        keep = z
        if t[1] == "i":
            z *= s
            mat = v * mx
        else:
            z /= s
            mat = mx / v
        require(z is keep, "in-place scaling returned another object")
        return z, mat
    if k == "const":
        s, v = ops.coef_obj(t[2]), ops.coef_val(t[2])
        x, mx = evaluate(t[3], leaves, mats)
        eye = np.eye(2**N)
        if t[1] == "+":
            return x + s, mx + v * eye
        if t[1] == "r+":
            return s + x, mx + v * eye
        if t[1] == "-":
            return x - s, mx - v * eye
        if t[1] == "r-":
            return s - x, v * eye - mx
        z = copy.deepcopy(x)
        keep = z
        if t[1] == "+=":
            z += s
            mat = mx + v * eye
        else:
            z -= s
            mat = mx - v * eye
        require(z is keep, "in-place constant returned another object")
        return z, mat
    if k == "pow":
        x, mx = evaluate(t[2], leaves, mats)
        return x ** t[1], np.linalg.matrix_power(mx, t[1])
    x, mx = evaluate(t[1], leaves, mats)
    return -x, -mx


def check_form(op, kind):
    for term in op.terms:
        require(isinstance(term, tuple), "term key is not a tuple", term)
        if kind == "fermion":
            continue
        idx = [f[0] for f in term]
        require(idx == sorted(set(idx)), "factors are not simplified and sorted", term)
        require(all(f[1] in ("Z" if kind == "ising" else "XYZ") for f in term), "unknown action", term)


def run_program(case):
    C = ops.cls(case["kind"])
    leaves = [ops.build(o) for o in case["leaves"]]
    mats = [ops.matrix(o, N) for o in case["leaves"]]
    if magnitude(case["tree"]) > 8:
        label("skipped: too many multiplications")
        return
    for obj, mat in zip(leaves, mats):
        require(ref.close(ops.obj_matrix(obj, N), mat, 1e-6), "sum of the terms", obj)
        check_form(obj, case["kind"])
    kept = [dict(obj.terms) for obj in leaves]
    out, want = evaluate(case["tree"], leaves, mats)
    require(type(out) is C, "result has another type", type(out))
    require(ref.close(ops.obj_matrix(out, N), want, 1e-6), "result differs from the matrix expression", out)
    check_form(out, case["kind"])
    for obj, terms in zip(leaves, kept):
        require(obj.terms == terms, "an operand was modified", obj, terms)


@sub(
    programs(),
    quick=800,
    rule="an expression with two operations or more over a non-zero operator",
    nt=lambda c: len([k for k in nodes(c["tree"]) if k != "leaf"]) > 1 and any(o["terms"] for o in c["leaves"]),
)
def numeric(case):
    run_program(case)


@sub(
    programs(symbolic=True),
    quick=100,
    rule="an expression over an operator with a symbolic coefficient",
    nt=lambda c: '"sym"' in __import__("json").dumps(c) and c["tree"][0] != "leaf",
)
def symbolic(case):
    run_program(case)


# ---- closeness -----------------------------------------------------------------------------------
@st.composite
def close_pairs(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    keys = draw(st.lists(st.sampled_from(range(5)), min_size=1, max_size=5, unique=True))
    terms = []
    for k in keys:
        big = 10.0 ** draw(st.sampled_from([0, 0, 1, 3, 6, -3]))
        c = draw(st.sampled_from([1, -1, 2.5, 0.3])) * big
        how = draw(st.sampled_from(["same", "same", "same", "below", "below", "above", "left", "right", "left small", "right small"]))
        terms.append([k, c, how])
    return {"kind": kind, "terms": terms, "tol": draw(st.sampled_from([None, 1e-8, 1e-4, 1e-2])), "imag": draw(st.booleans()), "order": draw(st.booleans())}


def draw_sign(k):
    return 1 if k % 2 else -1


CLOSE_TERMS = {
    "qubit": ["", "X0", "Y0 Z1", "X1 X2", "Z0 Z1 Z2"],
    "ising": ["", "Z0", "Z1", "Z0 Z1", "Z0 Z2"],
    "fermion": ["", "0^ 1", "1^ 0", "1 1^", "2^ 2"],
}


@sub(
    close_pairs(),
    quick=500,
    rule="two terms or more, one of them different",
    nt=lambda c: len(c["terms"]) > 1 and any(h != "same" for _, _, h in c["terms"]),
)
def closeness(case):
    C = ops.cls(case["kind"])
    tol = case["tol"] or 1e-8
    a, b = C(), C()
    same = True
    unit = 1j if case["imag"] else 1
    for k, c, how in case["terms"]:
        term = C(CLOSE_TERMS[case["kind"]][k])
        (key,) = term.terms
        scale = max(1, abs(c))
        d = 0.0
        if how == "below":
            d = 0.8 * tol * scale
        elif how == "above":
            d = 1.25 * tol * scale * draw_sign(k)
            same = False
        if how in ("left", "left small", "right", "right small"):
            v = c if "small" not in how else 0.5 * tol
            if abs(v) >= tol:
                if abs(v) < 1.2 * tol:
                    continue
                same = False
            elif abs(v) > 0.8 * tol:
                continue
            (a if "left" in how else b).terms[key] = v * unit
            continue
        a.terms[key] = c * unit
        b.terms[key] = (c + d) * unit
    if case["order"]:
        b.terms = dict(reversed(list(b.terms.items())))
    got = [a.isclose(b), b.isclose(a)] if case["tol"] is None else [a.isclose(b, case["tol"]), b.isclose(a, tol=case["tol"])]
    require(all(bool(g) == same for g in got), "isclose disagrees with a comparison term by term", got, same, a.terms, b.terms)
    if case["tol"] is None:
        require((a == b) is same and (a != b) is (not same), "== disagrees with a comparison term by term")
    require(a == copy.deepcopy(a) and not (b != b), "not equal to itself")


# ---- truncation, parts, helpers ------------------------------------------------------------------
@st.composite
def single(draw):
    o = draw(ops.operators(None, 4, max_terms=6, min_terms=0, max_len=4, big=True))
    return {"op": o, "groups": draw(st.integers(-1, 9)), "tol": draw(st.sampled_from([None, 1e-8, 1e-3, 0.6])), "const": draw(ops.coefs()), "sym": draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from([[-3.0, 0.0], [0.0, -2.0], [1.0, -1e-10], [-1e-10, 2.0], [1e-11, 0.0], [-1e-11, -1e-11], [2.5, -0.5]])).map(list), max_size=3))}


def total(opsum, C):
    out = C()
    for o in opsum:
        out += o
    return out


def truncated(c, tol):
    c = complex(c)
    re = 0.0 if abs(c.real) <= tol else c.real
    im = 0.0 if abs(c.imag) <= tol else c.imag
    return complex(re, im)


@sub(single(), quick=500, rule="two terms or more", nt=lambda c: len(c["op"]["terms"]) > 1)
def parts(case):
    import sympy

    C = ops.cls(case["op"]["kind"])
    op = ops.build(case["op"])
    terms = dict(op.terms)
    # single terms and groups
    single = list(op.get_operators())
    require(len(single) == len(terms) and all(type(s) is C and len(s.terms) == 1 for s in single), "single-term operators", single)
    require([list(s.terms.items())[0] for s in single] == list(terms.items()), "single-term operators differ from the terms")
    require([s.terms for s in op] == [s.terms for s in single], "iteration differs from the single-term operators")
    pairs = [(list(x.terms)[0], list(y.terms)[0]) for x in op for y in op]
    require(pairs == [(x, y) for x in terms for y in terms], "nested iteration", pairs)
    acc = C.accumulate(op.get_operators())
    require(acc.terms == terms, "accumulated terms differ from the operator", acc, op)
    ops.independent("accumulated terms", C.accumulate([op]), op)
    ops.independent("accumulated terms", acc, *single)
    start = C("", 2.0)
    acc = C.accumulate(single, start)
    require(start.terms == {(): 2.0} and acc == op + 2.0, "accumulation on a start value", acc)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        groups = list(op.get_operator_groups(case["groups"]))
    g = min(max(case["groups"], 1), len(terms))
    require(len(groups) == g, "number of groups", len(groups), g)
    require(total(groups, C).terms == terms and sum(len(x.terms) for x in groups) == len(terms), "groups do not add up", groups, op)
    require(op.terms == terms, "splitting modified the operator")
    for x in single + groups:
        ops.independent("a part of the operator", x, op)
    # norms, constants
    for order in (1, 2):
        want = sum(abs(complex(c)) ** order for c in terms.values()) ** (1.0 / order)
        require(abs(op.induced_norm(order) - want) <= 1e-9 * (1 + want), "induced norm", op.induced_norm(order), want)
    require(op.constant == terms.get((), 0.0), "constant term", op.constant)
    changed = copy.deepcopy(op)
    changed.constant = ops.coef_obj(case["const"])
    require(changed.terms == {**terms, (): ops.coef_obj(case["const"])} and op.terms == terms, "setting the constant")
    require(C.zero().terms == {} and C.identity().terms == {(): 1.0}, "zero or identity")
    require(op + C.zero() == op and C.identity() * op == op and op * C.identity() == op, "neutral elements")
    for x in (op + C.zero(), C.zero() + op, op - C.zero(), op + 0, 0 + op, op - 0, op * C.identity(), C.identity() * op, op * 1, 1 * op, 1.0 * op, op / 1, op**1):
        require(type(x) is C and x == op, "neutral elements", x)
        ops.independent("an operation with a neutral element", x, op)
    big = [t for t, c in terms.items() if abs(c) >= 1e-8]
    if big or not terms:
        require(op.many_body_order() == max([len(t) for t in big], default=0), "many-body order", op)
    if case["op"]["kind"] == "qubit":
        norm = sum(abs(complex(c)) ** 2 for c in terms.values()) ** 0.5
        x = copy.deepcopy(op)
        if norm > 1e-6:
            x.renormalize()
            require(abs(x.induced_norm(2) - 1) < 1e-9 and set(x.terms) == set(terms) and all(abs(x.terms[t] * norm - terms[t]) < 1e-9 * norm for t in terms), "renormalize", x)
        elif not terms:
            raises(ZeroDivisionError, x.renormalize, "renormalizing zero")
    # truncation
    tol = case["tol"]
    cut = 1e-8 if tol is None else tol
    if all(abs(abs(p) - cut) > 0.01 * cut for c in terms.values() for p in (complex(c).real, complex(c).imag)):
        x = copy.deepcopy(op)
        x.compress() if tol is None else x.compress(tol)
        want = {t: truncated(c, cut) for t, c in terms.items() if truncated(c, cut)}
        require(set(x.terms) == set(want) and all(complex(x.terms[t]) == want[t] for t in want), "compress", x.terms, want)
    if case["sym"] and case["op"]["kind"] == "qubit":
        x = C()
        for i, (re, im) in case["sym"]:
            x.terms[((i, "Z"),)] = sympy.Float(re) + sympy.I * sympy.Float(im) if im else sympy.Float(re)
        want = {((i, "Z"),): truncated(complex(re, im), 1e-8) for i, (re, im) in case["sym"]}
        want = {t: c for t, c in want.items() if c}
        x.compress()
        require(set(x.terms) == set(want) and all(abs(complex(x.terms[t]) - want[t]) < 1e-9 for t in want), "compress with symbolic-typed numbers", x.terms, want)
        label("symbolic-typed coefficients truncated")


@sub(
    st.tuples(ops.operators("qubit", 3, max_terms=3), ops.operators("fermion", 3, max_terms=3), st.sampled_from(["x", None, [1], (0, 1)]), st.sampled_from([-1, 1.5, "2", -2])).map(list),
    quick=60,
    rule="both operators have terms",
    nt=lambda c: bool(c[0]["terms"]) and bool(c[1]["terms"]),
)
def rejected(case):
    a, b = ops.build(case[0]), ops.build(case[1])
    bad, power = case[2], case[3]
    kept = dict(a.terms), dict(b.terms)
    for f in (lambda: a + b, lambda: a - b, lambda: a * b, lambda: b * a, lambda: a + bad, lambda: a - bad, lambda: a * bad, lambda: bad * a, lambda: a / bad, lambda: a / b):
        raises(TypeError, f, "mixing operators of different kinds or with non-numbers")
    raises(ValueError, lambda: a**power, "a power that is not a natural number")
    require((a.terms, b.terms) == kept, "a rejected operation modified an operand")


# ---- long terms, large exponents, large coefficients ----------------------------------------------
@st.composite
def long_terms(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "ising", "fermion"]))
    n = draw(st.integers(1, 3))
    fs = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(ops.ACTIONS[kind])).map(list), min_size=draw(st.sampled_from([0, 4, 8])), max_size=14))
    return {
        "kind": kind,
        "n": n,
        "fs": fs,
        "c": draw(ops.coefs()),
        "cut": draw(st.integers(0, len(fs))),
        "far": draw(st.sampled_from([None, [0, 1, 2], [3, 17, 200], [70, 1000, 65536]])),
        "base": draw(ops.operators(kind, n, max_terms=2, min_terms=1, max_len=3)),
        "power": draw(st.integers(0, 9)),
    }


@sub(long_terms(), quick=250, rule="a term of five factors or more, or a power of four or more", nt=lambda c: len(c["fs"]) >= 5 or c["power"] >= 4)
def long_products(case):
    kind, n, fs = case["kind"], case["n"], case["fs"]
    C = ops.cls(kind)
    c, v = ops.coef_obj(case["c"]), ops.coef_val(case["c"])
    want = v * ops.term_matrix(kind, fs, n)
    op = C(ops.term_key(fs), c)
    check_form(op, kind)
    require(ref.close(ops.obj_matrix(op, n), want, 1e-9), "a term is not the product of its factors", fs, op)
    halves = C(ops.term_key(fs[: case["cut"]]), c) * C(ops.term_key(fs[case["cut"] :]))
    require(ref.close(ops.obj_matrix(halves, n), want, 1e-9), "product of two terms", fs, case["cut"], halves)
    step = C((), c)
    for f in fs:
        step *= C((tuple(f),))
    require(ref.close(ops.obj_matrix(step, n), want, 1e-9), "product of single factors", fs, step)
    if case["far"]:
        # the same term on far modes
        far = C(tuple((case["far"][i], a) for i, a in fs), c)
        near = {tuple((case["far"].index(i), a) for i, a in t): x for t, x in far.terms.items()}
        require(near == op.terms, "the same term on other modes", far, op)
    base = ops.build(case["base"])
    mat = ops.matrix(case["base"], n)
    if len(base.terms) > 1 and kind == "fermion" and case["power"] > 6:
        label("power skipped: too many terms")
        return
    kept = dict(base.terms)
    got = base ** case["power"]
    full = np.linalg.matrix_power(mat, case["power"])
    scale = max(1.0, np.abs(mat).sum()) ** case["power"]
    require(np.allclose(ops.obj_matrix(got, n), full, atol=1e-6 + 1e-9 * scale), "power", case["power"], base, got)
    require(base.terms == kept, "raising to a power changed the operator")


@st.composite
def integer_pairs(draw):
    """Two operators with coefficients that are (large) integers times a power of two."""
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    e = draw(st.sampled_from([0, 0, 10, 30, 60, -4]))
    rows = []
    for k in draw(st.lists(st.integers(0, 4), min_size=1, max_size=5, unique=True)):
        a = draw(st.one_of(st.integers(-5, 5), st.integers(-(10**10), 10**10)))
        b = draw(st.one_of(st.integers(-5, 5), st.integers(-(10**10), 10**10), st.integers(-3, 3).map(lambda d, a=a: a + d), st.integers(-3, 3).map(lambda d, a=a: d - a)))
        rows.append([k, a, b])
    return {"kind": kind, "e": e, "rows": rows, "imag": draw(st.booleans())}


@sub(integer_pairs(), quick=250, rule="a coefficient of at least a million", nt=lambda c: any(abs(x) * 2.0 ** c["e"] >= 1e6 for r in c["rows"] for x in r[1:]))
def exact_sums(case):
    """Sums and differences of exactly representable coefficients are exact, whatever their size."""
    C = ops.cls(case["kind"])
    unit = 2.0 ** case["e"] * (1j if case["imag"] else 1)
    key = lambda k: list(C(CLOSE_TERMS[case["kind"]][k]).terms)[0]
    a, b = C(), C()
    ma, mb = {}, {}
    for k, x, y in case["rows"]:
        if x:
            a.terms[key(k)] = ma[key(k)] = x * unit
        if y:
            b.terms[key(k)] = mb[key(k)] = y * unit
    kept = dict(a.terms), dict(b.terms)

    def check(op, model, what):
        for t in set(op.terms) | set(model):
            got, want = op.terms.get(t, 0), model.get(t, 0)
            require(abs(got - want) <= 1e-8 if abs(want) < 1e-8 else got == want, f"{what}: coefficient of {t}", got, want)

    plus = {t: ma.get(t, 0) + mb.get(t, 0) for t in {*ma, *mb}}
    minus = {t: ma.get(t, 0) - mb.get(t, 0) for t in {*ma, *mb}}
    check(a + b, plus, "sum")
    check(a - b, minus, "difference")
    check(-a, {t: -c for t, c in ma.items()}, "negation")
    check(a * 4, {t: 4 * c for t, c in ma.items()}, "multiple")
    check(a / 4, {t: c / 4 for t, c in ma.items()}, "quotient")
    x = copy.deepcopy(a)
    x += b
    check(x, plus, "in-place sum")
    x -= b
    check(x, ma, "sum undone")
    x = copy.deepcopy(a)
    x -= b
    check(x, minus, "in-place difference")
    check(C.accumulate([a, b, a], b), {t: 2 * ma.get(t, 0) + 2 * mb.get(t, 0) for t in {*ma, *mb}}, "accumulated sum")
    require((a.terms, b.terms) == kept, "an operand was modified")
    # equality, with the documented relative tolerance
    scale = {t: max(1.0, abs(ma.get(t, 0)), abs(mb.get(t, 0))) if t in ma and t in mb else 1.0 for t in minus}
    ratio = max((abs(minus[t]) / scale[t] for t in minus), default=0)
    if not 0.5e-8 < ratio < 2e-8:
        require((a == b) is (ratio < 1e-8), "equality", a, b, ratio)
    y = copy.deepcopy(a)
    y.compress()
    check(y, {t: c for t, c in ma.items() if abs(c) > 1e-8}, "compress")


# ---- many terms ------------------------------------------------------------------------------------
def spread(kind, n, m, seed, longest=6):
    """A description of m terms on n modes."""
    r = np.random.RandomState(seed)
    terms = []
    for _ in range(m):
        k = int(r.randint(0, longest + 1))
        fs = [[int(r.randint(0, n)), ops.ACTIONS[kind][r.randint(len(ops.ACTIONS[kind]))]] for _ in range(k)]
        how = r.randint(4)
        c = [float(round(x, 3)) for x in r.uniform(0.05, 3, 2) * r.choice([-1, 1], 2)]
        terms.append([fs, int(r.choice([-2, -1, 1, 3])) if how == 0 else c[0] if how == 1 else c])
    return {"kind": kind, "terms": terms}


def masks_of(op, kind):
    return ref.jw_masks(op.terms, ops.number) if kind == "fermion" else ref.pauli_masks(op.terms)


def masks_of_desc(o):
    out = {}
    for fs, c in o["terms"]:
        acc = {(0, 0): complex(ops.coef_val(c))}
        for i, a in fs:
            f = ref.jw_masks({((i, a),): 1.0}) if o["kind"] == "fermion" else ref.pauli_masks({((i, a),): 1.0})
            acc = ref.masks_mul(acc, f)
        out = ref.masks_add(out, acc)
    return out


@st.composite
def large(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    return {
        "kind": kind,
        "n": draw(st.sampled_from([4, 8] if kind == "fermion" else [4, 9, 17, 40])),
        "m": [draw(st.sampled_from([1, 2, 9, 17, 33, 60] if kind != "fermion" else [1, 2, 9, 17])) for _ in range(3)],
        "seed": draw(st.integers(0, 10**6)),
        "power": draw(st.integers(2, 3)),
    }


@sub(large(), quick=60, thorough=2000, shards=2, rule="an operator of nine terms or more", nt=lambda c: max(c["m"]) >= 9)
def many_terms(case):
    kind, n = case["kind"], case["n"]
    C = ops.cls(kind)
    descs = [spread(kind, n, m, case["seed"] + k, 3 if kind == "fermion" else 6) for k, m in enumerate(case["m"])]
    a, b, c = (ops.build(d) for d in descs)
    ma, mb, mc = (masks_of_desc(d) for d in descs)
    kept = [dict(x.terms) for x in (a, b, c)]
    for x, mx in ((a, ma), (b, mb), (c, mc)):
        require(ref.masks_close(masks_of(x, kind), mx, 1e-6), "sum of the terms", x.terms)
        check_form(x, kind)
    ab = ref.masks_mul(ma, mb)

    def check(got, want, what):
        require(type(got) is C and ref.masks_close(masks_of(got, kind), want, 1e-5), what, case)
        check_form(got, kind)

    check(a * b, ab, "product")
    check(a + b, ref.masks_add(ma, mb), "sum")
    check(a - b, ref.masks_add(ma, mb, -1), "difference")
    check(a * b - b * a, ref.masks_add(ab, ref.masks_mul(mb, ma), -1), "commutator")
    x = copy.deepcopy(a)
    x *= b
    check(x, ab, "in-place product")
    x += c
    check(x, ref.masks_add(ab, mc), "in-place sum")
    x -= a
    x *= -0.5
    check(x, {k: -0.5 * v for k, v in ref.masks_add(ref.masks_add(ab, mc), ma, -1).items()}, "in-place difference and multiple")
    x /= 4
    check(4 * x, {k: -0.5 * v for k, v in ref.masks_add(ref.masks_add(ab, mc), ma, -1).items()}, "in-place quotient")
    if kind != "fermion" and len(ab) < 1500 or len(ma) < 60:
        check(a * b * c if len(ab) * len(mc) < 30000 else a * b, ref.masks_mul(ab, mc) if len(ab) * len(mc) < 30000 else ab, "product of three")
    if len(ma) <= 40:
        want = ma
        for _ in range(case["power"] - 1):
            want = ref.masks_mul(want, ma)
        check(a ** case["power"], want, "power")
    check(C.accumulate([a, b, c, b], a), ref.masks_add(ref.masks_add(ref.masks_add(ma, ma), mb, 2), mc), "accumulated sum")
    check(C.accumulate(iter([a, b, c])), ref.masks_add(ref.masks_add(ma, mb), mc), "accumulated sum of an iterator")
    for g in (2, 5, len(a.terms)):
        if g <= len(a.terms):
            groups = list(a.get_operator_groups(g))
            require(len(groups) == g and total(groups, C).terms == a.terms and sum(len(x.terms) for x in groups) == len(a.terms), "groups do not add up", g, len(a.terms))
    require([dict(x.terms) for x in (a, b, c)] == kept, "an operand was modified")
    # closeness: one term out of many
    if a.terms:
        x = copy.deepcopy(a)
        r = np.random.RandomState(case["seed"])
        key = list(x.terms)[r.randint(len(x.terms))]
        x.terms = dict(sorted(x.terms.items(), key=lambda kv: str(kv[0])[::-1]))
        require(x == a and a == x and x.isclose(a) and not x != a, "an operator differs from itself with its terms in another order")
        x.terms[key] = x.terms[key] + 1e-6 * max(1, abs(x.terms[key]))
        require(x != a and a != x and not a.isclose(x) and a.isclose(x, 1e-5), "one term of many differs", key)
        del x.terms[key]
        require(x != a and a != x, "one term of many is missing", key)
