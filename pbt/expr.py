"""Symbolic parameter expressions as JSON trees: strategy, sympy construction, numeric evaluation.

Tree forms: ["num", x] ["int", k] ["rat", p, q] ["pi", p, q] (= p*pi/q) ["sym", name]
["add", a, b] ["sub", a, b] ["mul", a, b] ["div", a, k] ["neg", a] ["sin"|"cos"|"exp", a] ["pow", a, k]
"""
import math

from hypothesis import strategies as st

NAMES = ["a", "b", "theta", "theta_0", "theta_10", "theta_2", "gamma", "beta", "lambda_1"]

angles = st.one_of(
    st.sampled_from([0.0, math.pi, -math.pi / 2, 2 * math.pi, 4 * math.pi, 0.5, -1.25, 3.0, 7.1]),
    st.floats(-10, 10).map(lambda x: x if abs(x) > 1e-6 else 0.0),
    st.integers(-10000, 10000).map(lambda k: k / 1000),
    st.integers(-1000, 1000).map(lambda k: k * 1e-6),
)


@st.composite
def leaves(draw, names):
    k = draw(st.integers(0, 9))
    if k < 6:
        return ["sym", draw(st.sampled_from(names))]
    if k == 6:
        return ["num", draw(angles)]
    if k == 7:
        return ["int", draw(st.integers(-3, 3))]
    if k == 8:
        return ["rat", draw(st.integers(-5, 5)), draw(st.integers(1, 6))]
    return ["pi", draw(st.integers(-4, 4)), draw(st.integers(1, 4))]


@st.composite
def exprs(draw, names=NAMES, max_leaves=4, funcs=True):
    unary = ["", "", "", "neg", "div", "sin", "cos", "pow"] if funcs else ["", "", "neg", "div"]

    def wrap(e):
        u = draw(st.sampled_from(unary))
        if u == "neg":
            return ["neg", e]
        if u == "div":
            return ["div", e, draw(st.sampled_from([2, 3, 4, 1.5, -2]))]
        if u == "pow":
            return ["pow", e, draw(st.sampled_from([2, 3]))]
        return [u, e] if u else e

    leaf = leaves(names)
    out = wrap(draw(leaf))
    for _ in range(draw(st.integers(0, max_leaves - 1))):
        op = draw(st.sampled_from(["add", "sub", "mul"]))
        other = draw(leaf)
        if draw(st.booleans()):
            other = wrap(other)
        out = [op, out, other] if draw(st.booleans()) else [op, other, out]
        out = wrap(out)
    return out


def to_sympy(e, symbol=None):
    import sympy

    symbol = symbol or sympy.Symbol
    k = e[0]
    r = lambda x: to_sympy(x, symbol)
    if k == "num":
        return sympy.Float(e[1])
    if k == "cnum":
        return sympy.Float(e[1]) + sympy.I * sympy.Float(e[2]) if e[2] else sympy.Float(e[1])
    if k == "int":
        return sympy.Integer(e[1])
    if k == "rat":
        return sympy.Rational(e[1], e[2])
    if k == "pi":
        return sympy.pi * sympy.Rational(e[1], e[2])
    if k == "sym":
        return symbol(e[1])
    if k == "add":
        return r(e[1]) + r(e[2])
    if k == "sub":
        return r(e[1]) - r(e[2])
    if k == "mul":
        return r(e[1]) * r(e[2])
    if k == "div":
        return r(e[1]) / e[2]
    if k == "neg":
        return -r(e[1])
    if k == "pow":
        return r(e[1]) ** (r(e[2]) if isinstance(e[2], list) else e[2])
    return getattr(sympy, k)(r(e[1]))


def value(e, env):
    """Numeric value; env maps names to floats."""
    k = e[0]
    if k == "num":
        return e[1]
    if k == "int":
        return e[1]
    if k == "cnum":
        return complex(e[1], e[2])
    if k == "rat":
        return e[1] / e[2]
    if k == "pi":
        return math.pi * e[1] / e[2]
    if k == "sym":
        return env[e[1]]
    v = value(e[1], env)
    if k == "neg":
        return -v
    if k == "div":
        return v / e[2]
    if k == "pow":
        return v ** (value(e[2], env) if isinstance(e[2], list) else e[2])
    if k in ("sin", "cos", "exp", "tan", "sqrt"):
        return getattr(math, k)(v)
    w = value(e[2], env)
    return {"add": v + w, "sub": v - w, "mul": v * w}[k]


def symbols(e):
    if e[0] == "sym":
        return {e[1]}
    out = set()
    for x in e[1:]:
        if isinstance(x, list):
            out |= symbols(x)
    return out
