"""C26: symbolic expression translation preserves value."""
import cmath
import operator
import random
from functools import cmp_to_key, reduce

from hypothesis import strategies as st

from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated expression trees evaluated independently before and after translation into four dialects; generated symbol names against a model of natural ordering"
ASSUMPTIONS = [
    "values are compared at generic assignments, away from branch cuts and singular points, to 1e-9 relative",
    "symbols are plain (no assumptions); ordered names do not differ in leading zeros only and have decimal ASCII digits",
]

NAMES = ["x", "y", "theta_1", "theta_12", "lambda", "a b", "E", "I", "é", "x1"]
FUNCS = ["sin", "cos", "exp", "sqrt", "tan"]


@st.composite
def leaves(draw):
    k = draw(st.integers(0, 9))
    if k < 5:
        return ["sym", draw(st.sampled_from(NAMES))]
    if k == 5:
        return ["num", draw(st.sampled_from([0.5, -0.5, 1.25, -2.0, 0.1, 3.7, -1.0, 1.0, 2.0, 1e-3]))]
    if k == 6:
        return ["rat", draw(st.integers(-5, 5).filter(bool)), draw(st.integers(1, 6))]
    if k == 7:
        return ["I"]
    return ["int", draw(st.sampled_from([-1, -1, 2, -2, 1, 3, 7, -4, 0]))]


@st.composite
def trees(draw, depth=4):
    if depth == 0 or draw(st.integers(0, 5)) == 0:
        return draw(leaves())
    k = draw(st.sampled_from(["add", "mul", "sub", "div", "pow", "neg", "recip", "call", "call"]))
    kid = lambda: draw(trees(depth=depth - 1))  # noqa: E731
    if k in ("add", "mul"):
        return [k, draw(st.booleans()), [kid() for _ in range(draw(st.sampled_from([2, 2, 2, 3, 4])))]]
    if k in ("sub", "div"):
        return [k, draw(st.booleans()), [kid(), kid()]]
    if k == "pow":
        e = draw(st.sampled_from([["int", -1], ["int", 2], ["int", -2], ["num", 0.5], ["rat", 1, 2], ["rat", -1, 2], ["rat", 1, 3], ["num", -1.0], ["num", 1.5], ["int", 1], None]))
        return [k, draw(st.booleans()), [kid(), e or draw(trees(depth=min(1, depth - 1)))]]
    if k in ("neg", "recip"):
        return [k, draw(st.booleans()), [kid()]]
    return [draw(st.sampled_from(FUNCS)), True, [kid()]]


class Skip(Exception):
    pass


def ok(z):
    if not (abs(z) < 1e4):
        raise Skip
    return z


def power(b, e):
    b, e = complex(b), complex(e)
    if e.imag == 0 and e.real == int(e.real) and abs(e.real) < 20:
        if abs(b) < 1e-2 and e.real <= 0:
            raise Skip
        return ok(b ** int(e.real))
    if abs(b) < 1e-2 or (b.real < 0 and abs(b.imag) < 1e-3) or abs(e) > 20:
        raise Skip
    return ok(cmath.exp(e * cmath.log(b)))


def call(name, args):
    """Meaning of a function of the neutral tree."""
    args = [complex(a) for a in args]
    if name == "add":
        return ok(sum(args))
    if name == "mul":
        return ok(reduce(operator.mul, args))
    if name == "sub":
        return ok(args[0] - args[1])
    if name == "div":
        return ok(args[0] * power(args[1], -1))
    if name == "pow":
        return power(*args)
    if name == "sqrt":
        return power(args[0], 0.5)
    (z,) = args
    if abs(z) > 30:
        raise Skip
    if name == "tan" and abs(cmath.cos(z)) < 1e-2:
        raise Skip
    return ok({"sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "tan": cmath.tan}[name](z))


def value(t, env):
    """Value of a generated tree."""
    k = t[0]
    if k == "sym":
        return env[t[1]]
    if k in ("num", "int"):
        return t[1]
    if k == "rat":
        return t[1] / t[2]
    if k == "I":
        return 1j
    args = [value(x, env) for x in t[2]]
    if k == "neg":
        return call("mul", [-1, *args])
    if k == "recip":
        return call("div", [1, *args])
    return call(k, args)


def to_sympy(t):
    import sympy

    k = t[0]
    if k == "sym":
        return sympy.Symbol(t[1])
    if k == "num":
        return sympy.Float(t[1])
    if k == "int":
        return sympy.Integer(t[1])
    if k == "rat":
        return sympy.Rational(t[1], t[2])
    if k == "I":
        return sympy.I
    ev = t[1]
    a = [to_sympy(x) for x in t[2]]
    if k == "add":
        return sympy.Add(*a, evaluate=ev)
    if k == "mul":
        return sympy.Mul(*a, evaluate=ev)
    if k == "sub":
        return sympy.Add(a[0], sympy.Mul(-1, a[1], evaluate=ev), evaluate=ev)
    if k == "div":
        return sympy.Mul(a[0], sympy.Pow(a[1], -1, evaluate=ev), evaluate=ev)
    if k == "neg":
        return sympy.Mul(-1, a[0], evaluate=ev)
    if k == "recip":
        return sympy.Pow(a[0], -1, evaluate=ev)
    if k == "pow":
        return sympy.Pow(a[0], a[1], evaluate=ev)
    return getattr(sympy, k)(a[0])


def sympy_value(e, env):
    """Value of a sympy expression, or a number."""
    import sympy

    if not isinstance(e, sympy.Basic):
        return complex(e)
    if e.is_Symbol:
        return env[e.name]
    if e.is_Pow:
        return power(*[sympy_value(a, env) for a in e.args])
    if e.is_Add or e.is_Mul:
        return call("add" if e.is_Add else "mul", [sympy_value(a, env) for a in e.args])
    if e.is_Function:
        return call(e.func.__name__, [sympy_value(a, env) for a in e.args])
    return complex(e)


def native_value(e, env):
    """Value of a neutral expression tree."""
    from zquantum.core.circuits.symbolic.expressions import FunctionCall, Symbol

    if isinstance(e, Symbol):
        return env[e.name]
    if isinstance(e, FunctionCall):
        return call(e.name, [native_value(a, env) for a in e.args])
    return complex(e)


def build(e):
    """The neutral tree in sympy, the way sympy evaluates it."""
    import sympy

    from zquantum.core.circuits.symbolic.expressions import FunctionCall, Symbol

    if isinstance(e, Symbol):
        return sympy.Symbol(e.name)
    if not isinstance(e, FunctionCall):
        return e
    args = [build(a) for a in e.args]
    ops = {"add": operator.add, "mul": operator.mul, "sub": operator.sub, "div": operator.truediv, "pow": operator.pow}
    return reduce(ops[e.name], args) if e.name in ops else getattr(sympy, e.name)(*args)


def names_in(e):
    from zquantum.core.circuits.symbolic.expressions import FunctionCall

    if isinstance(e, FunctionCall):
        return {e.name}.union(*[names_in(a) for a in e.args])
    return set()


ALL = ["add", "mul", "div", "sub", "pow"] + FUNCS


def numeric_dialect(env, functions=ALL):
    from zquantum.core.circuits.symbolic.expressions import ExpressionDialect

    return ExpressionDialect(
        symbol_factory=lambda s: env[s.name],
        number_factory=complex,
        known_functions={f: (lambda *a, f=f: call(f, a)) for f in functions},
    )


def text_dialect():
    """Text that Python evaluates; known functions are variadic where the neutral tree's are."""
    from zquantum.core.circuits.symbolic.expressions import ExpressionDialect, reduction

    known = {f: (lambda *a, f=f: f"call({f!r}, [{', '.join(a)}])") for f in ALL}
    known["add"] = reduction(lambda a, b: f"call('add', [{a}, {b}])")
    known["mul"] = reduction(lambda a, b: f"call('mul', [{a}, {b}])")
    return ExpressionDialect(symbol_factory=lambda s: f"env[{s.name!r}]", number_factory=lambda x: repr(complex(x)), known_functions=known)


def environment(seed):
    r = random.Random(seed)
    return {n: complex(r.uniform(-1.5, 1.5), r.choice([0, 0, 1]) * r.uniform(-1, 1)) for n in NAMES}


def has_constant(e):
    import sympy

    return e.has(sympy.nan, sympy.zoo, sympy.oo, -sympy.oo, sympy.pi, sympy.E)


def representable(e):
    """Whether an expression sympy made has only functions of the neutral tree: it rewrites e.g. sin(I*x)."""
    import sympy

    e = sympy.sympify(e)
    return not has_constant(e) and all(f.func.__name__ in FUNCS for f in e.atoms(sympy.Function))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def size(t):
    return 1 + sum(size(x) for x in t[2]) if len(t) > 2 and isinstance(t[2], list) else 1


@sub(
    st.tuples(trees(), st.integers(0, 10**6)),
    quick=900,
    thorough=12000,
    shards=2,
    rule="the expression has an operation and a value at the assignment",
    nt=lambda c: size(c[0]) > 1,
    examples=[
        (["div", True, [["sym", "x"], ["sym", "y"]]], 1),
        (["sub", True, [["sym", "x"], ["mul", True, [["int", 2], ["sym", "y"]]]]], 1),
        (["sub", False, [["sym", "x"], ["mul", False, [["sym", "y"], ["sym", "x1"]]]]], 1),
        (["neg", True, [["sqrt", True, [["sym", "x"]]]]], 2),
        (["div", False, [["recip", False, [["sym", "x"]]], ["sym", "y"]]], 2),
        (["pow", False, [["sym", "x"], ["sym", "y"]]], 3),
    ],
)
def from_sympy(c):
    """sympy -> neutral tree -> sympy, numbers, text: the same value everywhere."""
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    t, seed = c
    env = environment(seed)
    e = to_sympy(t)
    import sympy

    if has_constant(e):
        label("a constant that is not supported")
        return
    if not representable(e):
        # sympy itself rewrites e.g. sin(I*x) with a function the tree does not have
        label("rewritten by sympy")
        try:
            native = expression_from_sympy(e)
            translate_expression(native, SYMPY_DIALECT)
        except (ValueError, NotImplementedError):
            return
        # what remains has known functions only, e.g. the unknown one was multiplied by zero
        require(names_in(native) <= set(ALL), "an unknown function was translated", e, native)
        return
    try:
        want = complex(value(t, env))
        direct = sympy_value(e, env)
    except Skip:
        label("no generic value")
        return
    if not close(direct, want):
        label("sympy normalises differently")  # e.g. another branch: not the library's doing
        return
    native = expression_from_sympy(e)
    back = translate_expression(native, SYMPY_DIALECT)
    free = {s.name for s in e.free_symbols}
    require({s.name for s in getattr(back, "free_symbols", [])} <= free, "translation brought in symbols", back)
    try:
        got = {
            "neutral tree": native_value(native, env),
            "numbers": translate_expression(native, numeric_dialect(env)),
            "text": eval(translate_expression(native, text_dialect()), {"call": call, "env": env}),
        }
        eager = build(native)
        if representable(back) and representable(eager):
            if not close(sympy_value(eager, env), want):
                label("sympy simplifies wrongly")  # e.g. sqrt((sqrt(I) - 2)**2) to sqrt(I) - 2
                return
            got["sympy"] = sympy_value(back, env)
            got["sympy twice"] = native_value(expression_from_sympy(sympy.sympify(back)), env)
    except Skip:
        label("no generic value")
        return
    label("value")
    for how, x in got.items():
        require(close(x, want), f"another value after translation: {how}", want, x, e, native, back)
    used = names_in(native)
    for missing in sorted(used)[:3]:
        d = numeric_dialect(env, [f for f in ALL if f != missing])
        raises(ValueError, lambda: translate_expression(native, d), f"a dialect without {missing} translated it")
    d = numeric_dialect(env, sorted(used))
    require(translate_expression(native, d) == got["numbers"], "a dialect with just the functions used differs", used)


@st.composite
def natives(draw, depth=3):
    """Neutral trees, built directly."""
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        return draw(st.one_of(leaves(), leaves(), st.just(["num", 2.5]), st.just(["cplx", 0.5, -1.5])))
    name = draw(st.sampled_from(ALL))
    n = {"add": draw(st.integers(1, 4)), "mul": draw(st.integers(1, 4)), "div": 2, "sub": 2, "pow": 2}.get(name, 1)
    return ["call", name, [draw(natives(depth=depth - 1)) for _ in range(n)]]


def to_native(t, bad=None, at=None, counter=None):
    from zquantum.core.circuits.symbolic.expressions import FunctionCall, Symbol

    if counter is not None:
        counter[0] += 1
        if counter[0] == at:
            return bad
    if t[0] == "sym":
        return Symbol(t[1])
    if t[0] == "rat":
        return t[1] / t[2]
    if t[0] == "I":
        return 1j
    if t[0] == "cplx":
        return complex(t[1], t[2])
    if t[0] != "call":
        return t[1]
    return FunctionCall(t[1], tuple(to_native(x, bad, at, counter) for x in t[2]))


@sub(
    st.tuples(natives(), st.integers(0, 10**6)),
    quick=500,
    thorough=6000,
    rule="the tree has a function call",
    nt=lambda c: c[0][0] == "call",
)
def from_native(c):
    """Neutral tree -> sympy -> neutral tree: the same value."""
    import sympy

    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    t, seed = c
    env = environment(seed)
    native = to_native(t)
    try:
        want = native_value(native, env)
        numbers = translate_expression(native, numeric_dialect(env))
    except Skip:
        label("no generic value")
        return
    require(close(numbers, want), "another value as numbers", want, numbers, native)
    try:
        e = sympy.sympify(translate_expression(native, SYMPY_DIALECT))
    except (OverflowError, ZeroDivisionError):
        label("overflow")
        return
    if e.has(sympy.nan, sympy.zoo, sympy.oo, -sympy.oo):
        label("singular")
        return
    try:
        got = sympy_value(e, env)
        if not close(sympy_value(sympy.sympify(build(native)), env), want):
            label("sympy simplifies wrongly")
            return
        require(close(got, want), "another value in sympy", want, got, native, e)
        if not representable(e):
            label("rewritten by sympy")
            return
        back = expression_from_sympy(e)
        require(close(native_value(back, env), want), "another value after the way back", want, native, e, back)
    except (Skip, KeyError):
        label("no generic value in sympy")
        return
    label("value")


def unsupported():
    import sympy

    x, y = sympy.symbols("x y")
    return {
        "pi": sympy.pi,
        "E": sympy.E,
        "log": sympy.log(x),
        "abs": sympy.Abs(x + 2),
        "cosh": sympy.cosh(x),
        "asin": sympy.asin(y),
        "cot": sympy.cot(x),
        "conjugate": sympy.conjugate(x),
        "f": sympy.Function("f")(x),
        "g": sympy.Function("g")(x, y),
        "max": sympy.Max(x, y),
        "piecewise": sympy.Piecewise((x, x > 0), (y, True)),
        "atan2": sympy.atan2(x, y),
        "golden": sympy.GoldenRatio,
        "floor": sympy.floor(x),
        "derivative": sympy.Derivative(sympy.Function("h")(x), x),
        "integral": sympy.Integral(sympy.Function("h")(x), x),
        "zoo": sympy.zoo,
    }


KINDS = ["pi", "E", "log", "abs", "cosh", "asin", "cot", "conjugate", "f", "g", "max", "piecewise", "atan2", "golden", "floor", "derivative", "integral", "zoo"]


def insert(t, bad, path):
    """The generated tree in sympy with one subtree replaced, and no simplification on the way."""
    import sympy

    if not isinstance(t[-1], list) or not t[-1] or t[0] in ("sym", "num", "int", "rat", "I"):
        return bad
    i = path[0] % len(t[-1]) if path else 0
    a = [insert(x, bad, path[1:]) if j == i else to_sympy(x) for j, x in enumerate(t[-1])]
    k = t[0]
    if k == "add":
        return sympy.Add(*a, evaluate=False)
    if k == "mul":
        return sympy.Mul(*a, evaluate=False)
    if k == "sub":
        return sympy.Add(a[0], sympy.Mul(-1, a[1], evaluate=False), evaluate=False)
    if k == "div":
        return sympy.Mul(a[0], sympy.Pow(a[1], -1, evaluate=False), evaluate=False)
    if k == "neg":
        return sympy.Mul(-1, a[0], evaluate=False)
    if k in ("recip", "pow"):
        return sympy.Pow(a[0], a[1] if k == "pow" else -1, evaluate=False)
    return getattr(sympy, k)(a[0], evaluate=False)


@sub(
    st.tuples(trees(depth=3), st.sampled_from(KINDS), st.lists(st.integers(0, 3), max_size=4)),
    quick=200,
    thorough=1500,
    rule="the unsupported part is inside an operation",
    nt=lambda c: size(c[0]) > 1,
)
def rejected_from_sympy(c):
    """A sympy expression with an unsupported part anywhere is rejected."""
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    import sympy

    t, kind, path = c
    bad = unsupported()[kind]
    e = insert(t, bad, path)
    if not any(x == bad for x in sympy.preorder_traversal(e)) or any(x == 0 for x in sympy.preorder_traversal(e)):
        label("may be simplified away")
        return
    label(kind)
    try:
        native = expression_from_sympy(e)
    except NotImplementedError:
        return
    raises((ValueError, NotImplementedError), lambda: translate_expression(native, SYMPY_DIALECT), f"an expression with {kind} was translated")


@sub(
    st.tuples(natives(), st.integers(0, 30), st.sampled_from(["log", "", "ADD", "none", "text", "object", "list"])),
    quick=200,
    thorough=1500,
    rule="the unsupported part is inside an operation",
    nt=lambda c: c[0][0] == "call" and c[1] > 0,
)
def rejected_from_native(c):
    """A neutral tree with an unknown function or an object that is not an expression anywhere is rejected."""
    from zquantum.core.circuits.symbolic.expressions import ExpressionDialect, FunctionCall, Symbol
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT
    from zquantum.core.circuits.symbolic.translations import translate_expression

    t, at, kind = c
    counter = [0]
    to_native(t, None, -1, counter)
    at = at % counter[0] + 1
    objects = {"none": None, "text": "x", "object": object(), "list": [1, 2]}
    bad = objects[kind] if kind in objects else FunctionCall(kind, (Symbol("x"), 1))
    native = to_native(t, bad, at, [0])
    label(kind)
    plain_dialect = ExpressionDialect(symbol_factory=lambda s: 1, number_factory=lambda n: 1, known_functions={f: (lambda *a: 1) for f in ALL})
    for d in (SYMPY_DIALECT, plain_dialect):
        raises((ValueError, NotImplementedError), lambda: translate_expression(native, d), "a tree with an unsupported part was translated")


# --- ordering --------------------------------------------------------------------------------


def tokens(name):
    """Alternating text and numbers, starting and ending with text."""
    out, cur = [], ""
    for ch in name:
        digit = ch in "0123456789"
        if digit != (len(out) % 2 == 1):
            out.append(cur)
            cur = ""
        cur += ch
    out.append(cur)
    if len(out) % 2 == 0:
        out.append("")
    return out


def compare(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if i % 2:
            x, y = int(x), int(y)
        if x != y:
            return -1 if x < y else 1
    return (len(a) > len(b)) - (len(a) < len(b))


@st.composite
def names(draw):
    word = st.sampled_from(["theta_", "beta_", "theta_", "beta", "theta", "a", "_", "", "Theta", "é"])
    word2 = st.sampled_from(["", "", "theta_"])
    number = st.one_of(
        st.integers(0, 12),
        st.sampled_from([2, 9, 10, 11, 99, 100, 101, 10**12]),
        # long numbers that share their first or last digits
        st.sampled_from([123456789, 1234567891, 1234567890, 12345678901, 234567890, 10**9 + 1, 10**12 + 1, 2**53 + 1, 2**53, 2**64, 2**64 + 1, 10**30, 10**30 + 1]),
    ).map(str)
    out = ""
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        out += draw(word2) if draw(st.booleans()) else ""
        out += draw(word) + (draw(number) if draw(st.integers(0, 4)) else "")
    return out or "q"


def plain(name):
    return all(t == str(int(t)) for t in tokens(name)[1::2])


@sub(
    st.tuples(st.lists(names().filter(plain), min_size=4, max_size=8, unique=True), st.randoms(use_true_random=False)).map(lambda c: (c[0], c[1].randrange(10**6))),
    quick=400,
    thorough=4000,
    rule="two names share their text and differ in a number",
    nt=lambda c: len({tuple(tokens(n)[::2]) for n in c[0]}) < len(c[0]),
    examples=[(["a_1234567890", "a_234567890", "a_12345678901", "a_9"], 1), (["beta_10", "theta_2", "beta_2", "theta_1"], 1), (["a", "a_0", "a0", "0"], 2)],
)
def natural(c):
    """Natural ordering and its reverse agree with the model and do not depend on the input order."""
    import sympy

    from zquantum.core.circuits import natural_key, natural_key_revlex

    ns, seed = c
    shuffled = list(ns)
    random.Random(seed).shuffle(shuffled)
    for key, turn in ((natural_key, lambda t: t), (natural_key_revlex, lambda t: t[::-1])):
        want = sorted(ns, key=cmp_to_key(lambda a, b: compare(turn(tokens(a)), turn(tokens(b)))))
        for order in (ns, shuffled, ns[::-1]):
            got = [s.name for s in sorted([sympy.Symbol(n) for n in order], key=key)]
            require(got == want, f"{key.__name__}: another order", order, want, got)
        for a, b in zip(want, want[1:]):
            require(key(sympy.Symbol(a)) < key(sympy.Symbol(b)), f"{key.__name__} does not separate two names", a, b)


@sub(
    st.tuples(
        st.permutations(["gamma", "beta", "alpha", "x"]),
        st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(0, 3), st.sampled_from([9, 10, 11, 100]))), min_size=3, max_size=8, unique=True),
        st.sampled_from([4, 3, 2, 1]),
    ),
    quick=200,
    thorough=1500,
    rule="two symbols share their index",
    nt=lambda c: len({i for _, i in c[1]}) < len(c[1]),
)
def fixed_names(c):
    """Ordering with fixed names: by index, then by the given order of names; names that are not listed are rejected."""
    import sympy

    from zquantum.core.circuits.symbolic import natural_key_fixed_names_order

    order, syms, k = c
    key = natural_key_fixed_names_order(iter(order[:k]))
    known = [(n % k, i) for n, i in syms]
    known = list(dict.fromkeys(known))
    want = [f"{order[n]}_{i}" for n, i in sorted(known, key=lambda s: (s[1], s[0]))]
    got = [s.name for s in sorted([sympy.Symbol(f"{order[n]}_{i}") for n, i in known], key=key)]
    require(got == want, "another order", order[:k], want, got)
    require([s.name for s in sorted([sympy.Symbol(f"{order[n]}_{i}") for n, i in reversed(known)], key=key)] == want, "the order depends on the input order")
    raises(Exception, lambda: key(sympy.Symbol("delta_1")), "a name that is not listed was given a key")
    raises(Exception, lambda: key(sympy.Symbol(order[0])), "a name without an index was given a key")


TEXTS = ["x ", " y", "theta 1", "q[3]", "a+b", "x*y", "2", "sin", "add", "lambda", "Symbol", "\u03b8", "a.b", "X", "None", "-x", "theta_" + "9" * 30]


@sub(
    lambda: st.fixed_dictionaries(
        {
            "ints": st.lists(st.one_of(st.integers(-(10**30), 10**30), st.integers(2**53 - 9, 2**53 + 99), st.integers(-20, 20)), min_size=2, max_size=4),
            "floats": st.lists(st.floats(allow_nan=False, allow_infinity=False, width=64), min_size=1, max_size=3),
            "name": st.one_of(st.sampled_from(TEXTS), st.text(alphabet="ab xyz_[]019+*.", min_size=1, max_size=8)),
        }
    ),
    quick=150,
    thorough=3000,
    rule="an integer that is no double, or an unusual name",
    nt=lambda x: any(int(float(i)) != i for i in x["ints"]) or not x["name"].isidentifier(),
)
def exact_leaves(x):
    """Integers of any size, doubles and symbols of any name come out as they went in."""
    import sympy

    from zquantum.core.circuits.symbolic.expressions import Symbol
    from zquantum.core.circuits.symbolic.sympy_expressions import SYMPY_DIALECT, expression_from_sympy
    from zquantum.core.circuits.symbolic.translations import translate_expression

    for i in x["ints"]:
        got = expression_from_sympy(sympy.Integer(i))
        require(got == i and not isinstance(got, sympy.Basic), "an integer changed", got, i)
        back = translate_expression(got, SYMPY_DIALECT)
        require(back == i, "an integer changed on the way back", back, i)
    for f in x["floats"]:
        got = expression_from_sympy(sympy.Float(f))
        require(isinstance(got, float) and got == f, "a double changed", got, f)
        require(translate_expression(got, SYMPY_DIALECT) == f, "a double changed on the way back", f)
    s = sympy.Symbol(x["name"])
    neutral = expression_from_sympy(s)
    require(neutral == Symbol(x["name"]), "a symbol was renamed", neutral, x["name"])
    require(translate_expression(neutral, SYMPY_DIALECT) == s, "a symbol was renamed on the way back", x["name"])
    a, b = x["ints"][:2]
    e = s + a if b % 2 else s * (a or 1)
    out = translate_expression(expression_from_sympy(e), SYMPY_DIALECT)
    require(sympy.expand(out - e) == 0, "an expression with a large integer changed", out, e)
