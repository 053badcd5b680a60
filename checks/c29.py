"""C29: numeric and conversion helpers are exact inverses or true predicates."""
import json
import math
import sys
import types
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated numbers, bit lists, matrices, value lists and specifications against exact models"
ASSUMPTIONS = [
    "bit strings of 1 to 80 bits; matrices up to 8 x 8 that are equal to rounding or differ by at least 1e-3, compared with tolerances of 1e-12 to 1e-6",
    "values to discretize are non-negative with a positive sum, totals at most 1e9",
]

# --- bits ------------------------------------------------------------------------------------


@sub(
    st.integers(1, 80).flatmap(lambda n: st.tuples(st.lists(st.integers(0, 1), min_size=n, max_size=n), st.sampled_from([0, 0, 1, 5]))),
    quick=400,
    thorough=4000,
    rule="at least two bits, not all the same",
    nt=lambda c: len(set(c[0])) == 2,
    examples=[([1], 0), ([1, 0], 1), ([0, 0], 0), ([1] * 64, 0)],
)
def bits(c):
    """Integers to bits of a given length and back, most significant bit first."""
    from zquantum.core.utils import bin2dec, dec2bin

    b, extra = c
    number = int("".join(map(str, b)), 2)
    for x in (list(b), tuple(b), np.array(b, dtype=object)):
        require(bin2dec(x) == number, "bits to number", b, bin2dec(x), number)
    require(bin2dec([]) == 0, "no bits")
    out = dec2bin(number, len(b) + extra)
    require(list(out) == [0] * extra + b, "number to bits", number, len(b) + extra, out)
    require(bin2dec(out) == number, "there and back", number)
    if len(b) <= 50:
        require(bin2dec(np.array(b)) == number, "bits in an integer array", b)
    # numbers that do not fit are not given more bits than asked for
    for big in (2 ** len(b), 2 ** len(b) + number, 2 ** (len(b) + 1) - 1):
        raises(SystemExit, lambda: dec2bin(big, len(b)), f"{big} was put in {len(b)} bits")
    require(dec2bin(2 ** len(b) - 1, len(b)) == [1] * len(b), "the largest number", len(b))


@sub(
    st.tuples(st.integers(1, 10), st.lists(st.one_of(st.lists(st.integers(0, 9), min_size=0, max_size=7), st.tuples(st.sampled_from([31, 64, 65, 130, 300]), st.integers(1, 9)).map(lambda p: [(i * p[1] + i // 7) % 10 for i in range(p[0])])), max_size=6)),
    quick=100,
    thorough=600,
    rule="two strings or more",
    nt=lambda c: len(c[1]) >= 2,
)
def strings(c):
    """All bit strings of a length in ascending order; tuples to strings and back."""
    from zquantum.core.utils import convert_bitstrings_to_tuples, convert_tuples_to_bitstrings, get_ordered_list_of_bitstrings

    n, rows = c
    want = [""]
    for _ in range(n):
        want = [w + b for w in want for b in "01"]
    require(get_ordered_list_of_bitstrings(n) == want, "not the bit strings in ascending order", n)
    tuples = [tuple(r) for r in rows]
    texts = ["".join(str(x) for x in r) for r in rows]
    require(list(convert_tuples_to_bitstrings(tuples)) == texts, "tuples to strings", tuples)
    require(list(convert_bitstrings_to_tuples(texts)) == tuples, "strings to tuples", texts)
    require(list(convert_bitstrings_to_tuples(iter(texts))) == tuples, "strings to tuples, from an iterator", texts)
    require(list(convert_bitstrings_to_tuples(want)) == list(__import__("itertools").product((0, 1), repeat=n)), "all bit strings to tuples")


# --- unitaries -------------------------------------------------------------------------------


@st.composite
def unitaries(draw):
    return {
        "kind": draw(st.sampled_from(["identity", "permutation", "diagonal", "random", "random", "gates"])),
        "dim": draw(st.sampled_from([1, 2, 2, 3, 4, 4, 8])),
        "seed": draw(st.integers(0, 10**6)),
        "phase": draw(st.sampled_from([0.0, math.pi, math.pi / 2, 1.0, -2.3, 3.1])),
        "change": draw(st.sampled_from(["none", "none", "phase", "phase", "diagonal", "row", "swap", "other", "column sign", "scale", "entry", "corner"])),
        "eps": draw(st.sampled_from([1e-3, -1e-2, 0.1, 1.0, math.pi])),
        "at": draw(st.integers(0, 7)),
        "tol": draw(st.sampled_from([1e-12, 1e-10, 1e-8, 1e-6])),
        "real": draw(st.booleans()),
    }


def make_unitary(kind, d, seed):
    r = np.random.default_rng(seed)
    if kind == "identity":
        return np.eye(d, dtype=complex)
    if kind == "permutation":
        return np.eye(d)[r.permutation(d)] * np.exp(1j * r.uniform(0, 6, size=d))[:, None]
    if kind == "diagonal":
        return np.diag(np.exp(1j * r.uniform(0, 6, size=d)))
    if kind == "gates" and d == 4:
        return ref.gate_matrix("CNOT", []) @ np.kron(ref.gate_matrix("H", []), ref.gate_matrix("RX", [r.uniform(-3, 3)]))
    q, _ = np.linalg.qr(r.normal(size=(d, d)) + 1j * r.normal(size=(d, d)))
    return q


@sub(
    unitaries(),
    quick=600,
    thorough=8000,
    rule="dimension at least 2",
    nt=lambda c: c["dim"] >= 2,
    examples=[
        {"kind": "permutation", "dim": 2, "seed": 1, "phase": 0.0, "change": "corner", "eps": 1.0, "at": 1, "tol": 1e-10, "real": True},
        {"kind": "identity", "dim": 1, "seed": 1, "phase": 1.0, "change": "phase", "eps": 1.0, "at": 0, "tol": 1e-10, "real": False},
    ],
)
def phases(c):
    """Unitary and identity tests, and comparison of unitaries up to a phase."""
    from zquantum.core.utils import compare_unitary, is_identity, is_unitary

    d, tol, at = c["dim"], c["tol"], c["at"] % c["dim"]
    u = make_unitary(c["kind"], d, c["seed"])
    v = np.exp(1j * c["phase"]) * u
    change = c["change"]
    unit = True
    if change == "diagonal":
        t = np.eye(d, dtype=complex)
        t[at, at] = np.exp(1j * c["eps"])
        v = v @ t
    elif change == "row":
        v = np.roll(v, 1, axis=0)
    elif change == "swap" and d > 1:
        order = list(range(d))
        order[at], order[at - 1] = order[at - 1], order[at]
        v = v[:, order]
    elif change == "other":
        v = make_unitary("random", d, c["seed"] + 1)
    elif change == "column sign":
        v = v.copy()
        v[:, at] *= -1
    elif change == "corner" and d > 1:
        # the product of the two has a zero in its first corner
        v = v @ np.roll(np.eye(d), 1, axis=0)
    elif change == "scale":
        v, unit = v * (1 + max(abs(c["eps"]), 1e-2)), False
    elif change == "entry":
        v = v.copy()
        v[at, (at * 3 + 1) % d] += c["eps"]
        unit = False
    w = u.conj().T @ v
    factor = w[0, 0]
    # distance from "equal up to a phase", from the overlap of the two
    overlap = abs(np.trace(w)) / d
    equal = unit and np.allclose(w, np.trace(w) / d * np.eye(d), atol=1e-9) and abs(overlap - 1) < 1e-9
    far = np.max(np.abs(v @ v.conj().T - np.eye(d)))
    if not unit and far < 5e-4:
        label("change too small")
        return
    label(f"{change}: {'equal' if equal else 'different' if unit else 'not unitary'}")
    require(is_unitary(u, tol) and (bool(is_unitary(v, tol)) == unit), "unitarity is misjudged", c["change"], v)
    require(bool(is_identity(v, tol)) == bool(np.max(np.abs(v - np.eye(d))) < 2e-4), "identity is misjudged", v)
    require(is_identity(u.conj().T @ u, tol), "a unitary times its inverse is no identity")
    if not unit:
        raises(Exception, lambda: compare_unitary(u, v, tol), "a matrix that is not unitary was compared")
        raises(Exception, lambda: compare_unitary(v, u, tol), "a matrix that is not unitary was compared")
        return
    if not equal and 1 - overlap < 1e-8:
        label("too close")
        return
    before = u.copy(), v.copy()
    for a, b in ((u, v), (v, u)):
        require(bool(compare_unitary(a, b, tol)) == equal, "comparison up to a phase is wrong", change, equal, u, v, factor)
    require((u == before[0]).all() and (v == before[1]).all(), "comparing changed a matrix")
    require(bool(compare_unitary(u, u * np.exp(0.7j), tol)), "a unitary differs from itself times a phase")


@sub(
    st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(0, 10**6)).filter(lambda t: t[0] != t[1]),
    quick=20,
    thorough=100,
    rule="always: a matrix that is not square",
    nt=lambda c: True,
)
def not_square(c):
    """Matrices that are not square are rejected."""
    from zquantum.core.utils import compare_unitary, is_identity, is_unitary

    m = np.random.default_rng(c[2]).normal(size=c[:2])
    raises(Exception, lambda: is_identity(m), "a matrix that is not square may be the identity")
    raises(Exception, lambda: is_unitary(m), "a matrix that is not square may be unitary")
    raises(Exception, lambda: compare_unitary(m, m), "a matrix that is not square was compared")


# --- discretization --------------------------------------------------------------------------


@st.composite
def shares(draw):
    value = st.one_of(
        st.integers(0, 20),
        st.integers(0, 20),
        st.floats(0, 100, allow_nan=False).map(lambda x: 0.0 if x < 1e-6 else x),
        st.sampled_from([0.0, 1 / 3, 0.1, 0.2, 0.5, 1e-3, 2.5]),
        st.integers(1, 7).map(lambda k: k / 7),
    )
    values = draw(st.lists(value, min_size=1, max_size=draw(st.sampled_from([3, 8, 20]))))
    if not sum(values) > 1e-3:
        values[draw(st.integers(0, len(values) - 1))] = 1
    total = draw(st.one_of(st.integers(0, 50), st.integers(0, 10**6), st.sampled_from([1, 10**9])))
    if draw(st.integers(0, 3)) == 0:
        # fractional parts of the shares that differ in a late digit only
        digits = draw(st.integers(2, 6))
        step = 10.0**-digits
        near = [draw(st.integers(0, 9)) + draw(st.sampled_from([0.25, 0.5, 1 / 3, 0.75])) * draw(st.sampled_from([1, 1, 1, 0])) + k * step for k in draw(st.lists(st.integers(1, 40), min_size=2, max_size=8, unique=True))]
        total = max(total % 200, 1)
        values = [v * draw(st.sampled_from([1.0, 1.0, 4.0])) for v in near]
        if draw(st.booleans()):
            total = max(1, int(sum(near)))
            values = near[:-1] + [total - sum(near[:-1])]
            if values[-1] < 0:
                values = near
    return {"values": values, "total": total, "form": draw(st.sampled_from(["list", "tuple", "array", "iterator"]))}


@sub(
    shares(),
    quick=600,
    thorough=8000,
    rule="two positive values or more and a positive total",
    nt=lambda c: sum(v > 0 for v in c["values"]) >= 2 and c["total"] > 0,
    examples=[
        {"values": [1, 1, 1], "total": 10, "form": "list"},
        {"values": [0.1] * 10, "total": 10, "form": "array"},
        {"values": [1 / 3, 1 / 3, 1 / 3], "total": 1, "form": "iterator"},
        {"values": [0, 0, 5], "total": 7, "form": "tuple"},
    ],
)
def discretize(c):
    """Scaled values are integers, total what was asked and are less than one away from the exact share."""
    from zquantum.core.utils import scale_and_discretize

    v, total = c["values"], c["total"]
    given = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=float), "iterator": iter}[c["form"]](v)
    out = scale_and_discretize(given, total)
    require(isinstance(out, list) and len(out) == len(v) and all(type(x) is int for x in out), "not a list of integers", out)
    require(sum(out) == total, "another total", out, total)
    exact = [Fraction(x) * total / sum(map(Fraction, v)) for x in v]
    slack = Fraction(1, 10**12) * max(1, total)
    for x, e in zip(out, exact):
        require(abs(x - e) < 1 + slack, "an integer is one or more away from the exact share", out, [float(e) for e in exact])
        require(x >= 0, "a negative share", out)
        if abs(e - round(e)) < slack / 10 and all(abs(f - round(f)) < slack / 10 for f in exact):
            require(x == round(e), "an exact share was changed", out, [float(e) for e in exact])
    if c["form"] != "iterator":
        require(list(given) == v, "the values were changed")
    # largest remainders are rounded up first
    up = [e - math.floor(e) for x, e in zip(out, exact) if x > e]
    down = [e - math.floor(e) for x, e in zip(out, exact) if x < e]
    if up and down:
        require(min(up) >= max(down) - 10 * slack, "a smaller remainder was rounded up in place of a larger one", out, [float(e) for e in exact])


# --- creating objects ------------------------------------------------------------------------

MODULE = "pbt_c29_module"


def module():
    m = types.ModuleType(MODULE)

    def no_args():
        return "none"

    def f(a, b=2, *, c=3):
        return ("f", a, b, c)

    class Thing:
        def __init__(self, a, b=2, c=3):
            self.args = ("Thing", a, b, c)

        @classmethod
        def make(cls, a, b=2, c=3):
            return cls(a, b, c)

    m.no_args, m.f, m.Thing, m.make = no_args, f, Thing, Thing.make
    m.load_noise = lambda data: ("noise", data)
    sys.modules[MODULE] = m
    return m


JSON = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.floats(-10, 10), st.text(max_size=4)),
    lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.text(max_size=3), x, max_size=3)),
    max_leaves=6,
)


@sub(
    st.tuples(
        st.sampled_from(["f", "f", "Thing", "Thing", "make", "no_args"]),
        st.dictionaries(st.sampled_from(["a", "b", "c"]), JSON, max_size=3),
        st.dictionaries(st.sampled_from(["a", "b", "c"]), JSON, max_size=2),
        st.sampled_from(["create", "text", "dict", "func"]),
    ),
    quick=300,
    thorough=2000,
    rule="arguments are given",
    nt=lambda c: c[1] or c[2],
)
def creation(c):
    """Objects and functions from specifications: the arguments of the specification and of the call, none lost or doubled."""
    from zquantum.core.utils import create_object, get_func_from_specs, load_from_specs

    m = module()
    name, args, extra, how = c
    if how != "create":
        extra = {}
    specs = {"module_name": MODULE, "function_name": name, **args}
    before = json.dumps(specs, sort_keys=True)
    call = {
        "create": lambda: create_object(specs, **extra),
        "text": lambda: load_from_specs(json.dumps(specs)),
        "dict": lambda: load_from_specs(specs),
        "func": lambda: get_func_from_specs(specs),
    }[how]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if set(args) & set(extra):
            label("twice")
            raises(ValueError, call, "an argument given twice was accepted")
            require(json.dumps(specs, sort_keys=True) == before, "the specification was changed")
            return
        both = {**args, **extra}
        if name in ("Thing", "make"):
            if "a" not in both:
                raises(TypeError, call, "an object was made without a required argument")
                return
            label("object")
            got = call()
            require(isinstance(got, m.Thing) and got.args == ("Thing", both["a"], both.get("b", 2), both.get("c", 3)), "another object", got, both)
        else:
            label("function")
            got = call()
            if name == "no_args":
                require(got() == "none", "another function")
                if not both:
                    require(got is m.no_args, "not the function itself")
            else:
                rest = {} if "a" in both else {"a": "later"}
                full = {**rest, **both}
                require(got(**rest) == ("f", full["a"], full.get("b", 2), full.get("c", 3)), "the function has other arguments", got(**rest), both)
    require(json.dumps(specs, sort_keys=True) == before, "the specification was changed")
    raises(AttributeError, lambda: create_object({"module_name": MODULE, "function_name": "missing"}), "something that does not exist was created")
    raises(ImportError, lambda: create_object({"module_name": MODULE + "_", "function_name": "f"}), "something was created from no module")


@sub(
    st.tuples(JSON, st.lists(st.sampled_from(["a", "b", "c_1", "c_10", "lambda"]), unique=True, max_size=5), st.integers(0, 10**6), st.sampled_from([0, 0, 0, 1, -1])),
    quick=150,
    thorough=800,
    rule="two symbols or more and data",
    nt=lambda c: len(c[1]) >= 2 and c[0] is not None,
)
def maps_and_noise(c):
    """Symbol maps pair every symbol with its value; noise models are made from the data that was saved."""
    import sympy

    from zquantum.core.utils import create_symbols_map, load_noise_model, save_noise_model

    data, names, seed, more = c
    symbols = [sympy.Symbol(n) for n in names]
    values = np.random.default_rng(seed).normal(size=max(0, len(names) + more))
    if len(values) != len(symbols):
        raises(ValueError, lambda: create_symbols_map(symbols, values), "symbols and values of different numbers were paired")
    else:
        got = create_symbols_map(symbols, values)
        require(list(got.items()) == list(zip(symbols, values.tolist())), "other pairs", got)
    module()
    with scratch() as d:
        f = f"{d}/noise.json"
        save_noise_model(data, MODULE, "load_noise", f)
        require(load_noise_model(f) == ("noise", data), "another noise model", data, load_noise_model(f))
        with open(f) as h:
            require(load_noise_model(h) == ("noise", data), "another noise model from an open file")


# --- compatibility layer ---------------------------------------------------------------------


class Old:
    def __init__(self, n):
        self.n = n


ARG = st.recursive(
    st.one_of(st.integers(0, 5), st.text("xy", max_size=2), st.tuples(st.just("old"), st.integers(-1, 5)).map(lambda t: {"old": t[1]})),
    lambda x: st.lists(x, max_size=3).flatmap(lambda xs: st.sampled_from(["list", "tuple", "odd"]).map(lambda k: {k: xs})),
    max_leaves=6,
)


@sub(
    st.tuples(st.lists(ARG, max_size=3), st.dictionaries(st.sampled_from(["p", "q"]), ARG, max_size=2), st.sampled_from([None, ["list"], ["tuple"], ["list", "tuple"]]), st.booleans(), st.booleans()),
    quick=300,
    thorough=2500,
    rule="there is an old-style object in the arguments",
    nt=lambda c: "old" in json.dumps([c[0], c[1]]),
)
def compatibility(c):
    """Functions marked as compatible get every old-style object translated, everything else as it is."""
    from zquantum.core.wip.compatibility_tools import TranslationFailed, compatible_with_old_type

    args, kwargs, iterables, deprecate, fallback = c

    class Odd(list):
        pass

    def translate(o):
        if o.n < 0:
            raise KeyError("cannot")
        return ("new", o.n)

    def build(x, new):
        if isinstance(x, dict):
            (k, v), = x.items()
            if k == "old":
                return ("new", v) if new else Old(v)
            kind = {"list": list, "tuple": tuple, "odd": Odd}[k]
            return kind(build(y, new and bool(iterables) and k in iterables) for y in v)
        return x

    def reached(x):
        """Old-style objects in places that are translated."""
        if isinstance(x, dict):
            (k, v), = x.items()
            if k == "old":
                return [v]
            return [n for y in v for n in reached(y)] if iterables and k in iterables else []
        return []

    def show(x):
        if isinstance(x, Old):
            return {"old": x.n}
        if isinstance(x, (list, tuple)):
            return [type(x).__name__, *[show(y) for y in x]]
        return x

    calls = []

    def wrapped(*a, **k):
        calls.append("wrapped")
        return show(a), {key: show(v) for key, v in k.items()}

    def other(*a, **k):
        calls.append("fallback")
        return show(a), {key: show(v) for key, v in k.items()}

    kinds = {"list": list, "tuple": tuple}
    f = compatible_with_old_type(
        Old,
        translate,
        deprecation_msg="old" if deprecate else None,
        fallback_function=other if fallback else None,
        consider_iterable_types=iterables and [kinds[k] for k in iterables],
    )(wrapped)
    found = [n for x in [*args, *kwargs.values()] for n in reached(x)]
    given = [build(x, False) for x in args], {k: build(v, False) for k, v in kwargs.items()}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if any(n < 0 for n in found) and not fallback:
            label("fails")
            raises(TranslationFailed, lambda: f(*given[0], **given[1]), "a failed translation was ignored")
            require(calls == [], "the function was called after a failed translation")
            return
        got = f(*given[0], **given[1])
    if any(n < 0 for n in found):
        label("fallback")
        require(calls == ["fallback"] and got == (show(tuple(given[0])), {k: show(v) for k, v in given[1].items()}), "the fallback function was not called with the original arguments", got)
        return
    label("translated" if found else "nothing to translate")
    want = show(tuple(build(x, True) for x in args)), {k: show(build(v, True)) for k, v in kwargs.items()}
    require(calls == ["wrapped"] and got == want, "the function got other arguments", want, got)
    require(len([w for w in caught if w.category is DeprecationWarning]) == (len(found) if deprecate else 0), "not one deprecation warning per old-style object", len(caught))


@sub(
    st.dictionaries(st.integers(1, 4).flatmap(lambda n: st.just(n)), st.integers(1, 5), min_size=1, max_size=1).flatmap(
        lambda d: st.dictionaries(st.tuples(*[st.integers(0, 1)] * list(d)[0]), st.integers(1, 9), min_size=1, max_size=8)
    ).map(lambda d: sorted(d.items())),
    quick=60,
    thorough=300,
    rule="two outcomes or more",
    nt=lambda c: len(c) >= 2,
)
def old_distribution(c):
    """The old name of distributions has the same content and gives the number of qubits."""
    from zquantum.core.bitstring_distribution import BitstringDistribution
    from zquantum.core.distribution import MeasurementOutcomeDistribution

    d = {tuple(k): v / sum(x for _, x in c) for k, v in c}
    a, b = BitstringDistribution(dict(d)), MeasurementOutcomeDistribution(dict(d))
    require(isinstance(a, MeasurementOutcomeDistribution), "not a distribution")
    require(a.distribution_dict == b.distribution_dict, "another distribution", a.distribution_dict, b.distribution_dict)
    require(a.get_qubits_number() == len(next(iter(d))) == b.get_number_of_subsystems(), "another number of qubits")
    require(repr(a).startswith("BitstringDistribution"), "the name is not shown", repr(a))
