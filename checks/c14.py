"""C14: operators survive text, dictionary and file forms."""
import io
import json
import os

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): round trips of generated operators through text, dictionaries and files; a grammar generating operator texts with known meaning; mutation of well-formed terms into malformed ones"
ASSUMPTIONS = [
    "printed and saved operators have at least one term and no coefficient below the library's 1e-8 tolerance (such terms are dropped by design)",
    "coefficients are Python or numpy numbers",
    "in printed text a complex coefficient may be rounded to 12 significant digits: PyPy's str(complex) prints no more, whatever the library does",
]
IDX = 14


@st.composite
def wide_operators(draw, kind=None, min_terms=1, real=False):
    o = draw(ops.operators(kind, IDX, max_terms=5, min_terms=min_terms, max_len=4, real=real, big=True))
    o["np"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        # indices of several digits
        scale = draw(st.sampled_from([1, 9, 71, 143, 99991]))
        o["terms"] = [[[[i * scale + (i > 2), a] for i, a in fs], c] for fs, c in o["terms"]]
    return o


def build(o):
    """Every term set directly, so that the coefficients are exactly those drawn."""
    C = ops.cls(o["kind"])
    out = C()
    for fs, c in o["terms"]:
        v = ops.coef_obj(c)
        if o.get("np") and not isinstance(v, int):
            v = np.complex128(v) if isinstance(v, complex) else np.float64(v)
        out += C(ops.term_key(fs), v)
    return out


def exact(a, b):
    return type(a) is type(b) and dict(a.terms) == dict(b.terms)


def same_text(a, b):
    """Exactly equal, except that PyPy prints complex numbers with 12 digits only."""
    if type(a) is not type(b) or set(a.terms) != set(b.terms):
        return False
    return all(
        abs(a.terms[t] - c) <= 2e-11 * max(abs(c.real), abs(c.imag)) if isinstance(c, complex) else a.terms[t] == c for t, c in b.terms.items()
    )


def multi(o):
    return len(o["terms"]) >= 2 and any(len(fs) >= 2 for fs, _ in o["terms"])


@sub(wide_operators(), quick=700, thorough=20000, rule="two or more terms, one of them with two or more factors", nt=multi)
def printing_and_parsing(case):
    op = build(case)
    if not op.terms or any(abs(c) < 2e-8 for c in op.terms.values()):
        label("zero or negligible terms, skipped")
        return
    before = dict(op.terms)
    for form, text in (("str", str(op)), ("repr", repr(op))):
        back = type(op)(text)
        require(same_text(back, op), f"parsing {form}(operator) gives another operator", text, back.terms, op.terms)
        require(back == op, f"parsed {form} compares unequal", text)
    twice = type(op)(str(op), 2)
    require(set(twice.terms) == set(op.terms) and all(ref.close(twice.terms[t], 2 * c) for t, c in op.terms.items()), "coefficient argument with a text of several terms", str(op), twice.terms)
    require(op.terms == before, "printing changed the operator")
    label(case["kind"])
    label("complex" if any(isinstance(c, complex) for c in op.terms.values()) else "real")


def factor_text(kind, f):
    return f"{f[0]}{'^' if f[1] else ''}" if kind == "fermion" else f"{f[1]}{f[0]}"


SPACE = st.sampled_from([" ", "  ", "\t", "\n", " \n "])


@st.composite
def namings(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    fs = [[draw(st.one_of(st.integers(0, 3), st.integers(0, 120), st.sampled_from([99, 100, 999, 1000, 1001, 12345, 10**6]))), draw(st.sampled_from(ops.ACTIONS[kind]))] for _ in range(draw(st.integers(0, 5)))]
    return {
        "kind": kind,
        "factors": fs,
        "spaces": [draw(SPACE) for _ in range(len(fs) + 1)],
        "perm": draw(st.permutations(range(len(fs)))),
        "coef": draw(ops.coefs()),
    }


@sub(namings(), quick=600, thorough=15000, rule="two or more factors", nt=lambda c: len(c["factors"]) >= 2)
def every_way_of_naming_a_term(case):
    kind, fs = case["kind"], case["factors"]
    C = ops.cls(kind)
    c = ops.coef_obj(case["coef"])
    body = "".join(factor_text(kind, f) + case["spaces"][i] for i, f in enumerate(fs))
    tuples = tuple((i, a) for i, a in fs)
    forms = {
        "tuple": C(tuples, c),
        "list of tuples": C(list(tuples), c),
        "text": C(body, c),
        "bracket text": C("[" + body + "]", c),
        "padded text": C(case["spaces"][-1] + body, c),
    }
    if len(fs) == 1:
        forms["one factor"] = C(tuples[0], c)
        forms["one factor as a list"] = C(list(fs[0]), c)
    first = forms["tuple"]
    for name, op in forms.items():
        require(exact(op, first), f"{name} names another operator than the tuple", body, op.terms, first.terms)
    if len({i for i, _ in fs}) <= 3:
        # rename to a small register for the meaning
        order = sorted({i for i, _ in fs})
        small = [[order.index(i), a] for i, a in fs]
        n = max(1, len(order))
        want = ops.coef_val(case["coef"]) * ops.term_matrix(kind, small, n)
        got = ops.obj_matrix(_renamed(first, order), n, "fermion" if kind == "fermion" else "qubit")
        require(ref.close(got, want), "term does not denote the product of its factors", fs, first.terms)
        label("meaning compared with the matrix product")
    if kind != "fermion" and len({i for i, _ in fs}) == len(fs):
        shuffled = C(tuple(tuples[i] for i in case["perm"]), c)
        require(exact(shuffled, first), "factors on different qubits in another order", fs, case["perm"])


def _renamed(op, order):
    out = type(op)()
    for t, c in op.terms.items():
        out.terms[tuple((order.index(i), a) for i, a in t)] = c
    return out


@st.composite
def coefficient_texts(draw, first):
    """A coefficient as it may be written, and its value."""
    form = draw(st.sampled_from(["none", "plain", "plain", "exp", "imag", "paren", "paren", "complex"]))
    sign = draw(st.sampled_from(["-", "- ", ""] if first else ["+", "+ ", "-", "- ", "+\n", "+ -", "+ - "]))
    neg = "-" in sign
    if form == "none":
        return sign, -1.0 if neg else 1.0
    a = draw(st.sampled_from(["1", "2", "0.5", "1.25", "3.", "10", "0.001"]))
    if form == "plain":
        return sign + a, float(a) * (-1 if neg else 1)
    if form == "exp":
        e = draw(st.sampled_from(["e-3", "E2", "e+1"]))
        return sign + a + e, float(a + e) * (-1 if neg else 1)
    if form == "imag":
        return sign + a + "j", complex(a + "j") * (-1 if neg else 1)
    b = draw(st.sampled_from(["1j", "2.5j", "0.25j"]))
    mid = draw(st.sampled_from(["+", "-"]))
    if form == "complex":
        # no parentheses: the sign in front belongs to the real part only
        return sign + a + mid + b, complex(("-" if neg else "") + a + mid + b)
    inner = draw(st.sampled_from(["", "-"]))
    return sign + f"({inner}{a}{mid}{b})", complex(inner + a + mid + b) * (-1 if neg else 1)


@st.composite
def texts(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    n = draw(st.integers(1, 3))
    parts, terms = [], []
    for k in range(draw(st.integers(1, 5))):
        text, value = draw(coefficient_texts(k == 0))
        fs = draw(ops.factors(kind, n, 4))
        body = draw(st.sampled_from(["", " "])) + " ".join(factor_text(kind, f) for f in fs) + draw(st.sampled_from(["", " "]))
        parts.append(text + draw(st.sampled_from(["", " "])) + "[" + body + "]")
        terms.append([fs, [value.real, value.imag]])
    seps = [draw(st.sampled_from(["", " ", "\n"])) for _ in parts]
    return {"kind": kind, "n": n, "text": "".join(p + s for p, s in zip(parts, seps)), "terms": terms, "factor": draw(st.sampled_from([1, 2.0, -0.5, [0.0, 1.0]]))}


@sub(texts(), quick=600, thorough=15000, rule="two or more terms", nt=lambda c: len(c["terms"]) >= 2)
def texts_mean_what_they_say(case):
    C = ops.cls(case["kind"])
    op = C(case["text"], ops.coef_obj(case["factor"]))
    want = ops.coef_val(case["factor"]) * ops.matrix(case, case["n"])
    got = ops.obj_matrix(op, case["n"], "fermion" if case["kind"] == "fermion" else "qubit")
    require(ref.close(got, want), "parsed operator differs from the written sum", repr(case["text"]), op.terms)


# ----- malformed terms ---------------------------------------------------------------------------------

BAD_FACTORS = {
    "qubit": ["X", "0", "0X", "Q1", "x1", "X-1", "X1.5", "XY0", "X0Y1", "1^", "X 0", "-X0", "X0^", "^", "X+1", "Z1e"],
    "ising": ["X0", "Y3", "Z", "1", "0Z", "z1", "Z-1", "Z1.5", "ZZ0", "Z 0", "1^"],
    "fermion": ["^", "^1", "-1", "-1^", "1^^", "a", "X0", "1.5", "1-", "1^2", "1 ^", "+1", "1+", "a1"],
}
BAD_TUPLES = {
    "qubit": [[0, "Q"], [0, "x"], [-1, "X"], [1.5, "X"], ["X", 0], [0], [0, "X", 1], [0, 1], ["0", "X"], [None, "X"], [0, None], [0, "XY"], []],
    "ising": [[0, "X"], [0, "Y"], [0, "z"], [-1, "Z"], [1.5, "Z"], ["Z", 0], [0], [0, "Z", 1], [0, 1], []],
    "fermion": [[0, 2], [0, -1], [-1, 1], [1.5, 0], ["1", 0], [0], [0, 1, 1], [0, "^"], [0, "X"], [0, None], []],
}
BAD_COEF_TEXTS = ["1..2", "x", "1.0 2.0 3..", "--1", "1+2", "(1+2", "1+2i", "+*", "1,5", "j1", "nope", "2*3"]
BAD_COEFS = ["text", "none", "list", "dict", "bytes"]


@st.composite
def malformed(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    good = draw(ops.factors(kind, 5, 3))
    how = draw(st.sampled_from(["text", "text", "bracket", "sequence", "sequence", "coefficient text", "coefficient", "term", "outside"]))
    at = draw(st.integers(0, len(good)))
    case = {"kind": kind, "good": good, "how": how, "at": at}
    if how in ("text", "bracket"):
        case["bad"] = draw(st.sampled_from(BAD_FACTORS[kind]))
    elif how == "sequence":
        case["bad"] = draw(st.sampled_from(BAD_TUPLES[kind]))
        case["as_list"] = draw(st.booleans())
    elif how == "coefficient text":
        case["bad"] = draw(st.sampled_from(BAD_COEF_TEXTS))
    elif how == "coefficient":
        case["bad"] = draw(st.sampled_from(BAD_COEFS))
    elif how == "term":
        case["bad"] = draw(st.sampled_from(["number", "float", "set", "dict"]))
    else:
        case["bad"] = draw(st.sampled_from([" 1.0", "X0", " + 2 [0", "]", "+", " + 3 X0"]))
    return case


@sub(malformed(), quick=600, thorough=8000, rule="the malformed part stands next to well-formed ones", nt=lambda c: len(c["good"]) >= 1)
def malformed_terms_are_rejected(case):
    kind, good, at = case["kind"], case["good"], case["at"]
    C = ops.cls(kind)
    words = [factor_text(kind, f) for f in good]
    tuples = [tuple(f) for f in good]
    how, bad = case["how"], case["bad"]
    label(how)
    if how in ("text", "bracket"):
        words.insert(at, bad)
        text = " ".join(words)
        if how == "bracket":
            text = "2.0 [] + 1.5 [" + text + "]"
        raises(ValueError, lambda: C(text), f"malformed text {text!r}")
    elif how == "sequence":
        if not tuples and len(bad) == 0:
            return
        if bad and isinstance(bad[0], int) and not isinstance(bad[0], bool) and not tuples:
            pass
        tuples.insert(at, tuple(bad))
        seq = tuples if case["as_list"] else tuple(tuples)
        raises((ValueError, TypeError), lambda: C(seq), f"malformed sequence {seq!r}")
    elif how == "coefficient text":
        text = bad + " [" + " ".join(words) + "]"
        raises(ValueError, lambda: C(text), f"malformed coefficient {text!r}")
    elif how == "coefficient":
        value = {"text": "1.0", "none": None, "list": [1.0], "dict": {}, "bytes": b"1"}[bad]
        raises(ValueError, lambda: C(tuple(tuples), value), f"coefficient {value!r}")
    elif how == "term":
        value = {"number": 3, "float": 1.5, "set": {(0, ops.ACTIONS[kind][0])}, "dict": {}}[bad]
        raises(ValueError, lambda: C(value), f"term {value!r}")
    else:
        text = "1.5 [" + " ".join(words) + "]" + bad
        raises(ValueError, lambda: C(text), f"text outside the brackets {text!r}")


# ----- dictionaries and files ----------------------------------------------------------------------------


def readers(load, path):
    yield "path", lambda: load(path)

    def opened():
        with open(path) as f:
            return load(f)

    yield "open file", opened
    yield "text buffer", lambda: load(io.StringIO(open(path).read()))


@st.composite
def qubit_files(draw):
    which = draw(st.sampled_from(["qubit", "ising", "set"]))
    k = draw(st.integers(0, 4)) if which == "set" else 1
    return {"which": which, "ops": [draw(wide_operators("ising" if which == "ising" else "qubit", min_terms=0 if draw(st.integers(0, 9)) == 0 else 1)) for _ in range(k)]}


@sub(qubit_files(), quick=400, thorough=8000, rule="an operator with two or more terms, one with two or more factors", nt=lambda c: any(multi(o) for o in c["ops"]))
def qubit_and_ising_files(case):
    import zquantum.core.openfermion as of

    objs = [build(o) for o in case["ops"]]
    if any(abs(c) < 2e-8 for o in objs for c in o.terms.values()):
        label("negligible terms, skipped")
        return
    before = [dict(o.terms) for o in objs]
    with scratch():
        if case["which"] == "set":
            of.save_qubit_operator_set(objs, "f.json")
            for form, read in readers(of.load_qubit_operator_set, "f.json"):
                back = read()
                require(len(back) == len(objs), "another number of operators", len(back), len(objs))
                for a, b in zip(back, objs):
                    require(exact(a, b) and a == b, f"operator set read from a {form} differs", a.terms, b.terms)
        else:
            save, load, to_dict, from_dict = {
                "qubit": (of.save_qubit_operator, of.load_qubit_operator, of.convert_qubitop_to_dict, of.convert_dict_to_qubitop),
                "ising": (of.save_ising_operator, of.load_ising_operator, of.convert_isingop_to_dict, of.convert_dict_to_isingop),
            }[case["which"]]
            op = objs[0]
            save(op, "f.json")
            for form, read in readers(load, "f.json"):
                back = read()
                require(exact(back, op) and back == op, f"operator read from a {form} differs", back.terms, op.terms)
            back = from_dict(to_dict(op))
            require(exact(back, op), "operator read from its dictionary differs", back.terms, op.terms)
            back = from_dict(json.loads(json.dumps(to_dict(op))))
            require(exact(back, op), "operator read from its JSON text differs", back.terms, op.terms)
            strings = of.get_pauli_strings(op) if case["which"] == "qubit" else []
            if strings:
                want = ["".join(f"{a}{i}" for i, a in t) for t in op.terms]
                require(strings == want, "Pauli strings", strings, want)
    require([dict(o.terms) for o in objs] == before, "saving changed an operator")
    label(case["which"])


ENTRY = st.one_of(st.floats(-2, 2), st.sampled_from([0.0, 1.0, -0.5]))


@st.composite
def tensors(draw, n, order, cplx):
    size = n**order
    k = draw(st.integers(1, min(size, 8)))
    return [[draw(st.integers(0, size - 1)), draw(ENTRY), draw(ENTRY) if cplx else 0.0] for _ in range(k)]


def tensor(desc, n, order, cplx):
    t = np.zeros((n,) * order, dtype=complex if cplx else float)
    for at, re, im in desc:
        t.flat[at] = complex(re, im) if cplx else re
    return t


@st.composite
def tensor_files(draw):
    n = draw(st.integers(1, 4))
    c1, c2 = draw(st.booleans()), draw(st.booleans())
    return {"which": draw(st.sampled_from(["op", "rdm"])), "n": n, "c1": c1, "c2": c2, "constant": draw(st.sampled_from([0, 1.5, -0.25, [0.5, -1.0], 3])), "one": draw(tensors(n, 2, c1)), "two": draw(tensors(n, 4, c2))}


@sub(tensor_files(), quick=250, thorough=4000, rule="two or more modes and entries in both tensors", nt=lambda c: c["n"] >= 2 and len(c["one"]) >= 1 and len(c["two"]) >= 2)
def tensor_operator_files(case):
    import zquantum.core.openfermion as of

    n = case["n"]
    one, two = tensor(case["one"], n, 2, case["c1"]), tensor(case["two"], n, 4, case["c2"])
    keep = one.copy(), two.copy()
    constant = ops.coef_obj(case["constant"])
    if case["which"] == "op":
        op = of.InteractionOperator(constant, one, two)
        save, load, to, fro = of.save_interaction_operator, of.load_interaction_operator, of.convert_interaction_op_to_dict, of.convert_dict_to_interaction_op
    else:
        op = of.InteractionRDM(one, two)
        save, load, to, fro = of.save_interaction_rdm, of.load_interaction_rdm, of.convert_interaction_rdm_to_dict, of.convert_dict_to_interaction_rdm
    with scratch():
        save(op, "f.json")
        found = [(form, read()) for form, read in readers(load, "f.json")]
    found.append(("dictionary", fro(to(op))))
    found.append(("JSON text", fro(json.loads(json.dumps(to(op))))))
    for form, back in found:
        require(type(back) is type(op), "another type")
        require(np.array_equal(back.one_body_tensor, keep[0]) and np.array_equal(back.two_body_tensor, keep[1]), f"tensors read from {form} differ", back.n_body_tensors, case)
        require(back.one_body_tensor.dtype == keep[0].dtype and back.two_body_tensor.dtype == keep[1].dtype, "tensor types differ", form)
        if case["which"] == "op":
            require(back.constant == constant, f"constant read from {form} differs", back.constant, constant)
        require(back == op and back.n_qubits == n, f"object read from {form} compares unequal")
    require(np.array_equal(op.one_body_tensor, keep[0]) and np.array_equal(op.two_body_tensor, keep[1]), "saving changed the operator")
    label(case["which"])


@st.composite
def stored(draw):
    kind = draw(st.sampled_from(["fermion", "fermion", "qubit"]))
    first = draw(wide_operators(kind))
    second = draw(wide_operators(kind))
    return {"first": first, "second": second, "plain": draw(st.booleans()), "plain2": draw(st.booleans()), "suffix": draw(st.booleans()), "overwrite": draw(st.booleans())}


@sub(stored(), quick=250, thorough=4000, rule="the first operator has two or more terms, one with two or more factors", nt=lambda c: multi(c["first"]))
def stored_operators(case):
    from zquantum.core.openfermion.utils import operator_utils as ou

    a, b = build(case["first"]), build(case["second"])
    if any(not o.terms or any(abs(c) < 2e-8 for c in o.terms.values()) for o in (a, b)):
        label("negligible terms, skipped")
        return
    before = dict(a.terms)
    name = "stored.data" if case["suffix"] else "stored"
    with scratch() as d:
        ou.save_operator(a, name, data_directory=d, plain_text=case["plain"])
        require(os.listdir(d) == ["stored.data"], "file name", os.listdir(d))
        back = ou.load_operator(name, data_directory=d, plain_text=case["plain"])
        same = same_text if case["plain"] else exact
        require(same(back, a) and back == a, "stored operator differs", back.terms, a.terms)
        raises(ou.OperatorUtilsError, lambda: ou.save_operator(b, name, data_directory=d, plain_text=case["plain2"]), "overwriting without permission")
        back = ou.load_operator("stored", data_directory=d, plain_text=case["plain"])
        require(same(back, a), "a refused overwrite changed the file", back.terms, a.terms)
        if case["overwrite"]:
            ou.save_operator(b, name, data_directory=d, allow_overwrite=True, plain_text=case["plain2"])
            back = ou.load_operator(name, data_directory=d, plain_text=case["plain2"])
            require((same_text if case["plain2"] else exact)(back, b), "overwritten operator differs", back.terms, b.terms)
        raises(ou.OperatorUtilsError, lambda: ou.save_operator(a, None, data_directory=d), "saving without a name")
        raises(TypeError, lambda: ou.save_operator("1.0 [0]", "other", data_directory=d), "saving something else")
        require(not os.path.exists(os.path.join(d, "other.data")), "a refused save left a file")
    require(a.terms == before, "saving changed the operator")


@st.composite
def grids(draw):
    m = draw(st.integers(0, 4))
    return [{"value": draw(ENTRY), "precision": draw(st.one_of(st.none(), st.floats(0, 1))), "parameters": [draw(ENTRY) for _ in range(draw(st.integers(0, 3)))]} for _ in range(m)]


@sub(grids(), quick=100, thorough=1000, rule="two or more evaluations", nt=lambda c: len(c) >= 2)
def parameter_grid_evaluations(case):
    import zquantum.core.openfermion as of
    from zquantum.core.utils import ValueEstimate

    evaluations = [{"value": ValueEstimate(e["value"], e["precision"]), "parameter1": {"index": i, "value": e["parameters"]}} for i, e in enumerate(case)]
    keep = [dict(e) for e in evaluations]
    with scratch():
        of.save_parameter_grid_evaluation(evaluations, "f.json")
        data = json.load(open("f.json"))
    require(len(data["values_set"]) == len(case), "another number of evaluations")
    for e, d in zip(keep, data["values_set"]):
        require(ValueEstimate.from_dict(d["value"]) == e["value"], "value estimate", d, e)
        require(d["parameter1"] == e["parameter1"], "parameters", d, e)
    require(evaluations == keep and all(type(e["value"]) is ValueEstimate for e in evaluations), "saving changed the evaluations")


# ----- many terms --------------------------------------------------------------------------------------
@st.composite
def bulky(draw):
    return {
        "kind": draw(st.sampled_from(["qubit", "ising", "fermion"])),
        "m": draw(st.sampled_from([1, 9, 17, 40, 120])),
        "idx": draw(st.sampled_from([6, 12, 120, 1500])),
        "longest": draw(st.sampled_from([2, 6, 12, 20])),
        "size": draw(st.sampled_from(["tiny", "plain", "huge", "mixed"])),
        "cplx": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "sets": draw(st.sampled_from([1, 3, 11, 14])),
    }


def bulk(case, shift=0):
    """An operator whose terms are all different, set directly."""
    r = np.random.RandomState(case["seed"] + shift)
    C = ops.cls(case["kind"])
    op = C()
    for _ in range(case["m"]):
        k = r.randint(0, case["longest"] + 1)
        if case["kind"] == "fermion":
            t = tuple((int(r.randint(case["idx"])), int(r.randint(2))) for _ in range(k))
        else:
            k = min(k, case["idx"])
            t = tuple((int(i), str(r.choice(ops.ACTIONS[case["kind"]]))) for i in sorted(r.choice(case["idx"], k, replace=False)))
        e = {"tiny": -7, "plain": 0, "huge": 12}.get(case["size"])
        scale = 10.0 ** (r.randint(-7, 13) if e is None else e + r.uniform())
        x, y = r.uniform(1, 10, 2) * r.choice([-1, 1], 2) * scale
        op.terms[t] = complex(x, y) if case["cplx"] and r.randint(2) else float(x)
    return op


@sub(bulky(), quick=60, thorough=1500, rule="17 terms or more", nt=lambda c: c["m"] >= 17)
def large_operators(case):
    import zquantum.core.openfermion as of
    from zquantum.core.openfermion.utils import operator_utils as ou

    op = bulk(case)
    C = type(op)
    keep = dict(op.terms)
    for form, text in (("str", str(op)), ("repr", repr(op))):
        back = C(text)
        require(same_text(back, op), f"parsing {form}(operator) gives another operator", back.terms, op.terms)
    with scratch() as d:
        for plain in (False, True) if case["kind"] != "ising" else ():
            ou.save_operator(op, "big", data_directory=d, allow_overwrite=True, plain_text=plain)
            back = ou.load_operator("big", data_directory=d, plain_text=plain)
            require((same_text if plain else exact)(back, op), "stored operator differs", plain, back.terms, op.terms)
        if case["kind"] != "fermion":
            save, load, to, fro = (
                (of.save_qubit_operator, of.load_qubit_operator, of.convert_qubitop_to_dict, of.convert_dict_to_qubitop)
                if case["kind"] == "qubit"
                else (of.save_ising_operator, of.load_ising_operator, of.convert_isingop_to_dict, of.convert_dict_to_isingop)
            )
            save(op, "f.json")
            for form, read in readers(load, "f.json"):
                require(exact(read(), op), f"operator read from a {form} differs")
            require(exact(fro(json.loads(json.dumps(to(op)))), op), "operator read from its JSON text differs")
        if case["kind"] == "qubit":
            many = [bulk(dict(case, m=min(case["m"], 9)), 1 + k) for k in range(case["sets"])]
            of.save_qubit_operator_set(many, "set.json")
            back = of.load_qubit_operator_set("set.json")
            require(len(back) == len(many) and all(exact(x, y) for x, y in zip(back, many)), "operator set differs", len(back), len(many))
            require(of.get_pauli_strings(op) == ["".join(f"{a}{i}" for i, a in t) for t in op.terms], "Pauli strings")
    require(op.terms == keep, "saving changed the operator")
    label(case["kind"])


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([3, 5, 7, 8]), "cplx": st.booleans(), "c1": st.booleans(), "seed": st.integers(0, 10**6), "holes": st.sampled_from([0.0, 0.7]), "exp": st.sampled_from([-9, 0, 9])}),
    quick=20,
    thorough=300,
    rule="five modes or more",
    nt=lambda c: c["n"] >= 5,
)
def large_tensors(case):
    import zquantum.core.openfermion as of

    n, r = case["n"], np.random.RandomState(case["seed"])

    def entries(*k, cplx):
        t = (r.uniform(-2, 2, k) + (1j * r.uniform(-2, 2, k) if cplx else 0)) * 10.0 ** case["exp"]
        return t * (r.uniform(size=k) >= case["holes"])

    one, two = entries(n, n, cplx=case["c1"]), entries(n, n, n, n, cplx=case["cplx"])
    constant = float(r.uniform(-3, 3)) * 10.0 ** case["exp"]
    for op, save, load, to, fro in (
        (of.InteractionOperator(constant, one.copy(), two.copy()), of.save_interaction_operator, of.load_interaction_operator, of.convert_interaction_op_to_dict, of.convert_dict_to_interaction_op),
        (of.InteractionRDM(one.copy(), two.copy()), of.save_interaction_rdm, of.load_interaction_rdm, of.convert_interaction_rdm_to_dict, of.convert_dict_to_interaction_rdm),
    ):
        with scratch():
            save(op, "f.json")
            found = [load("f.json"), fro(json.loads(json.dumps(to(op))))]
        for back in found:
            require(np.array_equal(back.one_body_tensor, one) and np.array_equal(back.two_body_tensor, two), "tensors differ", type(op).__name__, n)
            require(back == op and back.n_qubits == n and getattr(back, "constant", None) == getattr(op, "constant", None), "object differs", type(op).__name__)
