"""C12: result artifacts survive being saved and loaded."""
import copy
import io
import json
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import fail, label, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated artifacts and nested documents, written and read back, compared with the generated description"
ASSUMPTIONS = [
    "numbers are finite; arrays with an empty dimension have it last (JSON lists cannot express others); tuples come back as lists",
    "plain dictionaries that have the very form in which an artifact is written (keys real, call_number+value, schema, or only digit keys with non-negative numbers) are not generated",
]

floats = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, 1e-300, -1e300, 5e-324, 0.1, 1 / 3, 1e16, -2.5, 123456789.123456789]),
    st.integers(-100, 100).map(float),
)
ints = st.one_of(st.integers(-50, 50), st.integers(-(2**62), 2**62), st.sampled_from([0, 2**53 + 1]))


@st.composite
def arrays(draw, empty=True):
    nd = draw(st.integers(0, 4))
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    if nd and empty and draw(st.integers(0, 6)) == 0:
        shape[-1] = 0
    size = int(np.prod(shape)) if shape else 1
    kind = draw(st.sampled_from(["f", "c", "c", "i", "b", "f4"]))
    if kind in ("f", "f4"):
        flat = draw(st.lists(floats if kind == "f" else st.integers(-99, 99).map(lambda x: x / 8), min_size=size, max_size=size))
    elif kind == "c":
        flat = [[a, b] for a, b in draw(st.lists(st.tuples(floats, floats), min_size=size, max_size=size))]
        z = draw(st.integers(0, 5))
        if z == 0:
            flat = [[a, 0.0] for a, _ in flat]
        elif z == 1:
            flat = [[0.0, b] for _, b in flat]
    elif kind == "i":
        flat = draw(st.lists(ints, min_size=size, max_size=size))
    else:
        flat = draw(st.lists(st.booleans(), min_size=size, max_size=size))
    return {"t": "arr", "kind": kind, "shape": shape, "flat": flat, "view": draw(st.integers(0, 3))}


def build_array(a):
    shape = tuple(a["shape"])
    if a["kind"] == "c":
        arr = np.array([complex(*z) for z in a["flat"]], dtype=complex).reshape(shape)
    else:
        arr = np.array(a["flat"], dtype={"f": float, "f4": np.float32, "i": np.int64, "b": bool}[a["kind"]]).reshape(shape)
    if a["view"] == 1:
        arr = np.asfortranarray(arr)
    elif a["view"] == 2 and arr.ndim:
        arr = np.concatenate([arr, arr])[: arr.shape[0]]
    return arr


def same_array(got, a, what):
    want = build_array(a)
    require(isinstance(got, (np.ndarray, np.generic)), f"{what}: not an array", type(got), got)
    require(np.shape(got) == want.shape, f"{what}: shape", np.shape(got), want.shape)
    require(np.array_equal(got, want), f"{what}: values", got, want)
    if want.size:
        require(np.asarray(got).dtype.kind == want.dtype.kind or (want.dtype.kind == "c" and not want.imag.any()), f"{what}: number type", np.asarray(got).dtype, want.dtype)


@st.composite
def estimates(draw):
    return {"t": "ve", "v": draw(floats), "p": draw(st.one_of(st.none(), floats)), "np": draw(st.booleans())}


def build_estimate(e):
    from zquantum.core.utils import ValueEstimate

    f = np.float64 if e["np"] else float
    return ValueEstimate(f(e["v"]), None if e["p"] is None else f(e["p"]))


@st.composite
def dists(draw):
    width = draw(st.integers(1, 4))
    keys = draw(st.lists(st.lists(st.sampled_from([0, 1, 1, 2, 12]), min_size=width, max_size=width), min_size=1, max_size=4, unique_by=tuple))
    w = [draw(st.integers(0, 9)) for _ in keys]
    if not any(w):
        w[0] = 1
    return {"t": "dist", "keys": keys, "w": w, "norm": draw(st.integers(0, 3)) > 0}


def build_dist(d):
    from zquantum.core.distribution import MeasurementOutcomeDistribution

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return MeasurementOutcomeDistribution({tuple(k): float(w) for k, w in zip(d["keys"], d["w"])}, normalize=d["norm"])


NAMES = ["a", "loss", "nit", "x y", "value", "params", "0a", "a,b", "1.5", "10", "0", "001", "-1", "é", "history", "opt", "{", "imaginary", "call"]


def looks_like_distribution(items):
    ks = [k for k, _ in items]
    if not ks or not all(v["t"] in ("num", "int", "bool", "npint", "npfloat", "npbool") and v["v"] >= 0 for _, v in items):
        return False
    parts = [tuple(k.split(",")) if "," in k else tuple(k) for k in ks]
    return all(all(p.isdigit() for p in ps) for ps in parts) and len({len(p) for p in parts}) == 1


leaf = st.one_of(
    floats.map(lambda x: {"t": "num", "v": x}),
    ints.map(lambda x: {"t": "int", "v": x}),
    st.booleans().map(lambda x: {"t": "bool", "v": x}),
    st.text(max_size=4).map(lambda x: {"t": "str", "v": x}),
    st.just({"t": "none"}),
    arrays(),
    arrays(),
    estimates(),
    dists(),
    floats.map(lambda x: {"t": "npfloat", "v": x}),
    ints.map(lambda x: {"t": "npint", "v": x}),
    st.booleans().map(lambda x: {"t": "npbool", "v": x}),
    st.tuples(floats, floats).map(lambda x: {"t": "npcomplex", "v": list(x)}),
)


@st.composite
def items(draw, child, names=NAMES):
    ks = draw(st.lists(st.sampled_from(names), max_size=4, unique=True))
    its = [[k, draw(child)] for k in ks]
    if looks_like_distribution(its):
        its.append(["plain", {"t": "none"}])
    return its


@st.composite
def branch(draw, child):
    k = draw(st.integers(0, 6))
    if k == 0:
        return {"t": "list", "v": draw(st.lists(child, max_size=4))}
    if k == 1:
        return {"t": "tuple", "v": draw(st.lists(child, max_size=3))}
    if k in (2, 3):
        return {"t": "dict", "v": draw(items(child))}
    if k == 4:
        return {"t": "hist", "n": draw(st.integers(0, 99)), "params": draw(child), "value": draw(child)}
    if k == 5:
        return {"t": "hista", "n": draw(st.integers(0, 99)), "params": draw(child), "value": draw(child), "art": draw(items(child))}
    return {"t": "opt", "v": draw(items(child, ["nit", "nfev", "success", "history", "gradient_history", "message", "opt_x"])), "value": draw(child), "params": draw(child)}


trees = st.recursive(leaf, branch, max_leaves=8)


def kinds(t):
    out = [t["t"]]
    for v in t.values():
        if isinstance(v, dict):
            out += kinds(v)
        elif isinstance(v, list) and t["t"] != "arr":
            for x in v:
                if isinstance(x, dict):
                    out += kinds(x)
                elif isinstance(x, list) and len(x) == 2 and isinstance(x[1], dict):
                    out += kinds(x[1])
    return out


def build(t):
    from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts
    from zquantum.core.interfaces.optimizer import optimization_result

    k = t["t"]
    if k in ("num", "int", "bool", "str"):
        return t["v"]
    if k == "none":
        return None
    if k == "arr":
        return build_array(t)
    if k == "ve":
        return build_estimate(t)
    if k == "dist":
        return build_dist(t)
    if k == "npfloat":
        return np.float64(t["v"])
    if k == "npint":
        return np.int64(t["v"])
    if k == "npbool":
        return np.bool_(t["v"])
    if k == "npcomplex":
        return np.complex128(complex(*t["v"]))
    if k == "list":
        return [build(x) for x in t["v"]]
    if k == "tuple":
        return tuple(build(x) for x in t["v"])
    if k == "dict":
        return {key: build(x) for key, x in t["v"]}
    if k == "hist":
        return HistoryEntry(t["n"], build(t["params"]), build(t["value"]))
    if k == "hista":
        return HistoryEntryWithArtifacts(t["n"], build(t["params"]), build(t["value"]), {key: build(x) for key, x in t["art"]})
    return optimization_result(opt_value=build(t["value"]), opt_params=build(t["params"]), **{key: build(x) for key, x in t["v"]})


def same_items(got, its, what):
    require(set(got) == {k for k, _ in its}, f"{what}: keys", sorted(got), [k for k, _ in its])
    for k, x in its:
        same(got[k], x, f"{what}.{k}")


def same(got, t, what="document"):
    from scipy.optimize import OptimizeResult

    from zquantum.core.distribution import MeasurementOutcomeDistribution
    from zquantum.core.history.recorder import HistoryEntry, HistoryEntryWithArtifacts
    from zquantum.core.utils import ValueEstimate

    k = t["t"]
    if k in ("num", "int", "bool", "str", "npfloat", "npint", "npbool"):
        plain = {"num": float, "npfloat": float, "int": int, "npint": int, "bool": bool, "npbool": bool, "str": str}[k]
        require(type(got) is plain and got == t["v"], f"{what}: plain value", repr(got), repr(t["v"]))
    elif k == "none":
        require(got is None, f"{what}: None", got)
    elif k == "arr":
        same_array(got, t, what)
    elif k == "npcomplex":
        require(complex(got) == complex(*t["v"]), f"{what}: complex number", got, t["v"])
    elif k == "ve":
        require(type(got) is ValueEstimate and float(got) == t["v"] and got.precision == t["p"], f"{what}: value estimate", repr(got), t)
        require(got == build_estimate(t) and not got != build_estimate(t), f"{what}: value estimates compare unequal")
        other = 1.0 if t["v"] != 1.0 else 2.0
        for x in (ValueEstimate(other, got.precision), ValueEstimate(float(got), 0.25 if got.precision is None else None), ValueEstimate(float(got), 7.0 if got.precision != 7.0 else 8.0)):
            require(got != x and x != got and not got == x and not x == got, f"{what}: different value estimates compare equal", repr(got), repr(x))
        require((got == t["v"]) is (got.precision is None), f"{what}: a value estimate compared with a number", repr(got))
    elif k == "dist":
        require(type(got) is MeasurementOutcomeDistribution and got.distribution_dict == build_dist(t).distribution_dict, f"{what}: distribution", got, t)
    elif k in ("list", "tuple"):
        require(type(got) is list and len(got) == len(t["v"]), f"{what}: list", got)
        for i, x in enumerate(t["v"]):
            same(got[i], x, f"{what}[{i}]")
    elif k == "dict":
        require(type(got) is dict, f"{what}: dictionary", type(got), got)
        same_items(got, t["v"], what)
    elif k in ("hist", "hista"):
        require(type(got) is (HistoryEntry if k == "hist" else HistoryEntryWithArtifacts), f"{what}: history entry", type(got), got)
        require(got.call_number == t["n"], f"{what}: call number", got.call_number)
        same(got.params, t["params"], f"{what}.params")
        same(got.value, t["value"], f"{what}.value")
        if k == "hista":
            require(type(got.artifacts) is dict, f"{what}: artifacts", got.artifacts)
            same_items(got.artifacts, t["art"], f"{what}.artifacts")
    else:
        require(type(got) is OptimizeResult, f"{what}: optimization result", type(got), got)
        same_items(got, t["v"] + [["opt_value", t["value"]], ["opt_params", t["params"]]], what)


RICH = {"arr", "ve", "dist", "hist", "hista", "opt", "npcomplex"}


@sub(
    trees,
    quick=900,
    rule="a nested document that contains an artifact (array, estimate, distribution, history entry, optimization result)",
    nt=lambda t: len(kinds(t)) > 1 and bool(RICH & set(kinds(t))),
)
def documents(case):
    from zquantum.core.serialization import OrquestraDecoder, OrquestraEncoder

    obj = build(case)
    text = json.dumps(obj, cls=OrquestraEncoder)
    same(json.loads(text, cls=OrquestraDecoder), case)
    buf = io.StringIO()
    json.dump(obj, buf, cls=OrquestraEncoder)
    buf.seek(0)
    same(json.load(buf, cls=OrquestraDecoder), case)
    require(json.dumps(obj, cls=OrquestraEncoder) == text, "writing changed the document")
    for k in set(kinds(case)) & RICH:
        label("contains " + k)


@st.composite
def results(draw):
    child = st.one_of(leaf, branch(leaf))
    entry = st.one_of(
        st.builds(lambda n, p, v: {"t": "hist", "n": n, "params": p, "value": v}, st.integers(0, 99), arrays(), st.one_of(estimates(), leaf)),
        st.builds(lambda n, p, v, a: {"t": "hista", "n": n, "params": p, "value": v, "art": a}, st.integers(0, 99), arrays(), leaf, items(child)),
    )
    extra = [["history", {"t": "list", "v": draw(st.lists(entry, max_size=4))}]]
    if draw(st.booleans()):
        extra.append(["gradient_history", {"t": "list", "v": draw(st.lists(entry, max_size=2))}])
    extra += [[k, draw(child)] for k in draw(st.lists(st.sampled_from(["nit", "nfev", "info", "message"]), unique=True))]
    return {"t": "opt", "v": extra, "value": draw(st.one_of(floats.map(lambda x: {"t": "num", "v": x}), estimates())), "params": draw(arrays()), "plain": draw(st.integers(0, 4)) == 0}


@sub(results(), quick=250, rule="a history with an entry", nt=lambda c: bool(c["v"][0][1]["v"]))
def optimization_results(case):
    from zquantum.core.serialization import load_optimization_results, save_optimization_results

    obj = build(case)
    if case["plain"]:
        obj = dict(obj)
    keys = list(obj)
    with scratch():
        save_optimization_results(obj, "r.json")
        got = load_optimization_results("r.json")
    same(got, case, "result")
    require(list(obj) == keys, "saving changed the result", keys, list(obj))


def tagged(kind, strategy):
    return strategy.map(lambda v: {"kind": kind, "v": v})


def real_arrays():
    return arrays().map(lambda a: a)


expectation = st.fixed_dictionaries(
    {
        "values": arrays(),
        "corr": st.one_of(st.none(), st.lists(arrays(), min_size=1, max_size=3)),
        "cov": st.one_of(st.none(), st.lists(arrays(), min_size=1, max_size=3)),
    }
)
plain = st.recursive(
    st.one_of(floats, ints, st.booleans(), st.none(), st.text(max_size=5)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)),
    max_leaves=6,
)
artifacts = st.one_of(
    tagged("array", arrays()),
    tagged("estimate", estimates()),
    tagged("expectation", expectation),
    tagged("expectation", expectation),
    tagged("parities", expectation),
    tagged("list", st.lists(plain, max_size=5)),
    tagged("dict", st.dictionaries(st.text(min_size=1, max_size=4), plain, max_size=5)),
    tagged("nmeas", st.fixed_dictionaries({"k": st.one_of(floats, ints), "n": st.integers(0, 10**6), "frames": st.one_of(st.none(), arrays())})),
    tagged("timing", floats),
    tagged("ordering", st.permutations(list(range(7)))),
    tagged("noise", plain),
)


def noise_reader(data):
    """Loader named in generated noise model files."""
    return ["noise", data]


def same_list(got, want, what):
    if not want:
        require(not got, f"{what}: appeared from nowhere", got)
        return
    require(len(got) == len(want), f"{what}: number of arrays", len(got), len(want))
    for g, w in zip(got, want):
        same_array(g, w, what)


@sub(
    artifacts,
    quick=600,
    rule="an artifact that holds more than a single plain number",
    nt=lambda c: c["kind"] not in ("timing",) and (not isinstance(c["v"], (list, dict, str)) or len(c["v"]) > 0),
)
def files(case):
    from zquantum.core import measurement as M
    from zquantum.core import utils as U
    from zquantum.core.circuits.layouts import load_circuit_ordering, save_circuit_ordering
    from zquantum.core.serialization import load_array, save_array

    kind, v = case["kind"], case["v"]
    label(kind)
    keep = copy.deepcopy(v)

    def read(load):
        out = [load("f.json")]
        with open("f.json") as f:
            out.append(load(f))
        return out

    with scratch():
        if kind == "array":
            arr = build_array(v)
            save_array(arr, "f.json")
            for got in read(load_array):
                same_array(got, v, "array")
            with open("g.json", "w") as f:
                save_array(arr, f)
            same_array(load_array("g.json"), v, "array written to an open file")
            same_array(U.convert_dict_to_array(json.loads(json.dumps(U.convert_array_to_dict(arr)))), v, "array form")
        elif kind == "estimate":
            e = build_estimate(v)
            U.save_value_estimate(e, "f.json")
            for got in read(U.load_value_estimate):
                same(got, v, "estimate")
            same(U.ValueEstimate.from_dict(e.to_dict()), v, "dictionary form")
        elif kind == "expectation":
            mk = lambda xs: None if xs is None else [build_array(x) for x in xs]
            e = M.ExpectationValues(build_array(v["values"]), mk(v["corr"]), mk(v["cov"]))
            M.save_expectation_values(e, "f.json")
            for got in read(M.load_expectation_values) + [M.ExpectationValues.from_dict(e.to_dict())]:
                require(type(got) is M.ExpectationValues, "type")
                same_array(got.values, v["values"], "values")
                same_list(got.correlations, v["corr"], "correlations")
                same_list(got.estimator_covariances, v["cov"], "covariances")
        elif kind == "parities":
            mk = lambda xs: None if xs is None else [build_array(x) for x in xs]
            e = M.Parities(build_array(v["values"]), mk(v["corr"]))
            M.save_parities(e, "f.json")
            for got in read(M.load_parities) + [M.Parities.from_dict(e.to_dict())]:
                same_array(got.values, v["values"], "values")
                same_list(got.correlations, v["corr"], "correlations")
        elif kind == "list":
            U.save_list(v, "f.json", "x")
            for got in read(U.load_list):
                require(got == v and repr(got) == repr(keep), "list", got, v)
        elif kind == "dict":
            U.save_generic_dict(v, "f.json")
            with open("f.json") as f:
                data = json.load(f)
            want = {"schema": U.SCHEMA_VERSION + "-dict", **keep}
            require(data == want, "dictionary in the file", data, want)
        elif kind == "nmeas":
            frames = None if v["frames"] is None else build_array(v["frames"])
            U.save_nmeas_estimate(v["k"], v["n"], "f.json", frames)
            k, n, fr = U.load_nmeas_estimate("f.json")
            require(k == v["k"] and n == v["n"], "estimate", (k, n), v)
            if frames is None:
                require(fr is None, "frame measurements appeared", fr)
            else:
                same_array(fr, v["frames"], "frame measurements")
        elif kind == "timing":
            U.save_timing(v, "f.json")
            with open("f.json") as f:
                data = json.load(f)
            require(data == {"schema": U.SCHEMA_VERSION + "-timing", "walltime": v}, "timing", data)
        elif kind == "ordering":
            save_circuit_ordering(v, "f.json")
            require(list(load_circuit_ordering("f.json")) == list(keep), "ordering")
        else:
            U.save_noise_model(v, __name__, "noise_reader", "f.json")
            for got in read(U.load_noise_model):
                require(got == ["noise", keep], "noise model data", got, keep)
    require(repr(v) == repr(keep), "saving changed the artifact", v, keep)


def big_array(rs, size):
    nd = rs.randint(1, 7)
    shape = [1] * nd
    while int(np.prod(shape)) < size:
        shape[rs.randint(nd)] += 1
    size = int(np.prod(shape))
    kind = ["f", "c", "i", "b"][rs.randint(4)]
    scale = 10.0 ** rs.randint(-12, 13, size=size)
    if kind == "f":
        flat = [float(v) for v in rs.normal(size=size) * scale]
    elif kind == "c":
        flat = [[float(a), float(b)] for a, b in zip(rs.normal(size=size) * scale, rs.normal(size=size) * (rs.randint(3, size=size) > 0))]
    elif kind == "i":
        flat = [int(v) for v in rs.randint(-(2**60), 2**60, size=size)]
    else:
        flat = [bool(v) for v in rs.randint(2, size=size)]
    return {"t": "arr", "kind": kind, "shape": shape, "flat": flat, "view": int(rs.randint(4))}


def big_dist(rs, d, width):
    top = [1, 1, 9, 14][rs.randint(4)]
    keys = [list(k) for k in dict.fromkeys(tuple(int(v) for v in row) for row in rs.randint(0, top + 1, size=(d, width)))]
    return {"t": "dist", "keys": keys, "w": [int(v) for v in rs.randint(1, 99, size=len(keys))], "norm": bool(rs.randint(4))}


def big_leaf(rs):
    k = rs.randint(8)
    if k == 0:
        return big_array(rs, int(rs.randint(1, 40)))
    if k == 1:
        return {"t": "ve", "v": float(rs.normal()), "p": None if rs.randint(3) == 0 else float(rs.uniform()), "np": bool(rs.randint(2))}
    if k == 2:
        return big_dist(rs, 5, 3)
    if k == 3:
        return {"t": "npcomplex", "v": [float(rs.normal()), float(rs.normal())]}
    if k == 4:
        return {"t": "str", "v": "".join(chr(int(c)) for c in rs.randint(32, 1000, size=rs.randint(0, 80)))}
    if k == 5:
        return {"t": "int", "v": int(rs.randint(-(2**62), 2**62))}
    return {"t": "num", "v": float(rs.normal() * 10.0 ** rs.randint(-30, 30))}


def big_items(rs, count):
    return [[f"key{i}" if rs.randint(3) else f"{i} {NAMES[rs.randint(len(NAMES))]}", big_leaf(rs)] for i in range(count)]


def big_entry(rs, n):
    e = {"t": "hist", "n": n, "params": big_array(rs, int(rs.randint(1, 9))), "value": big_leaf(rs)}
    return e if rs.randint(2) else {**e, "t": "hista", "art": big_items(rs, int(rs.randint(0, 4)))}


@sub(
    st.fixed_dictionaries({"form": st.sampled_from(["history", "array", "dist", "wide dict", "deep", "long list", "several results"]), "size": st.sampled_from([20, 70, 300]), "seed": st.integers(0, 10**6)}),
    quick=60,
    thorough=1000,
    shards=3,
    rule="every case: twenty elements, entries or levels or more",
)
def large_documents(x):
    from zquantum.core.serialization import OrquestraDecoder, OrquestraEncoder, load_optimization_results, save_optimization_results

    rs = np.random.RandomState(x["seed"])
    size, form = x["size"], x["form"]
    label(form)
    if form == "history":
        result = lambda k: {"t": "opt", "v": [["history", {"t": "list", "v": [big_entry(rs, i) for i in range(k)]}], ["nit", {"t": "int", "v": k}]], "value": big_leaf(rs), "params": big_array(rs, 12)}
        t = result(min(size, 150))
        with scratch():
            save_optimization_results(build(t), "r.json")
            same(load_optimization_results("r.json"), t, "long history")
    elif form == "array":
        t = {"t": "dict", "v": [["a", big_array(rs, size * 4)], ["b", big_array(rs, 5)]]}
    elif form == "dist":
        t = {"t": "list", "v": [big_dist(rs, size, int(rs.randint(8, 70))), big_dist(rs, 4, 3)]}
    elif form == "wide dict":
        t = {"t": "dict", "v": big_items(rs, size)}
    elif form == "long list":
        t = {"t": "list", "v": [big_leaf(rs) for _ in range(size)]}
    elif form == "several results":
        t = {"t": "list", "v": [{"t": "opt", "v": big_items(rs, 3), "value": big_leaf(rs), "params": big_array(rs, 3)} for _ in range(size // 10)]}
    else:
        t = big_leaf(rs)
        for i in range(min(size, 60)):
            k = rs.randint(5)
            if k == 0:
                t = {"t": "list", "v": [t, big_leaf(rs)]}
            elif k == 1:
                t = {"t": "dict", "v": [["child", t], ["other", {"t": "none"}]]}
            elif k == 2:
                t = {"t": "hist", "n": i, "params": big_leaf(rs), "value": t}
            elif k == 3:
                t = {"t": "hista", "n": i, "params": t, "value": big_leaf(rs), "art": [["more", big_leaf(rs)]]}
            else:
                t = {"t": "opt", "v": [["nit", {"t": "int", "v": i}], ["info", t]], "value": big_leaf(rs), "params": big_array(rs, 2)}
    obj = build(t)
    text = json.dumps(obj, cls=OrquestraEncoder)
    same(json.loads(text, cls=OrquestraDecoder), t)
