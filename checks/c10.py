"""C10: outcome distributions are valid, normalized and preserved by I/O."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated mappings, valid and invalid in every key form, against an independent acceptance and value model, plus file round trips"
ASSUMPTIONS = [
    "the same outcome is not given twice under two spellings; weights are finite and their sum is zero or within 1e-150..1e150",
    "written files are read back normalized (distributions left unnormalized are compared up to normalization)",
]


@st.composite
def weights(draw, d):
    k = draw(st.integers(0, 5))
    if k == 0:
        w = [draw(st.floats(0, 1)) for _ in range(d)]
    elif k == 1:
        w = [draw(st.integers(0, 20)) for _ in range(d)]
    elif k == 2:  # normalized
        w = [draw(st.integers(0, 20)) for _ in range(d)]
        s = sum(w)
        w = [x / s for x in w] if s else w
    elif k == 3:
        e = draw(st.sampled_from([-140, -30, 30, 140]))
        w = [draw(st.integers(1, 9)) * 10.0**e for _ in range(d)]
    elif k == 4:  # nearly normalized
        w = [1.0 / d] * d
        w[0] += draw(st.sampled_from([1e-12, -1e-12, 1e-6, -1e-6, 1e-4]))
    else:
        w = [0] * d
        w[draw(st.integers(0, d - 1))] = draw(st.sampled_from([0, 1, 1.0, 3]))
    return [x if x > 1e-200 else 0 for x in w]


def spell(key, how):
    if how == "tuple":
        return tuple(key)
    if how == "np":
        return tuple(np.int64(x) for x in key)
    if how == "digits":
        return "".join(map(str, key))
    return ",".join(map(str, key))


@st.composite
def mappings(draw):
    width = draw(st.integers(1, 5)) if draw(st.integers(0, 9)) else draw(st.sampled_from([40, 70]))
    top = draw(st.sampled_from([1, 1, 1, 2, 9, 12, 250]))
    keys = draw(st.lists(st.lists(st.integers(0, top), min_size=width, max_size=width), min_size=draw(st.sampled_from([1, 2, 2])), max_size=6, unique_by=tuple))
    hows = []
    style = draw(st.sampled_from(["tuple", "np", "digits", "comma", "mixed"]))
    for k in keys:
        ok = ["tuple", "np"]
        if max(k) <= 9:
            ok.append("digits")
        if width > 1:
            ok.append("comma")
        hows.append(style if style in ok else draw(st.sampled_from(ok)))
    return {"keys": keys, "how": hows, "w": draw(weights(len(keys)))}


BAD = ["negative weight", "negative digit", "length", "length text", "float digit", "int key", "none key", "letters", "empty", "negative comma", "nan", "text digit", "float whole", "lengths", "lengths"]


@st.composite
def requests(draw):
    m = draw(mappings())
    m["normalize"] = draw(st.booleans())
    m["bad"] = draw(st.sampled_from(BAD)) if draw(st.integers(0, 2)) == 0 else None
    m["at"] = draw(st.integers(0, len(m["keys"]) - 1))
    if m["bad"] == "lengths":
        # keys of several lengths, in any order
        if draw(st.booleans()):
            # the ends agree with each other and with the average
            base = draw(st.integers(2, 4))
            off = draw(st.integers(1, base - 1))
            sizes = [base] + list(draw(st.permutations([base - off, base + off] + [base] * draw(st.integers(0, 1))))) + [base]
        else:
            sizes = draw(st.lists(st.integers(1, 5), min_size=2, max_size=5).filter(lambda t: len(set(t)) > 1))
        m["lengths"] = sizes
        m["form"] = draw(st.sampled_from(["tuple", "digits", "mixed"]))
    return m


def build(c):
    return {spell(k, h): w for k, h, w in zip(c["keys"], c["how"], c["w"])}


def spoil(d, c):
    bad, w = c["bad"], 0.5
    items = list(d.items())
    key, val = items[c["at"]]
    base = c["keys"][c["at"]]
    if bad == "negative weight":
        items[c["at"]] = (key, -0.25)
    elif bad == "nan":
        items[c["at"]] = (key, float("nan"))
    elif bad == "negative digit":
        items[c["at"]] = (tuple(base[:-1]) + (-1,), w)
    elif bad == "length":
        items.insert(c["at"], (tuple(base) + (0,), w))
    elif bad == "length text":
        items.insert(c["at"], ("1" * (len(base) + 1), w))
    elif bad == "lengths":
        items = []
        for i, size in enumerate(c["lengths"]):
            # the number of the key, in binary, makes every key different
            bits = [(i >> q) & 1 for q in range(3)][:size] + [1] * (size - 3)
            items.append((spell(bits, c["form"] if c["form"] != "mixed" else ("tuple", "digits")[i % 2]), w))
    elif bad == "float digit":
        items[c["at"]] = (tuple(base[:-1]) + (0.5,), w)
    elif bad == "float whole":
        # equal to an integer, but not one
        items[c["at"]] = (tuple(base[:-1]) + (float(base[-1]),), w)
        items.insert(0, ((base[-1],) * (len(base) - 1) + (base[-1] + 1,), w))
    elif bad == "text digit":
        items[c["at"]] = (tuple(base[:-1]) + ("1",), w)
    elif bad == "int key":
        items.insert(c["at"], (1, w))
    elif bad == "none key":
        items.insert(c["at"], (None, w))
    elif bad == "letters":
        items.insert(c["at"], ("a" * len(base), w))
    elif bad == "negative comma":
        items[c["at"]] = (",".join(map(str, base[:-1] + [-3])) if len(base) > 1 else "-3,1", w)
    else:
        return {}
    return dict(items)


def same(got, want, what, tol=1e-9):
    require(set(got) == set(want), f"{what}: outcomes differ", got, want)
    for k in want:
        require(abs(got[k] - want[k]) <= tol * max(1.0, abs(want[k])), f"{what}: probability of {k}", got[k], want[k])


@sub(
    requests(),
    quick=600,
    rule="an invalid mapping, or a valid one with two outcomes or more of which one weight is not zero",
    nt=lambda c: c["bad"] is not None or (len(c["keys"]) > 1 and any(c["w"])),
)
def construction(case):
    from zquantum.core.bitstring_distribution import BitstringDistribution
    from zquantum.core.distribution import MeasurementOutcomeDistribution, is_measurement_outcome_distribution, is_normalized

    d = build(case)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if case["bad"]:
            label("invalid: " + case["bad"])
            d = spoil(d, case)
            raises(Exception, lambda: MeasurementOutcomeDistribution(d, case["normalize"]), f"invalid mapping {d}")
            if all(isinstance(k, tuple) for k in d) and case["bad"] not in ("none key", "int key"):
                require(not is_measurement_outcome_distribution(d), "predicate accepts an invalid mapping", d)
            return
        total = sum(case["w"])
        model = {tuple(k): w for k, w in zip(case["keys"], case["w"])}
        require(is_measurement_outcome_distribution(model) is True, "predicate rejects a valid mapping", model)
        close = math.isclose(total, 1, rel_tol=1e-9)
        require(is_normalized(model) == close or abs(abs(total - 1) - 1e-9) < 1e-10, "is_normalized", total)
        if total == 0 and case["normalize"]:
            label("all weights zero")
            raises(Exception, lambda: MeasurementOutcomeDistribution(d), "weights that cannot be normalized")
            return
        given = dict(d)
        for cls in (MeasurementOutcomeDistribution, BitstringDistribution):
            caught.clear()
            dist = cls(d, normalize=case["normalize"]) if not case["normalize"] or len(d) % 2 else cls(d)
            require(d == given, "the given mapping was modified", d, given)
            require(all(isinstance(k, tuple) for k in dist.distribution_dict), "keys are not tuples")
            if case["normalize"]:
                require(abs(sum(dist.distribution_dict.values()) - 1) < 1e-8, "not normalized", dist)
                same(dist.distribution_dict, {k: w / total for k, w in model.items()}, "normalized distribution")
            else:
                require(dist.distribution_dict == model, "weights changed", dist, model)
                warned = any("not normalized" in str(w.message) for w in caught)
                require(warned == (not is_normalized(model)), "warning about a missing normalization", total, warned)
            require(dist.get_number_of_subsystems() == len(case["keys"][0]), "number of subsystems")
            if cls is BitstringDistribution:
                require(dist.get_qubits_number() == len(case["keys"][0]), "number of qubits")
            require(str(dist.distribution_dict) in repr(dist), "repr does not show the distribution")


@sub(
    st.lists(mappings(), min_size=1, max_size=4),
    quick=350,
    rule="an outcome of more than one digit or two mappings of different width",
    nt=lambda c: any(max(k) > 9 for m in c for k in m["keys"]) or len({len(m["keys"][0]) for m in c}) > 1,
)
def files(case):
    from zquantum.core.distribution import (
        MeasurementOutcomeDistribution,
        change_tuple_dict_keys_to_comma_separated_integers,
        load_measurement_outcome_distribution,
        load_measurement_outcome_distributions,
        preprocess_distibution_dict,
        save_measurement_outcome_distribution,
        save_measurement_outcome_distributions,
    )

    dists, models = [], []
    for m in case:
        model = {tuple(k): w for k, w in zip(m["keys"], m["w"])}
        total = sum(m["w"])
        if total == 0:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dist = MeasurementOutcomeDistribution(build(m), normalize=total < 1e20 and len(dists) % 2 == 0)
        dists.append(dist)
        models.append({k: w / total for k, w in model.items()})
        before = dict(dist.distribution_dict)
        texts = change_tuple_dict_keys_to_comma_separated_integers(dist.distribution_dict)
        require(all(isinstance(k, str) for k in texts) and len(texts) == len(model), "text form lost an outcome", texts)
        require(dist.distribution_dict == before, "text form changed the distribution")
        back = preprocess_distibution_dict(texts)
        require(back == {tuple(int(x) for x in k): v for k, v in before.items()}, "text form is read back differently", texts, back)
    if not dists:
        label("no usable distribution")
        return
    with scratch():
        for i, (dist, model) in enumerate(zip(dists, models)):
            before = dict(dist.distribution_dict)
            save_measurement_outcome_distribution(dist, "d.json")
            if i % 2:
                with open("d.json") as f:
                    got = load_measurement_outcome_distribution(f)
            else:
                got = load_measurement_outcome_distribution("d.json")
            require(type(got) is MeasurementOutcomeDistribution, "loaded object has another type")
            require(dist.distribution_dict == before, "saving changed the distribution")
            same(got.distribution_dict, model, "distribution read from a file")
        save_measurement_outcome_distributions(dists, "set.json")
        got = load_measurement_outcome_distributions("set.json")
        require(len(got) == len(dists), "number of distributions in the file", len(got), len(dists))
        for g, model in zip(got, models):
            same(g.distribution_dict, model, "distribution read from a set")
        with open("set.json") as f:
            require(len(load_measurement_outcome_distributions(f)) == len(dists), "set read from an open file")


@st.composite
def vectors(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "w": draw(weights(2**n)), "list": draw(st.booleans())}


@sub(vectors(), quick=200, rule="at least two different non-zero probabilities", nt=lambda c: len({w for w in c["w"] if w}) > 1)
def from_probabilities(case):
    from zquantum.core.distribution import MeasurementOutcomeDistribution, create_bitstring_distribution_from_probability_distribution

    n, w = case["n"], case["w"]
    total = sum(w)
    if not total:
        raises(Exception, lambda: create_bitstring_distribution_from_probability_distribution(np.array(w)), "no probability at all")
        return
    arg = list(w) if case["list"] else np.array(w, dtype=float)
    dist = create_bitstring_distribution_from_probability_distribution(arg)
    require(isinstance(dist, MeasurementOutcomeDistribution), "type")
    want = {tuple(int(b) for b in format(i, f"0{n}b")): w[i] / total for i in range(2**n)}
    same(dist.distribution_dict, want, "distribution from probabilities")
    require(list(arg) == list(w), "the probability vector was modified")
    require(dist.get_number_of_subsystems() == n, "number of subsystems")


@sub(
    lambda: st.fixed_dictionaries(
        {
            "d": st.sampled_from([30, 70, 150, 400]),
            "width": st.sampled_from([9, 12, 64]),
            "top": st.sampled_from([1, 4, 30]),
            "how": st.sampled_from(["tuple", "comma", "digits", "mixed"]),
            "bad": st.sampled_from([None, "negative weight", "negative digit", "length", "float digit", "float whole", "nan"]),
            "at": st.sampled_from([0.0, 0.5, 0.97, 1.0]),
            "sets": st.sampled_from([0, 5, 13, 40]),
            "seed": st.integers(0, 10**6),
        }
    ),
    quick=60,
    thorough=1000,
    shards=2,
    rule="every case: thirty outcomes or more",
)
def large_mappings(x):
    """Many outcomes, the invalid one early or late, and sets of many distributions."""
    import json

    from zquantum.core import distribution as D

    rs = np.random.RandomState(x["seed"])
    keys = list(dict.fromkeys(tuple(int(v) for v in row) for row in rs.randint(0, x["top"] + 1, size=(x["d"], x["width"]))))
    w = [float(v) for v in rs.randint(1, 1000, size=len(keys))]
    form = {"mixed": ["tuple", "comma", "digits"]}.get(x["how"], [x["how"]])
    spelled = [spell(k, form[i % len(form)] if max(k) <= 9 or form[i % len(form)] != "digits" else "comma") for i, k in enumerate(keys)]
    at = int(x["at"] * (len(keys) - 1))
    total = sum(w)
    model = {k: v / total for k, v in zip(keys, w)}
    if x["bad"]:
        if x["bad"] in ("negative weight", "nan"):
            w[at] = -0.5 if x["bad"] == "negative weight" else float("nan")
        else:
            base = keys[at]
            spelled[at] = base + (0,) if x["bad"] == "length" else base[:-1] + ((-1,) if x["bad"] == "negative digit" else (0.5,))
        label("invalid: " + x["bad"])
        for norm in (True, False):
            raises(Exception, lambda: D.MeasurementOutcomeDistribution(dict(zip(spelled, w)), norm), f"invalid mapping: {x['bad']} at {at} of {len(keys)}")
        return
    dist = D.MeasurementOutcomeDistribution(dict(zip(spelled, w)))
    same(dist.distribution_dict, model, "a large distribution")
    require(dist.get_number_of_subsystems() == x["width"], "number of subsystems")
    with scratch():
        D.save_measurement_outcome_distribution(dist, "d.json")
        same(D.load_measurement_outcome_distribution("d.json").distribution_dict, model, "a large distribution from a file")
        with open("d.json") as f:
            data = json.load(f)
        # files of the former format hold the distribution under another name
        old = {"bitstring_distribution": data["measurement_outcome_distribution"]}
        with open("old.json", "w") as f:
            json.dump(old, f)
        same(D.load_measurement_outcome_distribution("old.json").distribution_dict, model, "a distribution from a file of the former format")
        if x["sets"]:
            many, models = [], []
            for i in range(x["sets"]):
                part = rs.permutation(len(keys))[: 1 + rs.randint(5)]
                ws = [int(v) for v in rs.randint(1, 9, size=len(part))]
                many.append(D.MeasurementOutcomeDistribution({keys[j]: v for j, v in zip(part, ws)}))
                models.append({keys[j]: v / sum(ws) for j, v in zip(part, ws)})
            D.save_measurement_outcome_distributions(many, "s.json")
            back = D.load_measurement_outcome_distributions("s.json")
            require(len(back) == len(many), "number of distributions in a set", len(back), len(many))
            for i, (b, m) in enumerate(zip(back, models)):
                same(b.distribution_dict, m, f"distribution {i} of a set of {len(many)}")
