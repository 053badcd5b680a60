"""C08: samples and measurement records faithfully represent the distribution."""
import io
import math
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated states, distributions and record histories against list/Counter models, with Hoeffding bounds for frequencies"
ASSUMPTIONS = [
    "frequencies are compared with probabilities within a Hoeffding bound of failure probability 1e-12 per outcome",
    "outcomes of converted records are bits; distributions given to representing are normalized",
]


@st.composite
def weights(draw, d):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        w = [draw(st.integers(0, 9)) for _ in range(d)]
    elif kind == 1:
        w = [0] * d
        for _ in range(draw(st.integers(1, 3))):
            w[draw(st.integers(0, d - 1))] = draw(st.integers(1, 50))
    elif kind == 2:
        w = [draw(st.floats(0, 1)) for _ in range(d)]
    elif kind == 3:
        w = [1] * d
    else:
        w = [10.0 ** -draw(st.integers(0, 9)) for _ in range(d)]
    if sum(w) < 1e-6:
        w[draw(st.integers(0, d - 1))] = 1
    return w


@st.composite
def states(draw, max_n=4):
    n = draw(st.integers(1, max_n))
    d = 2**n
    w = draw(weights(d))
    ph = draw(st.lists(st.sampled_from([0, 1, 2, 3, 0.7, 2.1]), min_size=d, max_size=d))
    # relative error of the norm: amplitudes copied with few digits are still an accepted state
    off = draw(st.sampled_from([0.0, 0.0, 1e-12, 1e-7, -1e-6, 2e-6, -4e-6]))
    return {"n": n, "w": w, "ph": ph, "off": off, "seed": draw(st.integers(0, 2**31)), "k": draw(st.sampled_from([1, 2, 3, 17, 100, 1000]))}


def amplitudes(case):
    w = np.array(case["w"], dtype=float)
    p = w / w.sum()
    return np.sqrt(p) * np.exp(1j * np.array(case["ph"], dtype=float)) * (1 + case["off"])


@sub(
    states(6),
    quick=350,
    rule="at least two outcomes of non-zero and one of zero probability, or a norm that is off by rounding",
    nt=lambda c: (sum(1 for x in c["w"] if x) > 1 and 0 in c["w"]) or c["off"] != 0,
)
def state_samples(case):
    from zquantum.core.measurement import sample_from_wavefunction
    from zquantum.core.wavefunction import Wavefunction

    amps = amplitudes(case)
    n, k = case["n"], case["k"]
    wf = Wavefunction(amps.copy())
    got = sample_from_wavefunction(wf, k, case["seed"])
    require(isinstance(got, list) and len(got) == k, "wrong number of samples", len(got), k)
    ok = {ref.bits(i, n) for i in range(2**n) if abs(amps[i]) > 0}
    for s in got:
        require(isinstance(s, tuple) and len(s) == n, "sample has the wrong length", s)
        require(all(type(b) is int for b in s), "sample is not made of ints", s)
        require(s in ok, "sampled an outcome of probability zero", s, sorted(ok))
    np.random.seed(1)
    again = sample_from_wavefunction(wf, k, case["seed"])
    require(again == got, "same seed gave different samples")
    require(np.array_equal(wf.amplitudes, amps), "sampling changed the state")
    raises(ValueError, lambda: sample_from_wavefunction(wf, 0, case["seed"]), "sampling zero times")
    unseeded = sample_from_wavefunction(wf, k)
    require(len(unseeded) == k and set(unseeded) <= ok, "unseeded sampling")
    if len(ok) >= 4 and k == 1000 and max(case["w"]) <= 0.5 * sum(case["w"]):
        label("seed matters")
        other = sample_from_wavefunction(wf, k, case["seed"] + 1)
        require(other != got, "the seed has no effect")


def near(count, n, p, what):
    eps = math.sqrt(math.log(2e12) / (2 * n))
    require(abs(count / n - p) <= eps, f"frequency of {what} is {count / n}, probability {p}, bound {eps}")


@sub(
    states(5),
    quick=90,
    rule="at least three outcomes of different probability",
    nt=lambda c: len(set(c["w"])) > 2,
)
def state_frequencies(case):
    from zquantum.core.measurement import sample_from_wavefunction
    from zquantum.core.wavefunction import Wavefunction

    amps = amplitudes(case)
    n, N = case["n"], (20000, 12347, 16001, 40009)[case["seed"] % 4]
    got = Counter(sample_from_wavefunction(Wavefunction(amps), N, case["seed"]))
    p = np.abs(amps) ** 2
    for i in range(2**n):
        near(got.get(ref.bits(i, n), 0), N, p[i], ref.bits(i, n))
    for q in range(n):
        for r in range(q + 1):
            near(sum(v for k, v in got.items() if k[q] == 1 and k[r] == 1), N, sum(p[i] for i in range(2**n) if ref.bits(i, n)[q] == 1 and ref.bits(i, n)[r] == 1), f"ones on qubits {q},{r}")


KEYS = st.one_of(
    st.sampled_from(["tuple", "text", "int", "mixed", "bits"]),
)


@st.composite
def distributions(draw):
    d = draw(st.integers(1, 8))
    w = draw(weights(d))
    return {"w": w, "keys": draw(KEYS), "n": draw(st.sampled_from([0, 1, 2, 5, 50, 3000, 20000])), "seed": draw(st.integers(0, 2**31))}


def make_keys(kind, d):
    if kind == "tuple":
        return [(i, d - i) for i in range(d)]
    if kind == "text":
        return [f"k{i}" for i in range(d)]
    if kind == "int":
        return [3 * i for i in range(d)]
    if kind == "bits":
        return [ref.bits(i, 3) for i in range(d)]
    return [(i,) if i % 2 else f"{i}" for i in range(d)]


@sub(
    distributions(),
    quick=300,
    rule="at least two outcomes of non-zero probability and two samples",
    nt=lambda c: sum(1 for x in c["w"] if x) > 1 and c["n"] > 1,
)
def dictionary_samples(case):
    from zquantum.core.utils import sample_from_probability_distribution

    d = len(case["w"])
    keys = make_keys(case["keys"], d)
    p = [x / sum(case["w"]) for x in case["w"]]
    dist = dict(zip(keys, p))
    before = dict(dist)
    np.random.seed(case["seed"])
    got = sample_from_probability_distribution(dist, case["n"])
    require(isinstance(got, Counter), "not a Counter", got)
    require(sum(got.values()) == case["n"], "wrong number of samples", got)
    for k, v in got.items():
        require(k in dist and dist[k] > 0 and v > 0, "sampled an impossible outcome", k)
        require(type(k) is type(keys[keys.index(k)]), "outcome changed its type", k)
    require(dist == before, "the distribution was modified")
    np.random.seed(case["seed"])
    require(sample_from_probability_distribution(dist, case["n"]) == got, "same seed, different samples")
    if case["n"] >= 3000:
        label("frequencies compared")
        for k in keys:
            near(got.get(k, 0), case["n"], dist[k], k)
    raises(Exception, lambda: sample_from_probability_distribution(p, 3), "a list as distribution")


# ---- records -------------------------------------------------------------------------------------
@st.composite
def histories(draw):
    n = draw(st.integers(1, 4)) if draw(st.integers(0, 7)) else draw(st.integers(30, 70))
    outcome = st.lists(st.integers(0, 1), min_size=n, max_size=n) if n < 6 else st.integers(0, 2**n - 1).map(lambda i: list(ref.bits(i, n)))
    pool = draw(st.lists(outcome, min_size=1, max_size=5))
    pick = st.sampled_from(pool)
    start = draw(st.sampled_from(["empty", "none", "list", "counts"]))
    init = [draw(pick) for _ in range(draw(st.integers(1, 5)))] if start in ("list", "counts") else []
    steps = []
    for _ in range(draw(st.integers(4, 9))):
        k = draw(st.sampled_from(["add_counts", "add_counts", "extend", "append", "roundtrip", "fromcounts", "counts", "dist", "tuples"]))
        if k == "add_counts":
            items = draw(st.lists(st.tuples(pick, st.integers(0, 5)), max_size=4))
            steps.append([k, [[o, c] for o, c in items]])
        elif k == "extend":
            steps.append([k, [draw(pick) for _ in range(draw(st.integers(1, 4)))]])
        elif k == "append":
            steps.append([k, draw(pick)])
        elif k == "roundtrip":
            steps.append([k, draw(st.booleans()), draw(st.booleans())])
        else:
            steps.append([k])
    return {"n": n, "start": start, "init": init, "steps": steps}


def text(o):
    return "".join(map(str, o))


def check_record(m, model):
    require([tuple(b) for b in m.bitstrings] == model, "record differs from what was added", m.bitstrings, model)
    counts = m.get_counts()
    require(counts == dict(Counter(text(o) for o in model)), "counts are wrong", counts, model)
    require(all(isinstance(c, int) for c in counts.values()), "counts are not ints")


@sub(
    histories(),
    quick=450,
    rule="at least two additions and a conversion",
    nt=lambda c: len([s for s in c["steps"] if s[0] in ("add_counts", "extend", "append")]) >= 2 and any(s[0] not in ("add_counts", "extend", "append") for s in c["steps"]),
)
def record_history(case):
    import json

    from zquantum.core.measurement import Measurements
    from zquantum.core.utils import convert_bitstrings_to_tuples, convert_tuples_to_bitstrings

    init = [tuple(o) for o in case["init"]]
    if case["start"] == "none":
        m, model = Measurements(), []
    elif case["start"] == "empty":
        m, model = Measurements([]), []
    elif case["start"] == "list":
        m, model = Measurements(list(init)), list(init)
    else:
        c = Counter(init)
        m = Measurements.from_counts({text(o): v for o, v in c.items()})
        model = [o for o, v in c.items() for _ in range(v)]
    check_record(m, model)
    other = Measurements()
    for s in case["steps"]:
        if s[0] == "add_counts":
            counts = {}
            for o, c in s[1]:
                counts[text(o)] = c
            given = dict(counts)
            m.add_counts(counts)
            require(counts == given, "add_counts changed its argument")
            model = model + [tuple(int(x) for x in o) for o, c in counts.items() for _ in range(c)]
        elif s[0] == "extend":
            m.bitstrings += [tuple(o) for o in s[1]]
            model = model + [tuple(o) for o in s[1]]
        elif s[0] == "append":
            m.bitstrings.append(tuple(np.int8(x) for x in s[1]))
            model = model + [tuple(s[1])]
        elif s[0] == "roundtrip":
            with scratch():
                m.save("m.json")
                if s[1]:
                    loaded = Measurements.load_from_file("m.json")
                else:
                    with open("m.json") as f:
                        loaded = Measurements.load_from_file(f)
                with open("m.json") as f:
                    data = json.load(f)
            require(data["counts"] == dict(Counter(text(o) for o in model)), "counts in the file", data["counts"])
            require(data["bitstrings"] == [list(o) for o in model], "bitstrings in the file")
            check_record(loaded, model)
            require(all(isinstance(b, tuple) for b in loaded.bitstrings), "loaded outcomes are not tuples")
            if s[2]:
                m = loaded
        elif s[0] == "fromcounts":
            m2 = Measurements.from_counts(m.get_counts())
            require(Counter(m2.bitstrings) == Counter(model), "counts round trip changed the outcomes")
        elif s[0] == "dist" and model:
            dist = m.get_distribution().distribution_dict
            want = {o: c / len(model) for o, c in Counter(model).items()}
            require(set(dist) == set(want) and all(abs(dist[o] - want[o]) < 1e-9 for o in want), "distribution of the record", dist, want)
        elif s[0] == "tuples":
            texts = convert_tuples_to_bitstrings(m.bitstrings)
            require(texts == [text(o) for o in model], "tuples to bitstrings", texts)
            require(convert_bitstrings_to_tuples(texts) == model, "bitstrings to tuples")
        check_record(m, model)
    if model:
        # as many outcomes, but others
        flip = lambda o: tuple(1 - x for x in o)
        m.bitstrings[-1] = flip(model[-1])
        model = model[:-1] + [flip(model[-1])]
        check_record(m, model)
        m.bitstrings = [flip(o) for o in model]
        check_record(m, [flip(o) for o in model])
    require(other.bitstrings == [] and Measurements().bitstrings == [], "records share their outcomes")


@st.composite
def representing(draw):
    d = draw(st.integers(1, 12))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 10, 33, 100, 1000, 4096]))
    kind = draw(st.integers(0, 4))
    if kind == 0:
        w = draw(weights(d))
    elif kind == 4:  # many more samples by rounding than requested, so that many have to be removed
        up = draw(st.integers(8, 40))
        w = [draw(st.sampled_from([11, 12, 12, 13])) for _ in range(up)] + [draw(st.sampled_from([1, 2, 4, 6])) for _ in range(draw(st.integers(0, up)))]
        n = max(1, int(sum(w) / 20))
        d = len(w)
    elif kind == 1:  # exact shares
        w = [0] * d
        for _ in range(n if n < 40 else 40):
            w[draw(st.integers(0, d - 1))] += 1
        if n >= 40:
            n = 40
    elif kind == 2:  # many shares rounded up
        w = [2 * draw(st.integers(0, 3)) + 1 for _ in range(d)]
        n = max(1, sum(w) // 2)
    else:
        w = [1] * d
        n = draw(st.integers(1, 3 * d))
    base = draw(st.sampled_from([2, 2, 3]))
    return {"w": w, "n": n, "base": base, "rev": draw(st.booleans()), "seed": draw(st.integers(0, 2**31))}


def shares(c):
    return [x / sum(c["w"]) * c["n"] for x in c["w"]]


@sub(
    representing(),
    quick=600,
    rule="some outcome's exact share is not a whole number",
    nt=lambda c: any(abs(x - round(x)) > 1e-6 for x in shares(c)),
)
def representing_record(case):
    n, d = case["n"], len(case["w"])
    keys = []
    for i in range(d):
        digits = []
        for _ in range(7):
            digits.append(i % case["base"])
            i //= case["base"]
        keys.append(tuple(digits))
    represent(case["w"], n, keys, case["rev"], case["seed"])


def represent(w, n, keys, rev, seed):
    from zquantum.core.distribution import MeasurementOutcomeDistribution
    from zquantum.core.measurement import Measurements

    d = len(w)
    pairs = list(zip(keys, [x / sum(w) for x in w]))
    if rev:
        pairs.reverse()
    dist = MeasurementOutcomeDistribution(dict(pairs))
    before = dict(dist.distribution_dict)
    np.random.seed(seed)
    m = Measurements.get_measurements_representing_distribution(dist, n)
    require(dist.distribution_dict == before, "the distribution was modified")
    require(len(m.bitstrings) == n, "wrong number of samples", len(m.bitstrings), n)
    got = Counter(m.bitstrings)
    require(all(before.get(o, 0) > 0 for o in got), "holds an impossible outcome", got)
    lo, hi = {}, {}
    for o, p in before.items():
        lo[o] = math.floor(p * n + 0.5 - 1e-7)
        hi[o] = math.floor(p * n + 0.5 + 1e-7)
        if abs(p * n - round(p * n)) < 1e-11:
            require(got.get(o, 0) == round(p * n), "a whole share is not met exactly", o, p * n, got)
    if n >= sum(hi.values()):
        label("samples added")
        for o in before:
            require(got.get(o, 0) >= lo[o], "an outcome lost samples although samples had to be added", o, before[o] * n, got)
    elif n <= sum(lo.values()):
        label("samples removed")
        for o in before:
            require(got.get(o, 0) <= hi[o], "an outcome won samples although samples had to be removed", o, before[o] * n, got)
    total = sum(abs(got.get(o, 0) - p * n) for o, p in before.items())
    # rounding moves each share by at most 1/2, the corrections add at most that much once more
    require(total <= d + 1e-6, "the record is further from the distribution than rounding explains", total, got, before)


@sub(
    lambda: st.fixed_dictionaries(
        {
            "width": st.sampled_from([1, 3, 9, 20, 64, 70]),
            "outcomes": st.sampled_from([1, 2, 7, 40, 300, 1500]),
            "top": st.sampled_from([1, 9, 300, 3000, 12000]),
            "parts": st.integers(1, 3),
            "seed": st.integers(0, 10**6),
        }
    ),
    quick=50,
    thorough=800,
    shards=3,
    rule="an outcome occurs three hundred times or more, or there are forty outcomes or more",
    nt=lambda x: x["top"] >= 300 or (x["outcomes"] >= 40 and x["width"] >= 9),
)
def large_records(x):
    """Records of many outcomes and of outcomes that occur often, added in parts, and through files."""
    import json

    from zquantum.core.measurement import Measurements

    rs = np.random.RandomState(x["seed"])
    w = x["width"]
    pool = list(dict.fromkeys(tuple(int(b) for b in row) for row in rs.randint(0, 2, size=(x["outcomes"], w))))
    m, total = Measurements(), Counter()
    for _ in range(x["parts"]):
        top = max(1, min(x["top"], 60000 // len(pool)))
        part = {o: int(c) for o, c in zip(pool, rs.randint(0, top + 1, size=len(pool))) if rs.randint(5)}
        if part:
            part[next(iter(part))] = top
        m.add_counts({text(o): c for o, c in part.items()})
        total.update(part)
        require(len(m.bitstrings) == sum(total.values()), "number of samples after add_counts", len(m.bitstrings), sum(total.values()))
        require(Counter(m.bitstrings) == +total, "samples after add_counts")
    counts = {text(o): c for o, c in total.items() if c}
    require(m.get_counts() == counts, "counts of a large record")
    back = Measurements.from_counts(counts)
    require(Counter(back.bitstrings) == +total and len(back.bitstrings) == sum(total.values()), "record from counts")
    n = sum(total.values())
    if not n:
        return
    dist = m.get_distribution().distribution_dict
    require(set(dist) == set(+total) and all(abs(dist[o] - c / n) < 1e-9 for o, c in (+total).items()), "distribution of a large record")
    if n * w < 400000:
        with scratch():
            m.save("m.json")
            loaded = Measurements.load_from_file("m.json")
            with open("m.json") as f:
                data = json.load(f)
        require(data["counts"] == counts, "counts in the file")
        require(loaded.bitstrings == m.bitstrings and all(type(o) is tuple for o in loaded.bitstrings), "a large record read from a file")


@sub(
    lambda: st.fixed_dictionaries({"d": st.sampled_from([17, 40, 200, 700]), "n": st.sampled_from([1, 13, 100, 1000, 5000, 20000]), "kind": st.sampled_from(["random", "equal", "few", "skewed"]), "seed": st.integers(0, 10**6)}),
    quick=40,
    thorough=600,
    shards=2,
    rule="every case: seventeen outcomes or more",
)
def large_representing(x):
    """Distributions over many outcomes, represented by few or many samples."""
    rs = np.random.RandomState(x["seed"])
    d = x["d"]
    w = {"random": rs.uniform(0.1, 1, size=d), "equal": np.ones(d), "few": (rs.uniform(size=d) < 0.2) * rs.randint(1, 5, size=d), "skewed": 2.0 ** -rs.randint(0, 20, size=d)}[x["kind"]]
    if not w.sum():
        w[0] = 1
    represent([float(v) for v in w], x["n"], [tuple(int(b) for b in format(i, "010b")) for i in range(d)], False, x["seed"])


@sub(
    lambda: st.fixed_dictionaries({"n": st.sampled_from([8, 10, 12]), "support": st.sampled_from([1, 5, 60, 10**6]), "seed": st.integers(0, 10**6)}),
    quick=12,
    thorough=120,
    shards=2,
    rule="every case: eight qubits or more",
)
def many_qubits(x):
    """Samples of states of many qubits."""
    from zquantum.core.measurement import sample_from_wavefunction
    from zquantum.core.wavefunction import Wavefunction

    rs = np.random.RandomState(x["seed"])
    n, N = x["n"], (3000, 3000, 17001)[x["seed"] % 3]
    amps = rs.normal(size=2**n) + 1j * rs.normal(size=2**n)
    if x["support"] < 2**n:
        keep = rs.permutation(2**n)[: x["support"]]
        mask = np.zeros(2**n)
        mask[keep] = 1
        amps = amps * mask
    amps /= np.linalg.norm(amps)
    got = sample_from_wavefunction(Wavefunction(amps), N, x["seed"])
    require(len(got) == N and all(len(s) == n for s in got), "number or length of samples")
    p = np.abs(amps) ** 2
    for s in set(got):
        require(p[int("".join(map(str, s)), 2)] > 0, "sampled an outcome of probability zero", s)
    for q in range(n):
        near(sum(s[q] for s in got), N, sum(p[i] for i in range(2**n) if ref.bits(i, n)[q]), f"a one on qubit {q}")
    for i in np.argsort(p)[-4:]:
        near(got.count(ref.bits(int(i), n)), N, p[i], ref.bits(int(i), n))
