"""C09: expectation values from samples equal direct averages over the samples."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated diagonal operators and sample multisets against direct averages in plain Python"
ASSUMPTIONS = ["samples are bit tuples of one length; coefficients are real, in a quarter of the cases stored as complex numbers with zero imaginary part, and in some cases complex"]


@st.composite
def cases(draw, max_samples=40):
    n = draw(st.integers(1, 6)) if draw(st.integers(0, 9)) else draw(st.integers(33, 70))
    pool = draw(st.lists(st.integers(0, 2**n - 1), min_size=draw(st.sampled_from([1, 2, 3, 4])), max_size=6, unique=n > 2))
    samples = [draw(st.sampled_from(pool)) for _ in range(draw(st.integers(5, max_samples)) if draw(st.integers(0, 4)) else draw(st.integers(1, 4)))]
    if draw(st.integers(0, 4)) == 0:
        samples = samples * draw(st.sampled_from([3, 10, 40]))
    if draw(st.integers(0, 5)) == 0 and n <= 6:
        samples = samples + list(range(2**n))
    terms = []
    seen = set()
    for _ in range(draw(st.integers(2, 7)) if draw(st.integers(0, 8)) else draw(st.integers(0, 1))):
        if n <= 6:
            q = draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n, min_size=draw(st.integers(0, 1))))
        else:
            q = draw(st.lists(st.sampled_from([0, 1, n - 2, n - 1, 31, 32]), unique=True, max_size=3))
        if tuple(sorted(q)) in seen:
            continue
        seen.add(tuple(sorted(q)))
        terms.append([q, draw(st.one_of(st.floats(0.01, 5), st.floats(-5, -0.01), st.sampled_from([1, 2, -1, -3])))])
    return {"n": n, "samples": samples, "terms": terms, "cplx": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 99)), "int8": draw(st.booleans())}


def tuples(case):
    n = case["n"]
    conv = np.int8 if case["int8"] else int
    return [tuple(conv((s >> k) & 1) for k in range(n)) for s in case["samples"]]


def operator(case):
    """The operator and its terms in the order in which the operator lists them."""
    from zquantum.core.openfermion.ops import IsingOperator

    op = IsingOperator()
    for q, c in case["terms"]:
        op += IsingOperator([(i, "Z") for i in q], complex(c) if case["cplx"] else c)
    table = {tuple(sorted(q)): c for q, c in case["terms"]}
    listed = [tuple(i for i, _ in t) for t in op.terms]
    require(sorted(listed) == sorted(table), "operator lost a term", listed, table)
    return op, [(q, table[q]) for q in listed]


def parity(bits, q):
    return -1 if sum(int(bits[i]) for i in q) % 2 else 1


def nontrivial(c):
    return len(c["terms"]) > 1 and len(set(c["samples"])) > 1 and any(q for q, _ in c["terms"])


RULE = "two terms or more, one of them not constant, and two different outcomes or more"


def agree(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shape", a.shape, b.shape)
    require(np.allclose(a, b, rtol=tol, atol=tol), f"{what} differ from the direct average", a, b)


@sub(cases(), quick=500, rule=RULE, nt=nontrivial)
def values(case):
    from zquantum.core.measurement import Measurements, expectation_values_to_real
    from zquantum.core.openfermion.ops import IsingOperator, QubitOperator

    bits = tuples(case)
    op, terms = operator(case)
    N = len(bits)
    want = [c * sum(parity(b, q) for b in bits) / N for q, c in terms]
    corr = [[ci * cj * sum(parity(b, qi) * parity(b, qj) for b in bits) / N for qj, cj in terms] for qi, ci in terms]
    cov = np.array(corr).reshape(len(terms), len(terms)) - np.outer(want, want)
    before = dict(op.terms)
    m = Measurements(list(bits))
    for bessel in (False, True) if N > 1 else (False,):
        ev = m.get_expectation_values(op, use_bessel_correction=bessel)
        agree(ev.values, want, "values")
        require(len(ev.correlations) == 1 and len(ev.estimator_covariances) == 1, "one frame expected")
        agree(ev.correlations[0], np.array(corr).reshape(len(terms), len(terms)), "correlations")
        agree(ev.estimator_covariances[0], cov / (N - 1 if bessel else N), "covariances")
        real = expectation_values_to_real(ev)
        agree(real.values, want, "values made real")
        agree(real.correlations[0], np.array(corr).reshape(len(terms), len(terms)), "correlations made real")
        for arr in [real.values] + list(real.correlations) + list(real.estimator_covariances):
            require(not np.iscomplexobj(arr), "still complex after expectation_values_to_real", arr)
    require(m.bitstrings == bits and op.terms == before, "record or operator was modified")
    shuffled = list(bits)
    random.Random(case["seed"]).shuffle(shuffled)
    ev = Measurements(shuffled).get_expectation_values(op)
    agree(ev.values, want, "values of the reordered samples")
    agree(ev.estimator_covariances[0], cov / N, "covariances of the reordered samples")
    raises(TypeError, lambda: m.get_expectation_values(QubitOperator("Z0")), "an operator that is not diagonal")
    if case["cplx"]:
        label("complex-typed coefficients")
    if case["seed"] % 3 == 0:
        label("complex coefficients")
        turned, scale = IsingOperator(), []
        for i, (q, c) in enumerate(terms):
            scale.append(np.exp(1j * (0.7 * i + case["seed"])))
            turned += IsingOperator([(j, "Z") for j in q], c * scale[-1])
        require([tuple(j for j, _ in t) for t in turned.terms] == [tuple(q) for q, _ in terms], "operator lost a term")
        ev = m.get_expectation_values(turned)
        agree(ev.values, np.array(want) * scale, "values for complex coefficients")
        agree(ev.correlations[0], np.array(corr).reshape(len(terms), len(terms)) * np.outer(scale, scale), "correlations for complex coefficients")
        agree(ev.estimator_covariances[0], cov * np.outer(scale, scale) / N, "covariances for complex coefficients")


@st.composite
def many(draw):
    n = draw(st.integers(1, 5))
    outcomes = draw(st.lists(st.integers(0, 2**n - 1), min_size=1, max_size=6, unique=True))
    big = st.one_of(st.integers(1, 40), st.integers(120, 300), st.integers(32000, 70000), st.integers(10**6, 10**7), st.integers(2**31 - 3, 2**33), st.integers(10**11, 10**13))
    counts = [draw(big) for _ in outcomes]
    terms = draw(st.lists(st.lists(st.integers(0, n - 1), unique=True, max_size=n).map(sorted), min_size=1, max_size=4))
    return {"n": n, "counts": {format(o, f"0{n}b"): c for o, c in zip(outcomes, counts)}, "terms": terms}


@sub(many, quick=300, thorough=8000, rule="an outcome occurs 128 times or more", nt=lambda c: max(c["counts"].values()) > 127)
def many_samples(case):
    """Outcomes which occur very often: no count is too large."""
    from zquantum.core.measurement import Measurements, get_expectation_value_from_frequencies
    from zquantum.core.openfermion.ops import IsingOperator

    counts, total = case["counts"], sum(case["counts"].values())
    exact = lambda q: sum(parity(o, q) * c for o, c in counts.items()) / total
    for q in case["terms"]:
        got = get_expectation_value_from_frequencies(list(q), dict(counts))
        require(abs(got - exact(q)) < 1e-9, "value from large frequencies", q, got, exact(q))
    if total < 80000:
        label("as a record")
        m = Measurements.from_counts(dict(counts))
        require(m.get_counts() == counts, "counts of the record")
        op = IsingOperator()
        for q in case["terms"]:
            op += IsingOperator([(i, "Z") for i in q], 1.5)
        ev = m.get_expectation_values(op)
        agree(ev.values, [c * exact([i for i, _ in t]) for t, c in op.terms.items()], "values of many samples")


@sub(cases(), quick=400, rule=RULE, nt=nontrivial)
def parities(case):
    from zquantum.core.measurement import (
        Parities,
        check_parity,
        check_parity_of_vector,
        convert_bitstring_to_int,
        get_expectation_value_from_frequencies,
        get_expectation_values_from_parities,
        get_parities_from_measurements,
    )
    from zquantum.core.openfermion.ops import QubitOperator

    bits = tuples(case)
    op, terms = operator(case)
    N = len(bits)
    given = list(bits)
    p = get_parities_from_measurements(given, op)
    require(given == bits, "samples were modified")
    even = [sum(1 for b in bits if parity(b, q) == 1) for q, _ in terms]
    if terms:
        require(np.array_equal(np.array(p.values), [[e, N - e] for e in even]), "tallies are wrong", p.values, even, N)
        require(len(p.correlations) == 1 and p.correlations[0].shape == (len(terms), len(terms), 2), "correlation shape")
    for i, (qi, _) in enumerate(terms):
        for j, (qj, _) in enumerate(terms):
            same = sum(1 for b in bits if parity(b, qi) == parity(b, qj))
            require(list(p.correlations[0][i, j]) == [same, N - same], "pair tally is wrong", i, j, p.correlations[0][i, j], same)
    if terms:
        ev = get_expectation_values_from_parities(p)
        agree(ev.values, [2 * e / N - 1 for e in even], "values from parities")
        prec = []
        for e in even:
            f = e / N
            prec.append([[4 * f * (1 - f) / N]] if N >= 100 and 0.1 <= f <= 0.9 else [[1.0 / N]])
        require(len(ev.estimator_covariances) == len(terms), "one covariance per term")
        for a, b in zip(ev.estimator_covariances, prec):
            agree(a, b, "covariances from parities")
        if N >= 100:
            label("sample variance used")
    raises(ValueError, lambda: get_expectation_values_from_parities(Parities(np.array([[1, 2], [0, 0]]))), "a term without samples")
    raises(TypeError, lambda: get_parities_from_measurements(given, QubitOperator("Z0")), "an operator that is not diagonal")
    freq = {}
    for b in bits:
        t = "".join(str(int(x)) for x in b)
        freq[t] = freq.get(t, 0) + 1
    for q, _ in terms:
        vec = check_parity_of_vector(np.array(bits), list(q))
        require([int(v) for v in vec] == [1 if parity(b, q) == 1 else 0 for b in bits], "vector parities", vec)
        got = get_expectation_value_from_frequencies(set(q), freq)
        require(isinstance(got, float) and abs(got - sum(parity(b, q) for b in bits) / N) < 1e-9, "value from frequencies", got)
        for b in bits[:3]:
            require(bool(check_parity(b, q)) == (parity(b, q) == 1), "check_parity of a tuple", b, q)
            require(bool(check_parity("".join(str(int(x)) for x in b), q)) == (parity(b, q) == 1), "check_parity of a text", b, q)
    for b, s in list(zip(bits, case["samples"]))[:4]:
        require(convert_bitstring_to_int(b) == s, "convert_bitstring_to_int", b, s)


frames = st.lists(
    st.fixed_dictionaries(
        {
            "values": st.lists(st.floats(-5, 5), max_size=4),
            "corr": st.integers(0, 3),
            "cov": st.integers(0, 3),
            "imag": st.booleans(),
            "seed": st.integers(0, 10**6),
        }
    ),
    max_size=5,
)


@sub(frames, quick=250, rule="two sets of expectation values or more, with covariances", nt=lambda c: len(c) > 1 and any(f["cov"] for f in c))
def combining(case):
    from zquantum.core.cost_function import sum_expectation_values
    from zquantum.core.measurement import ExpectationValues, concatenate_expectation_values, expectation_values_to_real
    from zquantum.core.utils import ValueEstimate

    def mats(k, m, rng):
        out = []
        for _ in range(k):
            a = rng.normal(size=(m, m))
            out.append(a @ a.T)
        return out or None

    objs, values, corr, cov = [], [], [], []
    for f in case:
        rng = np.random.RandomState(f["seed"])
        m = len(f["values"])
        e = ExpectationValues(
            np.array(f["values"], dtype=complex if f["imag"] else float),
            mats(f["corr"] and 1, m, rng),
            mats(f["cov"] and f["cov"] - 1, m, rng),
        )
        objs.append(e)
        values += f["values"]
        corr += e.correlations or []
        cov += e.estimator_covariances or []
    snap = [(e.values.copy(), None if e.correlations is None else len(e.correlations), None if e.estimator_covariances is None else len(e.estimator_covariances)) for e in objs]
    out = concatenate_expectation_values(iter(objs))
    agree(out.values, np.array(values), "concatenated values", 1e-12)
    for got, want, what in ((out.correlations, corr, "correlations"), (out.estimator_covariances, cov, "covariances")):
        if not want:
            require(not got, f"concatenated {what} appeared from nowhere", got)
        else:
            require(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)), f"concatenated {what}", got, want)
    for e, (v, a, b) in zip(objs, snap):
        require(np.array_equal(e.values, v) and a == (None if e.correlations is None else len(e.correlations)) and b == (None if e.estimator_covariances is None else len(e.estimator_covariances)), "concatenation changed its inputs")
    real = expectation_values_to_real(out)
    agree(real.values, np.array(values, dtype=float), "values made real", 1e-12)
    total = sum_expectation_values(real)
    require(isinstance(total, ValueEstimate) and abs(total - sum(values)) < 1e-9, "sum of expectation values", total, values)
    if cov:
        var = sum(float(np.sum(c)) for c in cov)
        require(abs(total.precision - math.sqrt(var)) < 1e-9 * (1 + var), "precision of the sum", total.precision, var)
    else:
        require(total.precision is None, "precision without covariances", total.precision)


@sub(
    lambda: st.fixed_dictionaries(
        {
            "width": st.sampled_from([4, 9, 16, 40, 70, 140]),
            "cplx": st.sampled_from([0, 0, 1]),
            "outcomes": st.sampled_from([3, 40, 300, 700]),
            "top": st.sampled_from([1, 5, 300]),
            "terms": st.sampled_from([2, 6, 15]),
            "seed": st.integers(0, 10**6),
        }
    ),
    quick=60,
    thorough=1000,
    shards=3,
    rule="forty outcomes or more, or six terms or more",
    nt=lambda x: (x["outcomes"] >= 40 and x["width"] >= 9) or x["terms"] >= 6,
)
def large_records(x):
    """Many outcomes, many terms, and terms of many factors that overlap."""
    from zquantum.core.measurement import Measurements, get_expectation_values_from_parities, get_parities_from_measurements
    from zquantum.core.openfermion.ops import IsingOperator

    rs = np.random.RandomState(x["seed"])
    w = x["width"]
    pool = list(dict.fromkeys(tuple(int(b) for b in row) for row in rs.randint(0, 2, size=(x["outcomes"], w))))
    freq = {}
    for o in pool:
        freq[o] = int(rs.randint(1, x["top"] + 1)) if rs.randint(8) else 1
    freq[pool[rs.randint(len(pool))]] += x["top"]
    bits = [o for o, c in freq.items() for _ in range(c)]
    rs.shuffle(bits)
    bits = [tuple(int(b) for b in o) for o in bits]
    table = {}
    while len(table) < min(x["terms"], 2**w - 2):
        k = rs.randint(0, w + 1) if rs.randint(3) else rs.randint(0, 4)
        if w > 65 and rs.randint(3) == 0:
            i = int(rs.randint(w - 64))
            table.setdefault((i, i + int(rs.choice([32, 63, 64]))), 1.25)
        table.setdefault(tuple(sorted(int(q) for q in rs.permutation(w)[:k])), round(float(rs.uniform(0.1, 3)) * (-1) ** int(rs.randint(2)), 3))
    op = IsingOperator()
    for q, c in table.items():
        op += IsingOperator([(i, "Z") for i in q], c)
    terms = [(tuple(i for i, _ in t), c) for t, c in op.terms.items()]
    require(len(terms) == len(table), "operator lost a term")
    if x["cplx"]:
        op = IsingOperator()
        for q, c in terms:
            op += IsingOperator([(i, "Z") for i in q], c * complex(rs.normal(), rs.normal()))
        terms = [(tuple(i for i, _ in t), c) for t, c in op.terms.items()]
        label("complex coefficients")
    N, k = len(bits), len(terms)
    signs = np.array([[parity(o, q) for q, _ in terms] for o in freq], dtype=float)
    weight = np.array([float(c) for c in freq.values()])
    cs = np.array([c for _, c in terms])
    mean = weight @ signs / N
    pair = (signs * weight[:, None]).T @ signs / N
    ev = Measurements(bits).get_expectation_values(op)
    agree(ev.values, cs * mean, "values")
    agree(ev.correlations[0], np.outer(cs, cs) * pair, "correlations")
    agree(ev.estimator_covariances[0], np.outer(cs, cs) * (pair - np.outer(mean, mean)) / N, "covariances")
    p = get_parities_from_measurements(bits, op)
    even = np.array([round(N * (1 + m) / 2) for m in mean])
    require(np.array_equal(np.array(p.values), np.stack([even, N - even], axis=1)), "tallies", p.values, even)
    same = np.round(N * (1 + pair) / 2)
    require(np.array_equal(p.correlations[0], np.stack([same, N - same], axis=2)), "pair tallies")
    agree(get_expectation_values_from_parities(p).values, mean, "values from parities")
