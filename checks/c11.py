"""C11: distribution distances equal their definitions and behave like distances."""
import math
import warnings
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated pairs of distributions against the textbook sums in exact integer / plain float arithmetic, and metamorphic relations (symmetry, listing order)"
ASSUMPTIONS = ["the maximum mean discrepancy is compared for bit outcomes (its kernel is defined on the integers the bits spell)"]


@st.composite
def pairs(draw, binary=False):
    width = draw(st.integers(1, 5)) if draw(st.integers(0, 3)) else draw(st.sampled_from([31, 32, 33, 52, 63, 64, 65, 90]))
    top = 1 if binary or draw(st.booleans()) else 11
    outcome = st.lists(st.integers(0, top), min_size=width, max_size=width)
    pool = draw(st.lists(outcome, min_size=draw(st.sampled_from([2, 4])), max_size=7, unique_by=tuple)) if width > 2 or top > 1 else [[int(b) for b in format(i, f"0{width}b")] for i in range(2**width)]
    if width == 2 and top > 1:
        pool = pool + [p for p in ([0, 0], [1, 1], [1, 11]) if p not in pool]
    if width > 30 and draw(st.booleans()):  # neighbours that differ in the last places only
        pool = pool + [p[:-1] + [1 - p[-1]] for p in pool if p[-1] < 2]
        pool = [list(t) for t in dict.fromkeys(tuple(p) for p in pool)]

    def dist():
        keys = draw(st.lists(st.sampled_from(pool), min_size=min(len(pool), draw(st.sampled_from([1, 2, 3]))), max_size=6, unique_by=tuple))
        w = [draw(st.sampled_from([1, 5, 2, 0, 12, 7, 3])) for _ in keys]
        if not any(w):
            w[0] = 1
        return [[k, x] for k, x in zip(keys, w)]

    a = dist()
    b = [list(x) for x in draw(st.permutations(a))] if draw(st.integers(0, 5)) == 0 else dist()
    return {
        "a": a,
        "b": b,
        "eps": draw(st.sampled_from([None, 1e-9, 1e-6, 1e-3, 0.05, 0.3])),
        "sigma": draw(st.sampled_from([None, 1.0, 0.25, 3, [1.0], [0.5, 2.0], [1, 10, 0.1], 1e4, [1e12, 1.0], 1e20])),
        "flip": draw(st.booleans()),
    }


def table(pairs_):
    s = sum(w for _, w in pairs_)
    return {tuple(k): w / s for k, w in pairs_}


def make(pairs_, rev=False):
    from zquantum.core.distribution import MeasurementOutcomeDistribution

    t = table(pairs_)
    if rev:
        t = dict(reversed(list(t.items())))
    return MeasurementOutcomeDistribution(t)


def nll(p, q, eps):
    return -math.fsum(p[k] * math.log(max(eps, q.get(k, 0.0))) for k in p)


def mmd(p, q, sigma):
    keys = sorted(set(p) | set(q))
    ints = [int("".join(map(str, k)), 2) for k in keys]
    sig = sigma if isinstance(sigma, list) else [sigma]
    total = []
    for x, i in zip(keys, ints):
        for y, j in zip(keys, ints):
            d2 = (i - j) ** 2
            ker = sum(math.exp(-float(min(Fraction(d2) / Fraction(2 * s), Fraction(10**6)))) for s in sig) / len(sig)
            total.append((p.get(x, 0) - q.get(x, 0)) * ker * (p.get(y, 0) - q.get(y, 0)))
    return math.fsum(total)


def nontrivial(c):
    a, b = table(c["a"]), table(c["b"])
    return a != b and len(set(a) | set(b)) > 2


RULE = "two different distributions over three outcomes or more"


def params(c, name):
    v = c["eps" if name == "epsilon" else "sigma"]
    return {} if v is None else {name: v}


@sub(pairs(), quick=500, rule=RULE, nt=nontrivial)
def likelihoods(case):
    from zquantum.core.distribution import compute_clipped_negative_log_likelihood as f_nll
    from zquantum.core.distribution import compute_jensen_shannon_divergence as f_jsd
    from zquantum.core.distribution import evaluate_distribution_distance

    p, q = table(case["a"]), table(case["b"])
    a, b = make(case["a"]), make(case["b"], case["flip"])
    par = params(case, "epsilon")
    eps = par.get("epsilon", 1e-9)
    want = nll(p, q, eps)
    got = f_nll(a, b, dict(par))
    require(abs(got - want) < 1e-9 * (1 + abs(want)), "negative log-likelihood", got, want)
    require(got >= -1e-12, "negative value of the negative log-likelihood", got)
    sym = (nll(p, q, eps) + nll(q, p, eps)) / 2
    got = f_jsd(a, b, dict(par))
    require(abs(got - sym) < 1e-9 * (1 + abs(sym)), "symmetrized likelihood", got, sym)
    require(abs(got - f_jsd(b, a, dict(par))) < 1e-9 * (1 + abs(sym)), "not symmetric")
    for f, w in ((f_nll, want), (f_jsd, sym)):
        got = evaluate_distribution_distance(a, b, f, distance_measure_parameters=dict(par))
        require(abs(got - w) < 1e-9 * (1 + abs(w)), "through evaluate_distribution_distance", got, w)
    require(a.distribution_dict == make(case["a"]).distribution_dict and b.distribution_dict == make(case["b"]).distribution_dict, "a distribution was modified")
    if not set(p) & set(q):
        label("disjoint supports")


@sub(pairs(binary=True), quick=500, rule=RULE, nt=nontrivial)
def discrepancy(case):
    from zquantum.core.distribution import compute_mmd, evaluate_distribution_distance

    p, q = table(case["a"]), table(case["b"])
    a, b = make(case["a"]), make(case["b"], case["flip"])
    par = params(case, "sigma")
    sigma = par.get("sigma", 1.0)
    if isinstance(sigma, list) and case["flip"]:
        par = {"sigma": np.array(sigma)}
    want = mmd(p, q, sigma)
    got = compute_mmd(a, b, dict(par))
    require(abs(got - want) < 1e-9, "maximum mean discrepancy", got, want)
    require(got >= -1e-9, "negative discrepancy", got)
    require(abs(compute_mmd(b, a, dict(par)) - got) < 1e-9, "not symmetric")
    require(abs(compute_mmd(a, make(case["a"], True), dict(par))) < 1e-9, "distance to itself is not zero")
    if max(p.get(k, 0) - q.get(k, 0) for k in set(p) | set(q)) > 1e-2 and not isinstance(sigma, list) and sigma <= 3:
        require(got > 1e-7, "different distributions at distance zero", got)
    got = evaluate_distribution_distance(a, b, compute_mmd, distance_measure_parameters=dict(par))
    require(abs(got - want) < 1e-9, "through evaluate_distribution_distance", got, want)
    if len(case["a"][0][0]) > 31:
        label("wide outcomes")


@sub(
    st.tuples(st.lists(st.integers(0, 2**40), min_size=1, max_size=5), st.lists(st.integers(0, 2**40), min_size=1, max_size=5), st.booleans(), st.lists(st.sampled_from([0.5, 1, 2.0, 1e6, 1e20, 1e24]), min_size=1, max_size=3)).map(list),
    quick=200,
    rule="points that differ and two kernel widths or more",
    nt=lambda c: len(set(c[0] + c[1])) > 1 and len(c[3]) > 1,
)
def kernels(case):
    from zquantum.core.distribution import compute_multi_rbf_kernel, compute_rbf_kernel

    xs, ys, small, sig = case
    if small:
        xs, ys = [x % 7 for x in xs], [y % 7 for y in ys]
    x, y = np.array(xs), np.array(ys)

    def k(s):
        return np.array([[math.exp(-float(Fraction((i - j) ** 2) / Fraction(2 * s))) if (i - j) ** 2 < 2000 * s else 0.0 for j in ys] for i in xs])

    require(np.allclose(compute_rbf_kernel(x, y, sig[0]), k(sig[0]), atol=1e-9), "kernel matrix", compute_rbf_kernel(x, y, sig[0]), k(sig[0]))
    want = sum(k(s) for s in sig) / len(sig)
    require(np.allclose(compute_multi_rbf_kernel(x, y, sig), want, atol=1e-9), "mean kernel matrix", compute_multi_rbf_kernel(x, y, sig), want)
    raises(ZeroDivisionError, lambda: compute_rbf_kernel(x, y, 0), "kernel of width zero")


@st.composite
def unlike(draw):
    w1, w2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"w1": w1, "w2": w2, "n1": draw(st.booleans()), "n2": draw(st.booleans()), "x": draw(st.sampled_from([0.2, 0.9, 1.5, 3])), "measure": draw(st.integers(0, 2)), "type": draw(st.sampled_from(["ok", "ok", "ok", "dict", "none"])), "side": draw(st.booleans())}


@sub(unlike(), quick=200, rule="different widths, normalizations or types", nt=lambda c: c["w1"] != c["w2"] or c["n1"] != c["n2"] or c["type"] != "ok")
def rejection(case):
    from zquantum.core import distribution as D

    measure = [D.compute_clipped_negative_log_likelihood, D.compute_jensen_shannon_divergence, D.compute_mmd][case["measure"]]

    def make_(w, norm):
        d = {(0,) * w: 0.5, (1,) * w: 0.5}
        if not norm:
            d = {k: v * case["x"] for k, v in d.items()}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return D.MeasurementOutcomeDistribution(d, normalize=False)

    a, b = make_(case["w1"], case["n1"]), make_(case["w2"], case["n2"])
    run = lambda x, y: D.evaluate_distribution_distance(x, y, measure, distance_measure_parameters={})
    if case["type"] != "ok":
        other = {(0,): 1.0} if case["type"] == "dict" else None
        raises(TypeError, (lambda: run(a, other)) if case["side"] else (lambda: run(other, a)), "something that is not a distribution")
    elif case["w1"] != case["w2"]:
        raises(RuntimeError, lambda: run(a, b), "different numbers of subsystems")
    elif case["n1"] != case["n2"]:
        raises(RuntimeError, lambda: run(a, b), "one distribution is not normalized")
    else:
        require(math.isfinite(run(a, b)), "value is not finite")


@sub(
    lambda: st.fixed_dictionaries(
        {
            "d": st.sampled_from([20, 40, 70, 150]),
            "width": st.sampled_from([8, 10, 53, 66]),
            "overlap": st.sampled_from([0.0, 0.5, 0.97, 1.0]),
            "sizes": st.sampled_from(["equal", "first", "second"]),
            "eps": st.sampled_from([None, 1e-6, 0.01]),
            "sigma": st.sampled_from([None, 2.0, 1e4, [0.5, 50.0]]),
            "seed": st.integers(0, 10**6),
        }
    ),
    quick=50,
    thorough=800,
    shards=2,
    rule="every case: twenty outcomes or more",
)
def many_outcomes(x):
    from zquantum.core import distribution as D

    rs = np.random.RandomState(x["seed"])
    d, w = x["d"], x["width"]
    if x["seed"] % 2 and w > 20:
        # outcomes which differ in the last places only
        head = rs.randint(0, 2, size=w - 10)
        rows = [tuple(int(b) for b in head) + tuple(int(b) for b in row) for row in rs.randint(0, 2, size=(3 * d, 10))]
    else:
        rows = [tuple(int(b) for b in row) for row in rs.randint(0, 2, size=(3 * d, w))]
    pool = list(dict.fromkeys(rows))
    k = min(d, len(pool) // 2)
    first = pool[:k]
    shared = int(x["overlap"] * k)
    second = first[:shared] + pool[k : 2 * k - shared]
    if x["sizes"] == "first":
        second = second[: max(1, k // 2)]
    elif x["sizes"] == "second":
        first = first[: max(1, k // 2)]
    second = [second[i] for i in rs.permutation(len(second))]
    ta = [[list(o), int(v)] for o, v in zip(first, rs.randint(1, 50, size=len(first)))]
    tb = [[list(o), int(v)] for o, v in zip(second, rs.randint(1, 50, size=len(second)))]
    p, q, a, b = table(ta), table(tb), make(ta), make(tb)
    par = params(x, "epsilon")
    eps = par.get("epsilon", 1e-9)
    want, back = nll(p, q, eps), nll(q, p, eps)
    got = D.compute_clipped_negative_log_likelihood(a, b, dict(par))
    require(abs(got - want) < 1e-9 * (1 + abs(want)), "negative log-likelihood over many outcomes", got, want)
    got = D.compute_jensen_shannon_divergence(a, b, dict(par))
    require(abs(got - (want + back) / 2) < 1e-9 * (1 + abs(want + back)), "symmetrized likelihood over many outcomes", got, want, back)
    par = params(x, "sigma")
    want = mmd(p, q, par.get("sigma", 1.0))
    got = D.compute_mmd(a, b, dict(par))
    require(abs(got - want) < 1e-9, "maximum mean discrepancy over many outcomes", got, want)
    require(abs(D.compute_mmd(b, a, dict(par)) - want) < 1e-9, "not symmetric over many outcomes")
    require(abs(D.compute_mmd(a, make(ta, True), dict(par))) < 1e-9, "distance to itself is not zero")
