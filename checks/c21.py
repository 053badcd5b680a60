"""C21: cost functions, ansatze and numerical gradients."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import fail, label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated operators, symbolic circuits, ansatze and call histories against dense expectation values, recorded backend tasks and a model of the ansatz cache"
ASSUMPTIONS = [
    "operators have real coefficients (possibly stored as complex numbers) of at least 0.1, on at most 3 qubits, and at least one term",
    "symbol names have distinct natural-order keys (theta_1 and theta_01 have equal keys, so neither order is wrong)",
    "random parameter noise is checked for reproducibility by seed and for its spread, not against one random stream",
]

NAMES = ["theta_2", "theta_10", "theta_1", "beta_10", "beta_2", "alpha", "gamma_0"]


def over(f):
    f.__override__ = True  # what @overrides does, without needing the base class at module level
    return f


def groups(name):
    """Split into digit and non-digit runs, beginning with a (possibly empty) non-digit run."""
    out, digits = [""], False
    for ch in name:
        if ch.isdigit() != digits:
            digits = not digits
            out.append("")
        out[-1] += ch
    if digits:
        out.append("")
    return [int(g) if g.isdigit() else g for g in out]


def natural(s):
    return groups(s)


def revlex(s):
    return groups(s)[::-1]


KEYS = {"str": str, "natural": natural, "revlex": revlex}


def lib_key(name):
    from zquantum.core.circuits import natural_key, natural_key_revlex

    return {"str": str, "natural": natural_key, "revlex": natural_key_revlex}[name]


def operator(terms, as_complex=False):
    from zquantum.core.openfermion import QubitOperator

    op = QubitOperator()
    for fs, c in terms:
        op.terms[tuple((q, a) for q, a in fs)] = complex(c) if as_complex else c
    return op


def matrix(terms, n):
    out = np.zeros((2**n, 2**n), dtype=complex)
    for fs, c in terms:
        out = out + c * ref.pauli_matrix([tuple(f) for f in fs], n)
    return out


def symbols_of(c):
    out = set()
    for o in c["ops"]:
        for p in gen.op_params(o):
            if isinstance(p, list):
                out |= {s.name for s in getattr(expr.to_sympy(p), "free_symbols", ())}
    return out


def energy(case, names, values):
    n = case["n"]
    v = np.zeros(2**n, dtype=complex)
    v[0] = 1
    env = {s: 0.0 for s in NAMES}
    env.update(zip(names, [float(x) for x in values]))
    psi = gen.ref_apply(case["circuit"]["ops"], v, n, env)
    return (psi.conj() @ matrix(case["terms"], n) @ psi).real


@st.composite
def terms(draw, n, min_size=1, max_size=4):
    out = []
    for _ in range(draw(st.integers(min_size, max_size))):
        qs = draw(st.permutations(range(n)))[: draw(st.integers(0, n))]
        fs = sorted([q, draw(st.sampled_from("XYZ"))] for q in qs)
        if fs not in [x[0] for x in out]:
            out.append([fs, draw(st.sampled_from([1.0, -1.0, 0.5, -0.25, 2, 1.5, -3]))])
    return out


values = st.integers(-4000, 4000).map(lambda k: k / 1000)


@st.composite
def problems(draw, max_n=3):
    n = draw(st.integers(1, max_n))
    names = draw(st.permutations(NAMES))[: draw(st.integers(2, 5))]
    return {
        "n": n,
        "terms": draw(terms(n, draw(st.sampled_from([1, 2, 2, 3])))),
        "complex": draw(st.booleans()),
        "circuit": dict(draw(gen.circuits(max_n=n, min_n=n, max_ops=7, min_ops=3, symbolic=draw(st.sampled_from(["mixed", "only", "only"])), names=names, custom=False, wrap=1, u3=False, pad=False)), n=n),
        "key": draw(st.sampled_from(sorted(KEYS))),
        "calls": draw(st.lists(st.lists(values, min_size=len(NAMES), max_size=len(NAMES)), min_size=1, max_size=3)),
        "ints": draw(st.integers(0, 4)) == 0,
        "repeat": draw(st.booleans()),
        "fixed": draw(st.integers(0, 3)),
        "pre": draw(st.sampled_from(["none", "none", "individual", "greedy", "context", "shots"])),
        "route": draw(st.sampled_from(["factory", "substitution", "dynamic", "legacy", "legacy_ansatz"])),
    }


def preprocessors(kind):
    from zquantum.core import estimation as e

    return {
        "none": None,
        "individual": [e.group_individually],
        "greedy": [e.group_greedily],
        "context": [e.group_greedily, e.perform_context_selection],
        "shots": [e.group_individually, functools.partial(e.allocate_shots_uniformly, number_of_shots=7)],
    }[kind]


def make_ansatz(circuit, order, key):
    from zquantum.core.interfaces.ansatz import Ansatz

    class Given(Ansatz):
        supports_parametrized_circuits = True

        @property
        @over
        def symbols_sort_key(self):
            return key

        @over
        def _generate_circuit(self, params=None):
            if params is None:
                return circuit
            import sympy

            return circuit.bind({sympy.Symbol(s): float(x) for s, x in zip(order, params)})

    return Given(1)


def quiet(fn, *a, **k):
    import contextlib
    import io

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def build(case, names, method, fixed=None, noise=None, backend=None):
    """The cost function of the case through its route. noise = (precision, seed)."""
    from zquantum.core import cost_function as cf
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    backend = backend or SymbolicSimulator()
    op = operator(case["terms"], case["complex"])
    circuit = gen.build_circuit(case["circuit"])
    key = lib_key(case["key"])
    pre = preprocessors(case["pre"])
    route = case["route"]
    if route in ("legacy", "legacy_ansatz"):
        kw = dict(estimation_method=method, estimation_preprocessors=pre, fixed_parameters=fixed)
        if noise:
            kw.update(parameter_precision=noise[0], parameter_precision_seed=noise[1])
        if route == "legacy":
            return quiet(cf.get_ground_state_cost_function, op, circuit, backend, symbols_sort_key=key, **kw)
        return quiet(cf.AnsatzBasedCostFunction, op, make_ansatz(circuit, names, key), backend, **kw)
    if route == "factory":
        tasks = cf.expectation_value_estimation_tasks_factory(op, circuit, pre, key)
    elif route == "substitution":
        tasks = cf.substitution_based_estimation_tasks_factory(op, make_ansatz(circuit, names, key), pre)
    else:
        tasks = cf.dynamic_circuit_estimation_tasks_factory(op, make_ansatz(circuit, names, key), pre)
    params = []
    if fixed is not None:
        params.append(cf.fix_parameters(fixed))
    if noise:
        params.append(cf.add_normal_noise(*noise))
    return cf.create_cost_function(backend, tasks, method, params or None)


def order_of(case):
    return sorted(symbols_of(case["circuit"]), key=KEYS[case["key"]])


def nt_problem(case):
    return len(symbols_of(case["circuit"])) >= 2 and len(case["terms"]) >= 2


@sub(problems(), quick=300, thorough=12000, rule="at least two free symbols and two terms", nt=nt_problem)
def cost_functions(case):
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.utils import ValueEstimate

    names = order_of(case)
    k = len(names)
    nf = min(case["fixed"], k)
    label(f"route {case['route']}")
    label(f"preprocessing {case['pre']}")
    label(f"{min(k, 4)} symbols, {'some' if nf else 'none'} fixed")
    fixed = np.array(case["calls"][0][:nf]) if nf else None
    keep = None if fixed is None else fixed.copy()
    f = build(case, names, calculate_exact_expectation_values, fixed)
    calls = case["calls"] + (case["calls"][:1] if case["repeat"] else [])
    for vals in calls:
        given = np.array(vals[nf:k])
        if case["ints"]:
            given = np.array([int(x) for x in given], dtype=int)
        before = given.copy()
        out = quiet(f, given)
        require(np.array_equal(given, before) and given.dtype == before.dtype, "the parameters were modified", before, given)
        if fixed is not None:
            require(np.array_equal(fixed, keep), "the fixed parameters were modified")
        full = list(keep if nf else []) + list(before)
        want = energy(case, names, full)
        require(isinstance(out, ValueEstimate) and out.precision is None, "result", repr(out))
        require(abs(float(out) - want) < 1e-6, "value of the cost function", names, full, float(out), want)
    # an optimiser may pass one array that it changes in place between its calls
    buffer = np.array(calls[-1][nf:k], dtype=float)
    for vals in calls:
        buffer[:] = vals[nf:k]
        full = list(keep if nf else []) + [float(x) for x in vals[nf:k]]
        out, want = quiet(f, buffer), energy(case, names, full)
        require(abs(float(out) - want) < 1e-6, "value after changing the array of parameters in place", full, float(out), want)
    if case["route"] != "legacy_ansatz" and 0 < k - nf <= 2:
        label("gradient")
        given = np.array(calls[-1][nf:k])
        g = quiet(f.gradient, given)
        full = list(keep if nf else []) + list(given)
        want = []
        for i in range(nf, k):
            up, down = list(full), list(full)
            # the default step: expressions may vary so fast that another step gives another quotient
            up[i] += 1e-5
            down[i] -= 1e-5
            want.append((energy(case, names, up) - energy(case, names, down)) / 2e-5)
        require(np.shape(g) == (k - nf,) and np.allclose(g, want, atol=2e-3 * (1 + sum(abs(c) for _, c in case["terms"]))), "gradient of the cost function", g, want)
    if case["route"] != "dynamic":
        raises(ValueError, lambda: quiet(f, np.zeros(k - nf + 1)), "one parameter too many")
        if k - nf:
            raises(ValueError, lambda: quiet(f, np.zeros(k - nf - 1)), "one parameter too few")


# ----- parameters as they reach the backend -----------------------------------------------------------------


@st.composite
def recorded(draw):
    k = draw(st.integers(1, 5))
    names = draw(st.permutations(NAMES))[:k]
    return {
        "names": list(names),
        "key": draw(st.sampled_from(sorted(KEYS))),
        "route": draw(st.sampled_from(["factory", "substitution", "dynamic", "legacy", "legacy_ansatz"])),
        "fixed": draw(st.integers(0, k)),
        "precision": draw(st.sampled_from([None, 0.0, 1e-3, 0.5, 2.0])),
        "seed": draw(st.one_of(st.sampled_from([0, 0, 1]), st.integers(2, 2**32 - 1))),
        "calls": draw(st.lists(st.lists(values, min_size=5, max_size=5), min_size=2, max_size=4)),
        "ints": draw(st.booleans()),
        "frames": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
        "constant": draw(st.sampled_from([0, 1.5])),
        "complex": draw(st.booleans()),
        "iterator": draw(st.booleans()),
    }


def recording_method(seen, frames, real=False):
    """Estimation method that records the tasks and returns values known in advance."""
    from zquantum.core.measurement import ExpectationValues

    def method(backend, tasks):
        seen.append([(t.circuit, t.operator, t.number_of_shots) for t in tasks])
        out = []
        for i, _ in enumerate(tasks):
            vals = np.arange(1, 4) * (i + 1.0)
            cov = [np.full((f, f), 0.25 * (j + 1)) for j, f in enumerate(frames)]
            out.append(ExpectationValues(vals + 0j if i and not real else vals, None, [c + 0j for c in cov]))
        return out

    return method


@sub(recorded(), quick=400, thorough=15000, rule="two or more symbols and either fixed parameters or noise", nt=lambda c: len(c["names"]) >= 2 and (c["fixed"] or c["precision"]))
def parameters(case):
    """One RX per symbol: the angles found in the circuits given to the estimation method."""
    from zquantum.core import cost_function as cf

    k = len(case["names"])
    nf = case["fixed"]
    order = sorted(case["names"], key=KEYS[case["key"]])
    c = {
        "terms": [[[[0, "Z"]], 1.0], [[[0, "X"]], 0.5]],
        "complex": case["complex"],
        "circuit": {"ops": [[{"g": "RX", "p": [["sym", s]]}, [i]] for i, s in enumerate(case["names"])], "n": k},
        "key": case["key"],
        "pre": "individual",
        "route": case["route"],
    }
    fixed = np.array(case["calls"][0][:nf]) if nf else None
    noise = None if case["precision"] is None else (case["precision"], case["seed"])
    label(f"route {case['route']}, {'noise' if noise else 'no noise'}, {'fixed' if nf else 'free'}")

    def history():
        seen = []
        f = build(c, order, recording_method(seen, case["frames"], case["route"] == "legacy"), fixed, noise, backend=object())
        for vals in case["calls"]:
            given = np.array(vals[nf:k])
            if case["ints"]:
                given = np.array([int(x) for x in given], dtype=int)
            before = given.copy()
            out = quiet(f, given)
            require(np.array_equal(given, before), "parameters modified")
            require(abs(float(out) - (6 + 12)) < 1e-9, "sum of the values of all tasks", float(out))
            if case["route"] == "legacy":
                require(out.precision is None, "precision", out)
            else:
                var = 2 * sum(0.25 * (j + 1) * n * n for j, n in enumerate(case["frames"]))
                require(out.precision is not None and abs(out.precision - var**0.5) < 1e-9, "precision of the sum", out.precision, var**0.5)
        angles = []
        for tasks in seen:
            require(len(tasks) == 2, "number of tasks", tasks)
            got = [{case["names"][o.qubit_indices[0]]: float(o.gate.params[0]) for o in t[0].operations} for t in tasks]
            require(got[0] == got[1], "the tasks of one call have different parameters", got)
            require(not any(t[0].free_symbols for t in tasks), "unbound symbols")
            angles.append([got[0][s] for s in order])
        return angles

    angles = history()
    require(len(angles) == len(case["calls"]), "number of estimations")
    wanted = []
    for vals in case["calls"]:
        rest = [float(int(x)) if case["ints"] else x for x in vals[nf:k]]
        wanted.append(list(fixed if nf else []) + rest)
    diffs = np.array(angles) - np.array(wanted)
    if not case["precision"]:
        require(np.all(np.abs(diffs) < 1e-12), "parameters reaching the backend", order, angles, wanted)
    else:
        require(np.array_equal(np.array(history()), np.array(angles)), "noise is not reproducible by its seed")
        require(np.all(diffs != 0), "a parameter without noise", diffs)
        require(np.all(np.abs(diffs) < 8 * case["precision"]), "noise far larger than asked for", diffs)
        if case["route"] in ("legacy", "legacy_ansatz"):
            require(np.allclose(diffs, diffs[0], atol=1e-9), "the seed is applied in every call", diffs)
        else:
            require(not np.allclose(diffs[0], diffs[1], rtol=1e-6, atol=0), "the same noise again in the next call", diffs)
            pre = cf.add_normal_noise(case["precision"], case["seed"])
            again = np.array([pre(np.array(w)) for w in wanted])
            require(np.allclose(again, angles, rtol=0, atol=1e-12), "noise of the preprocessor by itself", again, angles)
    # preprocessors from an iterator, applied in the order given
    if case["route"] == "factory" and case["iterator"]:
        seen = []
        tasks = cf.expectation_value_estimation_tasks_factory(operator(c["terms"]), gen.build_circuit(c["circuit"]), None, lib_key(case["key"]))
        steps = (p for p in [lambda x: x * 2, lambda x: x + 1])
        f = cf.create_cost_function(object(), tasks, recording_method(seen, [1]), steps)
        for vals in case["calls"]:
            f(np.array(vals[:k]))
        for tasks, vals in zip(seen, case["calls"]):
            got = {case["names"][o.qubit_indices[0]]: float(o.gate.params[0]) for o in tasks[0][0].operations}
            require(all(abs(got[s] - (2 * x + 1)) < 1e-9 for s, x in zip(order, vals)), "preprocessors applied in order in every call", got, vals)


@sub(st.tuples(st.sampled_from([1e-3, 0.3, 5.0]), st.integers(0, 10**6)), quick=12, thorough=200, rule="every case draws 20000 values")
def noise_spread(case):
    from zquantum.core.cost_function import add_normal_noise

    p, seed = case
    pre = add_normal_noise(p, seed)
    zero = np.zeros(10000)
    x = np.concatenate([pre(zero), pre(zero)]) / p
    require(not zero.any(), "argument modified")
    require(abs(np.mean(x)) < 0.05 and abs(np.std(x) - 1) < 0.04, "mean or deviation of the noise", np.mean(x), np.std(x))
    for limit, share, tolerance in ((0.5, 0.3829, 0.025), (1, 0.6827, 0.025), (2, 0.9545, 0.01), (3, 0.9973, 0.0022)):
        got = np.mean(np.abs(x) < limit)
        require(abs(got - share) < tolerance, "shape of the noise", limit, got)
    require(abs(np.mean(x > 0) - 0.5) < 0.025 and len(np.unique(x)) > 19900, "shape of the noise", np.mean(x > 0), len(np.unique(x)))


# ----- gradients --------------------------------------------------------------------------------------------------


@st.composite
def gradient_cases(draw):
    k = draw(st.integers(0, 5))
    small = st.integers(-3000, 3000).map(lambda i: i / 1000)
    return {
        "x": draw(st.lists(small, min_size=k, max_size=k)),
        "lin": draw(st.lists(small, min_size=k, max_size=k)),
        "quad": [draw(st.lists(small, min_size=k, max_size=k)) for _ in range(k)],
        "sin": draw(small),
        "scale": draw(st.sampled_from([1, 1, 1, 50, 1000])),
        "step": draw(st.sampled_from([None, 1e-5, 1e-3, 0.1, 0.5, 2.0])),
        "dtype": draw(st.sampled_from(["float", "int", "float32"])),
        "estimate": draw(st.booleans()),
        "mutate": draw(st.booleans()),
    }


@sub(gradient_cases(), quick=400, thorough=20000, rule="two or more parameters", nt=lambda c: len(c["x"]) >= 2)
def gradients(case):
    from zquantum.core.gradients import finite_differences_gradient
    from zquantum.core.interfaces.functions import function_with_gradient
    from zquantum.core.utils import ValueEstimate

    lin, quad = np.array(case["lin"]), np.array(case["quad"]).reshape(len(case["x"]), len(case["x"]))

    def pure(x):
        return float(lin @ x + x @ quad @ x + case["sin"] * np.sin(np.sum(x)))

    points = []

    def f(x):
        points.append(np.array(x))
        out = pure(np.array(x, dtype=float))
        if case["mutate"]:
            x += 1  # a function may use its argument as workspace
        return ValueEstimate(out, 0.1) if case["estimate"] else out

    scale = case["scale"] if case["dtype"] != "float32" else 1
    x = np.array(case["x"]) * scale
    x = x.astype({"float": float, "int": int, "float32": np.float32}[case["dtype"]])
    before = x.copy()
    step = case["step"]
    g = (finite_differences_gradient(f) if step is None else finite_differences_gradient(f, step))(x)
    require(np.array_equal(x, before) and x.dtype == before.dtype, "argument modified", before, x)
    h = 1e-5 if step is None else step
    want = []
    size = 1 + np.abs(lin) @ np.abs(before) + np.abs(before) @ np.abs(quad) @ np.abs(before)
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        want.append((pure(before + e) - pure(before - e)) / (2 * h))
    require(isinstance(g, np.ndarray) and g.shape == (len(x),), "shape", g)
    tol = dict(rtol=1e-6, atol=(1e-6 if h > 1e-4 else 1e-4) + 1e-14 * size / h)
    require(np.allclose(g, want, **tol), "central difference quotients", g, want)
    for p in points:
        d = np.abs(p - before)
        require(np.count_nonzero(d > h / 2) == 1 and abs(d.max() - h) < 1e-6 * max(1, h) * 10 + 1e-12 * scale, "points of evaluation", p, before, h)
    fg = function_with_gradient(f, finite_differences_gradient(f, h))
    require(abs(float(fg(before.astype(float))) - pure(before.astype(float))) < 1e-9 * max(1, size), "value of the combined function")
    require(np.allclose(fg.gradient(before), want, **tol), "gradient of the combined function")


# ----- combining functions and gradients -----------------------------------------------------------------------


@sub(st.tuples(st.sampled_from(["plain", "artifact", "artifact_kw", "class", "class_artifact", "partial", "ufunc", "wrapped", "builtin", "method"]), st.booleans()), quick=40, thorough=200, rule="the callable is not a plain function", nt=lambda c: c[0] != "plain")
def functions_with_gradient(case):
    from zquantum.core.interfaces.functions import (
        FunctionWithGradient,
        FunctionWithGradientStoringArtifacts,
        function_with_gradient,
        has_store_artifact_param,
    )

    kind, named = case
    stored = []

    def store(name, artifact, force=False):
        stored.append((name, artifact, force))

    def plain(x):
        return float(np.sum(x))

    def artifact(x, store_artifact=None):
        if store_artifact:
            store_artifact("v", 2.0)
        return float(np.sum(x))

    def artifact_kw(x, *, store_artifact=None):
        return artifact(x, store_artifact)

    class C:
        def __call__(self, x):
            return plain(x)

        def method(self, x, store_artifact=None):
            return artifact(x, store_artifact)

    class CA:
        def __call__(self, x, store_artifact=None):
            return artifact(x, store_artifact)

    @functools.wraps(artifact)
    def wrapped(*a, **k):
        return artifact(*a, **k)

    fn = {
        "plain": plain, "artifact": artifact, "artifact_kw": artifact_kw, "class": C(), "class_artifact": CA(),
        "partial": functools.partial(lambda a, x: a * float(np.sum(x)), 1.0), "ufunc": np.sin, "wrapped": wrapped,
        "builtin": sum, "method": C().method,
    }[kind]
    expected = kind in ("artifact", "artifact_kw", "class_artifact", "wrapped", "method")
    require(has_store_artifact_param(fn) is expected, "recognising the store_artifact parameter", kind)
    grad = lambda x: 2 * x  # noqa
    out = function_with_gradient(fn, grad)
    require(isinstance(out, FunctionWithGradientStoringArtifacts if expected else FunctionWithGradient), "kind of combined function", type(out))
    x = np.array([1.0, 2.0])
    require(np.array_equal(out.gradient(x), 2 * x), "gradient")
    if kind == "artifact_kw":
        return
    want = np.sin(x) if kind == "ufunc" else 3.0
    require(np.allclose(out(x), want), "value", out(x))
    if expected:
        require(stored == [], "artifacts stored without being asked for")
        require(out(x, store) == 3.0 and stored == [("v", 2.0, False)], "artifact", stored)
        require(out(x, store_artifact=store) == 3.0 and len(stored) == 2, "artifact by keyword", stored)
    if named and kind in ("plain", "artifact", "wrapped"):
        fn.info = [1]
        require(out.info is fn.info, "attributes of the function")
        out.other = 5
        require(fn.other == 5 and out.other == 5, "setting an attribute")


# ----- sums of expectation values ----------------------------------------------------------------------------------


@st.composite
def expectation_sets(draw):
    f = st.integers(-2000, 2000).map(lambda k: k / 250)
    out = []
    for _ in range(draw(st.integers(0, 3))):
        frames = draw(st.lists(st.integers(1, 3), max_size=3))
        covs = []
        for m in frames:
            a = np.array(draw(st.lists(f, min_size=m * m, max_size=m * m))).reshape(m, m)
            covs.append((a @ a.T).tolist())
        out.append({"values": draw(st.lists(f, min_size=sum(frames) or 1, max_size=sum(frames) or 1)), "covs": draw(st.sampled_from([covs, covs, None]))})
    return out


@sub(expectation_sets(), quick=300, thorough=10000, rule="two or more sets, one with covariances", nt=lambda c: len(c) >= 2 and any(e["covs"] for e in c))
def sums(case):
    from zquantum.core.cost_function import sum_expectation_values
    from zquantum.core.measurement import ExpectationValues, concatenate_expectation_values

    objs = [ExpectationValues(np.array(e["values"]), None, None if e["covs"] is None else [np.array(c) for c in e["covs"]]) for e in case]
    whole = concatenate_expectation_values(objs)
    out = sum_expectation_values(whole)
    total = sum(sum(e["values"]) for e in case)
    var = [np.sum(c) for e in case for c in (e["covs"] or [])]
    require(abs(float(out) - total) < 1e-9, "sum", out, total)
    if var:
        require(out.precision is not None and abs(out.precision - np.sqrt(max(0, sum(var)))) < 1e-7, "precision", out.precision, sum(var))
    else:
        require(out.precision is None, "precision without covariances", out.precision)
    for e, o in zip(case, objs):
        require(o.values.tolist() == e["values"] and (o.estimator_covariances is None) == (e["covs"] is None) and len(o.estimator_covariances or []) == len(e["covs"] or []), "arguments were changed", e)
    alone = [float(sum_expectation_values(o)) for o in objs]
    require(abs(sum(alone) - total) < 1e-9, "sums of the parts")


# ----- ansatz histories ------------------------------------------------------------------------------------------------

ACTIONS = ["list", "array", "layers", "kind", "flag", "size", "rotate", "shift", "circuit", "circuit", "params", "executable", "switch", "plain"]


@st.composite
def histories(draw):
    return {
        "layers": [draw(st.integers(0, 3)), draw(st.integers(0, 3))],
        "actions": draw(st.lists(st.tuples(st.sampled_from(ACTIONS), st.integers(0, 3)), min_size=3, max_size=14)),
        "key": draw(st.sampled_from([None, "str", "natural", "revlex"])),
        "vals": draw(st.lists(values, min_size=16, max_size=16)),
        "parametrized": draw(st.integers(0, 5)) > 0,
    }


def nt_history(case):
    acts = [a for a, _ in case["actions"]]
    changed = [i for i, a in enumerate(acts) if a in ("list", "array", "layers", "kind", "flag", "size", "rotate")]
    asked = [i for i, a in enumerate(acts) if a in ("circuit", "params", "executable")]
    return any(a < c < b for c in changed for a in asked for b in asked)


@sub(histories(), quick=500, thorough=20000, rule="the circuit is used both before and after a change of the ansatz", nt=nt_history)
def ansatz_histories(case):
    import sympy
    from zquantum.core.circuits import RX, RY, RZ, Circuit
    from zquantum.core.interfaces.ansatz import Ansatz
    from zquantum.core.interfaces.ansatz_utils import ansatz_property, invalidates_parametrized_circuit

    built = []

    class Model(Ansatz):
        supports_parametrized_circuits = case["parametrized"]
        kind = ansatz_property("kind", default_value=0)
        flag = ansatz_property("flag")
        angles = ansatz_property("angles")
        weights = ansatz_property("weights")

        def __init__(self, layers):
            super().__init__(layers)
            self._size = 1
            self._shift = 0
            self.rotations = 0
            self.unrelated = 0
            self.angles = []
            self.weights = np.zeros(2)

        @invalidates_parametrized_circuit
        @property
        def shift(self):
            return self._shift

        @invalidates_parametrized_circuit
        def rotate(self, by, *, twice=False):
            self.rotations += by * (2 if twice else 1)
            return ("rotated", self.rotations)

        @property
        def size(self):
            return self._size

        @size.setter
        def size(self, value):
            self._size = value

        size = invalidates_parametrized_circuit(size)

        @over
        def _generate_circuit(self, params=None):
            built.append(self)
            gates = [RX, RY, RZ]
            c = Circuit()
            values = iter(params) if params is not None else None
            for layer in range(self.number_of_layers):
                for q in range(self.size):
                    g = gates[int(self.kind + self.rotations + sum(self.angles) + sum(self.weights)) % 3]
                    for name in ("theta", "beta"):
                        p = sympy.Symbol(f"{name}_{layer * 3 + self.shift}") if values is None else float(next(values))
                        c += g(p)(q + (1 if self.flag else 0))
            return c

    if case["key"]:
        Model.symbols_sort_key = property(lambda self: lib_key(case["key"]))
    key = KEYS[case["key"] or "revlex"]
    insts = [Model(n) for n in case["layers"]]
    models = [dict(layers=n, kind=0, flag=None, size=1, shift=0, rotations=0, listed=0) for n in case["layers"]]
    fresh = [False, False]
    cur = 0

    def expected(m):
        out = []
        for layer in range(m["layers"]):
            for q in range(m["size"]):
                for name in ("theta", "beta"):
                    out.append((["RX", "RY", "RZ"][(m["kind"] + m["rotations"]) % 3], f"{name}_{layer * 3 + m['shift']}", q + (1 if m["flag"] else 0)))
        return out

    def got(c):
        return [(o.gate.name, o.gate.params[0].name, o.qubit_indices[0]) for o in c.operations]

    for act, k in case["actions"]:
        a, m = insts[cur], models[cur]
        n0 = len(built)
        if act == "switch":
            cur = 1 - cur
        elif act == "layers":
            a.number_of_layers = k
            m["layers"] = k
            fresh[cur] = False
        elif act == "kind":
            require(a.kind == m["kind"], "property value", a.kind)
            a.kind = k
            m["kind"] = k
            fresh[cur] = False
        elif act == "flag":
            require(a.flag == m["flag"], "property value", a.flag)
            a.flag = bool(k % 2)
            m["flag"] = bool(k % 2)
            fresh[cur] = False
        elif act == "size":
            a.size = 1 + k % 2
            m["size"] = 1 + k % 2
            fresh[cur] = False
        elif act == "rotate":
            r = a.rotate(k, twice=bool(k % 2))
            m["rotations"] += k * (2 if k % 2 else 1)
            require(r == ("rotated", m["rotations"] - m["listed"]), "return value of an invalidating method", r)
            fresh[cur] = False
        elif act == "list":
            # changed in place and assigned again
            t = a.angles
            t.append(k)
            a.angles = t
            m["rotations"] += k
            m["listed"] += k
            fresh[cur] = False
        elif act == "array":
            a.weights[k % 2] += k
            a.weights = a.weights
            m["rotations"] += k
            m["listed"] += k
            fresh[cur] = False
        elif act == "plain":
            a.unrelated = k
        elif not case["parametrized"]:
            raises(NotImplementedError, lambda: a.parametrized_circuit, "no parametrized circuit")
            raises(NotImplementedError, lambda: a.number_of_params, "no number of parameters")
            want = expected(m)
            vals = np.array((case["vals"] * 4)[: len(want)])
            c = a.get_executable_circuit(vals)
            require([(o.gate.name, o.qubit_indices[0], float(o.gate.params[0])) for o in c.operations] == [(g, q, v) for (g, _, q), v in zip(want, vals)], "circuit generated from the parameters", c)
            vals += 0.5
            c = a.get_executable_circuit(vals)
            require([float(o.gate.params[0]) for o in c.operations] == vals.tolist(), "parameters changed in place", c)
            raises(Exception, lambda: a.get_executable_circuit(None), "no parameters")
        else:
            want = expected(m)
            symbols = sorted({s for _, s, _ in want}, key=key)
            if act == "circuit":
                c = a.parametrized_circuit
                require(got(c) == want, "parametrized circuit", c, want)
            elif act == "params":
                require(a.number_of_params == len(symbols), "number of parameters", a.number_of_params, symbols)
            elif act == "executable":
                vals = np.array(case["vals"][: len(symbols)])
                c = a.get_executable_circuit(vals)
                env = dict(zip(symbols, vals))
                have = [(o.gate.name, float(o.gate.params[0]), o.qubit_indices[0]) for o in c.operations]
                require(have == [(g, env[s], q) for g, s, q in want], "parameters of the executable circuit", symbols, have)
                vals += 0.5
                c = a.get_executable_circuit(vals)
                require([float(o.gate.params[0]) for o in c.operations] == [env[s] + 0.5 for _, s, _ in want], "parameters changed in place", c)
                raises(ValueError, lambda: a.get_executable_circuit(np.zeros(len(symbols) + 1)), "too many parameters")
                raises(Exception, lambda: a.get_executable_circuit(None), "no parameters")
                require(got(a.parametrized_circuit) == want, "parametrized circuit after binding", want)
            if act in ("circuit", "params", "executable"):
                if fresh[cur]:
                    require(len(built) == n0, "circuit built again although nothing changed")
                    label("cached circuit")
                else:
                    label("new circuit")
                fresh[cur] = True
        for other, om in zip(insts, models):
            require(
                (other.number_of_layers, other.kind, other.flag, other.size, other.rotations) == (om["layers"], om["kind"], om["flag"], om["size"], om["rotations"] - om["listed"]),
                "properties of the ansatze", act,
            )
    raises(ValueError, lambda: Model(-1 - case["layers"][0]), "negative number of layers")


@sub(st.tuples(st.integers(0, 12), st.integers(1, 3), st.lists(values, min_size=13, max_size=13), st.integers(0, 12), st.integers(1, 3)), quick=120, thorough=3000, rule="more than ten layers (two-digit symbols)", nt=lambda c: c[0] > 10)
def mock_ansatz(case):
    from zquantum.core.cost_function import fix_parameters
    from zquantum.core.interfaces.ansatz_utils import combine_ansatz_params
    from zquantum.core.interfaces.mock_objects import MockAnsatz

    layers, size, vals, layers2, size2 = case
    a = MockAnsatz(layers, size)
    for n, s in [(layers, size), (layers2, size2)]:
        a.number_of_layers = n
        a.problem_size = s
        require(a.number_of_params == n and a.number_of_qubits == s, "parameters and qubits", a.number_of_params)
        p = np.array(vals[:n])
        want = [("RX", q, v) for v in vals[:n] for q in range(s)]
        c = a.get_executable_circuit(p)
        require([(o.gate.name, o.qubit_indices[0], float(o.gate.params[0])) for o in c.operations] == want, "executable circuit", c)
        c2 = a._generate_circuit(p)
        require([(o.gate.name, o.qubit_indices[0], float(o.gate.params[0])) for o in c2.operations] == want, "generated circuit", c2)
    k = layers % 5
    x, y = np.array(vals[:k]), np.array(vals[k : k + 3])
    out = combine_ansatz_params(x, y)
    require(out.tolist() == vals[: k + 3] and fix_parameters(x)(y).tolist() == vals[: k + 3], "fixed parameters come first", out)
