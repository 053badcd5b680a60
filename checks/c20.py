"""C20: estimation preprocessing keeps totals and respects shot budgets."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated task lists and preprocessor pipelines against exact dense expectation values, the shot formulas and recorded backend calls"
ASSUMPTIONS = [
    "operators have real coefficients (possibly stored as complex numbers) of at least 0.001",
    "circuits of up to 4 qubits for exact values",
    "proportional allocation needs at least one task with positive variance",
]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


@st.composite
def pauli_words(draw, n, alphabet, min_terms, max_terms):
    out = []
    for _ in range(draw(st.integers(min_terms, max_terms))):
        k = draw(st.integers(0, n))
        t = [[q, draw(st.sampled_from(alphabet))] for q in draw(st.permutations(range(n)))[:k]]
        if sorted(t) not in [sorted(x[0]) for x in out]:
            out.append([sorted(t), draw(st.sampled_from([1.0, -1.0, 0.5, -0.25, 2, 1.5]))])
    return out


@st.composite
def comeasurable_words(draw, n, max_terms=4):
    basis = [draw(st.sampled_from("XYZ")) for _ in range(n)]
    out = []
    for _ in range(draw(st.integers(1, max_terms))):
        t = [[q, basis[q]] for q in sorted(draw(st.permutations(range(n)))[: draw(st.integers(0, n))])]
        if t not in [x[0] for x in out]:
            out.append([t, draw(st.sampled_from([1.0, -1.0, 0.5, -0.25, 2]))])
    return out


@st.composite
def tasks(draw, grouped=False, max_n=3, sizes=None, max_terms=4):
    n = draw(st.sampled_from(sizes)) if sizes else draw(st.integers(1, max_n))
    if grouped:
        terms = draw(comeasurable_words(n, max_terms if n <= 3 else 2 * max_terms))
    else:
        terms = draw(pauli_words(n, draw(st.sampled_from(["XYZ", "XYZ", "Z"])), draw(st.sampled_from([0, 1, 2, 3])), 5))
    if draw(st.integers(0, 5)) == 0:
        terms = [[[], draw(st.sampled_from([1.5, -2.0]))]]
    return {
        "n": n,
        "terms": terms,
        "circuit": draw(gen.circuits(max_n=n, min_n=n, max_ops=4, min_ops=0, custom=False, wrap=1)),
        "shots": draw(st.one_of(st.none(), st.integers(0, 50))),
        "complex": draw(st.booleans()),
        "ising": draw(st.booleans()),
    }


def op_of(t):
    from zquantum.core.openfermion import IsingOperator, QubitOperator

    cls = IsingOperator if t["ising"] and all(a == "Z" for fs, _ in t["terms"] for _, a in fs) else QubitOperator
    op = cls()
    for fs, c in t["terms"]:
        op.terms[tuple((q, a) for q, a in fs)] = complex(c) if t["complex"] else c
    return op


def task_of(t):
    from zquantum.core.interfaces.estimation import EstimationTask

    return EstimationTask(op_of(t), gen.build_circuit(dict(t["circuit"], n=t["n"])), t["shots"])


def tasks_of(descriptions):
    from zquantum.core.interfaces.estimation import EstimationTask

    out = []
    for t in descriptions:
        task = task_of(t)
        if t.get("same") is not None:
            task = EstimationTask(task.operator, out[t["same"]].circuit, task.number_of_shots)
        out.append(task)
    return out


def state_of(t):
    v = np.zeros(2 ** t["n"], dtype=complex)
    v[0] = 1
    return gen.ref_apply(t["circuit"]["ops"], v, t["n"])


def value(terms, psi, n):
    out = 0.0
    for fs, c in terms:
        v = psi
        for q, a in fs:
            v = ref.apply_matrix(ref.pauli_matrix([(0, a)], 1), [q], v, n)
        out += c * np.vdot(psi, v).real
    return out


def circuit_state(circuit, n):
    """State of a real circuit, through the repository's own gate matrices (checked by C01 and C02)."""
    v = np.zeros(2**n, dtype=complex)
    v[0] = 1
    for o in circuit.operations:
        v = ref.apply_matrix(gen.numeric(o.gate.matrix), list(o.qubit_indices), v, n)
    return v


def snapshot(ts):
    return [(dict(t.operator.terms), type(t.operator), t.circuit, list(t.circuit.operations), t.number_of_shots) for t in ts]


def unchanged(ts, snap):
    now = snapshot(ts)
    return len(now) == len(snap) and all(a[0] == b[0] and a[1] is b[1] and a[2] is b[2] and a[3] == b[3] and a[4] == b[4] for a, b in zip(now, snap))


# ----- context selection ------------------------------------------------------------------------------------


@sub(st.lists(tasks(grouped=True, sizes=[1, 2, 3, 3, 4, 5, 6, 8]), min_size=0, max_size=3), quick=400, thorough=10000, rule="a group with two or more terms and an X or Y", nt=lambda c: any(len(t["terms"]) >= 2 and any(f[1] != "Z" for fs, _ in t["terms"] for f in fs) for t in c))
def context_selection(case):
    from zquantum.core.circuits import Circuit
    from zquantum.core.estimation import get_context_selection_circuit_for_group, perform_context_selection
    from zquantum.core.openfermion import IsingOperator, QubitOperator

    ts = [task_of(t) for t in case]
    snap = snapshot(ts)
    out = perform_context_selection(ts)
    require(unchanged(ts, snap), "context selection changed its input")
    require(len(out) == len(ts), "number of tasks")
    for t, task, new in zip(case, ts, out):
        n = t["n"]
        require(new.number_of_shots == task.number_of_shots, "number of shots", new)
        require(type(new.operator) is IsingOperator, "operator is not diagonal", type(new.operator))
        k = len(task.circuit.operations)
        require(new.circuit.operations[:k] == task.circuit.operations and new.circuit.n_qubits == task.circuit.n_qubits, "the circuit itself was changed", new.circuit)
        psi, phi = state_of(t), circuit_state(new.circuit, n)
        want = {tuple(q for q, _ in fs): c * value([[fs, 1]], psi, n) for fs, c in t["terms"]}
        coefs = {tuple(q for q, _ in fs): c for fs, c in t["terms"]}
        got = {tuple(q for q, _ in fs): c for fs, c in new.operator.terms.items()}
        require(set(got) == set(want) and all(abs(got[q] - coefs[q]) < 1e-9 for q in got), "terms of the rotated operator", task.operator, new.operator)
        for fs, c in new.operator.terms.items():
            have = c.real * value([[list(fs), 1]], phi, n)
            require(abs(have - want[tuple(q for q, _ in fs)]) < 1e-7, "expectation value of a rotated term", task.operator, fs, have)
        circuit, op = get_context_selection_circuit_for_group(task.operator)
        require(task.circuit + circuit == new.circuit and op == new.operator, "context selection of a single group differs")
        used = {q for fs, _ in t["terms"] for q, a in fs if a != "Z"}
        require({q for o in circuit.operations for q in o.qubit_indices} == used, "rotated qubits", circuit)
        basis = {q: a for fs, _ in t["terms"] for q, a in fs}
        for q, a in sorted(basis.items()):
            other = {"X": "Y", "Y": "Z", "Z": "X"}[a]
            for clash in ([(q, other)], [(p, b if p != q else other) for p, b in sorted(basis.items())]):
                if tuple(clash) in task.operator.terms:
                    continue
                plain = QubitOperator()
                plain.terms.update(task.operator.terms)
                term = QubitOperator(tuple(clash), 0.5)
                for bad in (plain + term, term + plain, QubitOperator(((q, a),), 1.0) + term):
                    raises(ValueError, lambda: get_context_selection_circuit_for_group(bad), "terms that cannot be measured together")
    require(Circuit() == Circuit([]), "")


# ----- grouping ------------------------------------------------------------------------------------------------


@st.composite
def grouping_cases(draw):
    return {"tasks": draw(st.lists(tasks(max_n=4), max_size=4)), "how": draw(st.sampled_from(["individual", "greedy", "greedy", "sorted"]))}


@sub(grouping_cases(), quick=400, thorough=10000, rule="two or more tasks, one with three or more terms", nt=lambda c: len(c["tasks"]) >= 2 and any(len(t["terms"]) >= 3 for t in c["tasks"]))
def grouping(case):
    from zquantum.core.estimation import group_greedily, group_individually

    ts = [task_of(t) for t in case["tasks"]]
    snap = snapshot(ts)
    if case["how"] == "individual":
        out = group_individually(ts)
    elif case["how"] == "greedy":
        out = quiet(group_greedily, ts)
    else:
        out = quiet(group_greedily, ts, sort_terms=True)
    require(unchanged(ts, snap), "grouping changed its input")
    pos = 0
    for t, task in zip(case["tasks"], ts):
        terms = {}
        while len(terms) < len(task.operator.terms):
            require(pos < len(out), "terms are missing", task.operator, out)
            o = out[pos]
            pos += 1
            require(o.circuit == task.circuit and o.number_of_shots == task.number_of_shots, "a group with another task's circuit or shots", o, task)
            require(len(o.operator.terms) >= 1, "an empty group", out)
            require(case["how"] != "individual" or len(o.operator.terms) == 1, "more than one term in a task", o)
            for k, c in o.operator.terms.items():
                require(k in task.operator.terms and k not in terms and c == task.operator.terms[k], "term or coefficient", k, c, task.operator)
                terms[k] = c
            for s in o.operator.terms:
                for u in o.operator.terms:
                    require(all(dict(u).get(q, a) == a for q, a in s), "a group that cannot be measured together", o.operator)
    require(pos == len(out), "more tasks than groups", out)
    label(case["how"])


# ----- shot allocation ---------------------------------------------------------------------------------------------


@st.composite
def allocations(draw):
    ts = draw(st.lists(tasks(), min_size=1, max_size=6))
    size = sum(len(t["terms"]) for t in ts)
    priors = draw(st.one_of(st.none(), st.lists(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), st.floats(-1, 1)), min_size=size, max_size=size)))
    return {"tasks": ts, "shots": draw(st.one_of(st.integers(1, 20), st.integers(1, 10**7))), "priors": priors, "bad": draw(st.sampled_from([0, -1, -100]))}


@sub(allocations(), quick=500, thorough=12000, rule="three or more tasks with different variances", nt=lambda c: len({round(sum(x[1] ** 2 for x in t["terms"] if x[0]), 6) for t in c["tasks"]}) >= 3)
def shot_allocation(case):
    from zquantum.core.estimation import allocate_shots_proportionally, allocate_shots_uniformly
    from zquantum.core.measurement import ExpectationValues

    ts = [task_of(t) for t in case["tasks"]]
    snap = snapshot(ts)
    total = case["shots"]
    out = allocate_shots_uniformly(ts, total)
    require([o.number_of_shots for o in out] == [total] * len(ts), "uniform allocation", out)
    require(all(o.operator == t.operator and o.circuit == t.circuit for o, t in zip(out, ts)), "uniform allocation changed a task")
    sd, pos = [], 0
    for t in case["tasks"]:
        v = 0.0
        for fs, c in t["terms"]:
            if case["priors"] is None:
                v += c * c if fs else 0
            else:
                v += c * c * max(0, 1 - case["priors"][pos] ** 2)
                pos += 1
        sd.append(np.sqrt(v))
    args = [] if case["priors"] is None else [ExpectationValues(np.array(case["priors"]))]
    if sum(sd) > 1e-6:
        out = allocate_shots_proportionally(ts, total, *args)
        require(len(out) == len(ts) and all(o.operator == t.operator and type(o.operator) is type(t.operator) and o.circuit == t.circuit for o, t in zip(out, ts)), "proportional allocation changed a task")
        got = [o.number_of_shots for o in out]
        require(all(isinstance(g, int) and g >= 0 for g in got), "shots are not non-negative integers", got)
        require(sum(got) == total, "total number of shots", got, total)
        share = [total * s / sum(sd) for s in sd]
        require(all(abs(g - s) < 1 + 1e-6 * total / 1e3 for g, s in zip(got, share)), "shots deviate from their share by one or more", got, share)
        label("proportional" + (" with priors" if args else ""))
    require(unchanged(ts, snap), "allocation changed its input")
    raises(ValueError, lambda: allocate_shots_uniformly(ts, case["bad"]), "uniform allocation of no shots")
    raises(ValueError, lambda: allocate_shots_proportionally(ts, case["bad"], *args), "proportional allocation of no shots")


# ----- binding ---------------------------------------------------------------------------------------------------------


@st.composite
def bindings(draw):
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4, 12]))):
        if out and draw(st.integers(0, 2)) == 0:
            # another task with the same circuit, as an object or an equal copy of it
            i = draw(st.integers(0, len(out) - 1))
            t = dict(draw(st.sampled_from([out[i], out[-1]])), shots=draw(st.integers(0, 9)))
            t["same"] = draw(st.sampled_from([i, i, None]))
            if t["same"] is not None:
                t["circuit"], t["n"] = out[i]["circuit"], out[i]["n"]
            out.append(t)
            continue
        t = draw(tasks())
        t["circuit"] = draw(gen.circuits(max_n=t["n"], min_n=t["n"], max_ops=3, min_ops=1, symbolic="mixed", custom=False, wrap=1))
        out.append(t)
    return {"tasks": out, "form": draw(st.sampled_from(["list", "list", "one in a list", "one"])), "values": [draw(st.integers(0, 10**6)) for _ in out]}


@sub(bindings(), quick=250, thorough=5000, rule="two or more tasks with symbols", nt=lambda c: sum(bool(gen.circuit_symbols(t["circuit"])) for t in c["tasks"]) >= 2)
def binding_of_circuits(case):
    from zquantum.core.estimation import evaluate_estimation_circuits

    import sympy

    ts = tasks_of(case["tasks"])
    snap = snapshot(ts)
    names = sorted(set().union(*[{str(s) for s in t.circuit.free_symbols} for t in ts]))
    maps = [{sympy.Symbol(s): float(x) for s, x in zip(names, np.random.RandomState(v).uniform(-3, 3, len(names)).round(4))} for v in case["values"]]
    if case["form"] == "list":
        out = evaluate_estimation_circuits(ts, maps)
        raises(ValueError, lambda: evaluate_estimation_circuits(ts, maps + maps + maps), "more symbols maps than tasks")
        raises(ValueError, lambda: evaluate_estimation_circuits(ts, []), "no symbols map at all")
        used = maps
    elif case["form"] == "one in a list":
        out = evaluate_estimation_circuits(ts, maps[:1])
        used = maps[:1] * len(ts)
    else:
        out = evaluate_estimation_circuits(ts, maps[0])
        used = maps[:1] * len(ts)
    require(len(out) == len(ts), "tasks were dropped", len(out), len(ts))
    for task, new, m in zip(ts, out, used):
        require(new.operator == task.operator and new.number_of_shots == task.number_of_shots, "another task's operator or shots")
        require(new.circuit == task.circuit.bind(m) and not new.circuit.free_symbols, "circuit is not bound to its own map", task.circuit, new.circuit)
    require(unchanged(ts, snap), "binding changed its input")
    label(case["form"])


# ----- estimation --------------------------------------------------------------------------------------------------------


@st.composite
def estimations(draw):
    few = draw(st.integers(0, 5)) > 0
    ts = draw(st.lists(tasks(), max_size=5) if few else st.lists(tasks(max_n=2), min_size=11, max_size=14))
    for t in ts:
        t["terms"] = [[[[q, "Z"] for q, _ in fs], c * draw(st.sampled_from([1, 1, 1, 0]))] for fs, c in t["terms"]]
        seen, uniq = [], []
        for fs, c in t["terms"]:
            if fs not in seen:
                seen.append(fs)
                uniq.append([fs, c])
        t["terms"] = uniq
        t["shots"] = draw(st.sampled_from([0, 1, 2, 3, 5, 17]))
    return {"tasks": ts, "seed": draw(st.integers(0, 10**6)), "batching": draw(st.booleans())}


@sub(estimations(), quick=500, thorough=12000, rule="measured and non-measured tasks in one list", nt=lambda c: len({t["shots"] == 0 or (len(t["terms"]) == 1 and not t["terms"][0][0]) for t in c["tasks"]}) == 2)
def averaging(case):
    """A backend that records what it is asked to run and returns fabricated measurements."""
    from zquantum.core.estimation import estimate_expectation_values_by_averaging, split_estimation_tasks_to_measure
    from zquantum.core.interfaces.backend import QuantumBackend
    from zquantum.core.measurement import Measurements

    calls = []
    rng = np.random.RandomState(case["seed"])

    class Recording(QuantumBackend):
        def run_circuit_and_measure(self, circuit, n_samples):
            super().run_circuit_and_measure(circuit, n_samples)
            m = [tuple(int(b) for b in rng.randint(0, 2, circuit.n_qubits)) for _ in range(n_samples)]
            calls.append((circuit, n_samples, list(m)))
            return Measurements(m)

    class Batching(Recording):
        supports_batching = True
        batch_size = 2

        def run_circuitset_and_measure(self, circuits, n_samples):
            return [self.run_circuit_and_measure(c, s) for c, s in zip(circuits, n_samples)]

    ts = [task_of(t) for t in case["tasks"]]
    snap = snapshot(ts)
    constant = [len(t["terms"]) == 1 and not t["terms"][0][0] for t in case["tasks"]]
    measured = [i for i, t in enumerate(case["tasks"]) if t["shots"] > 0 and not constant[i]]
    a, b, ia, ib = split_estimation_tasks_to_measure(ts)
    require(list(ia) == measured and sorted(list(ia) + list(ib)) == list(range(len(ts))), "indices of measured tasks", ia, ib)
    require(all(x is ts[i] for x, i in zip(a, ia)) and all(x is ts[i] for x, i in zip(b, ib)) and len(a) == len(ia) and len(b) == len(ib), "split tasks do not match their indices")
    backend = (Batching if case["batching"] else Recording)()
    got = estimate_expectation_values_by_averaging(backend, ts)
    require(unchanged(ts, snap), "estimation changed its input")
    require(len(got) == len(ts), "number of results")
    require(len(calls) == len(measured), "circuits run", len(calls), len(measured))
    for call, i in zip(calls, measured):
        require(call[0] == ts[i].circuit and call[1] == ts[i].number_of_shots, "a circuit or number of shots of another task", call[:2], ts[i])
    for i, t in enumerate(case["tasks"]):
        e = got[i]
        if i in measured:
            bits = calls[measured.index(i)][2]
            want = [c * np.mean([(-1) ** sum(x[q] for q, _ in fs) for x in bits]) for fs, c in t["terms"]]
            if len(e.values) != len(want):
                # converting the operator to an Ising operator drops terms whose coefficient vanishes
                want = [w for w, (_, c) in zip(want, t["terms"]) if c]
            require(len(e.values) == len(want) and np.allclose(e.values, want, atol=1e-9), "values of a measured task", i, e.values, want)
        elif constant[i]:
            require(len(e.values) == 1 and np.allclose(e.values, [t["terms"][0][1]]), "value of a constant", e.values)
        else:
            require(np.allclose(e.values, [0.0]), "value of a task without shots", e.values)
    label("batching" if case["batching"] else "one by one")


@sub(st.lists(tasks(), min_size=1, max_size=3), quick=200, thorough=4000, rule="an operator with two or more terms", nt=lambda c: any(len(t["terms"]) >= 2 for t in c))
def exact_values(case):
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    ts = [task_of(t) for t in case]
    snap = snapshot(ts)
    got = calculate_exact_expectation_values(SymbolicSimulator(), ts)
    require(len(got) == len(ts) and unchanged(ts, snap), "number of results, or changed input")
    for t, e in zip(case, got):
        psi = state_of(t)
        want = [value([x], psi, t["n"]) for x in t["terms"]]
        require(len(e.values) == len(want) and np.allclose(e.values, want, atol=1e-6), "exact expectation values", t, e.values, want)


@st.composite
def pipelines(draw):
    ts = draw(st.lists(tasks(max_n=3), min_size=1, max_size=3))
    return {"tasks": ts, "steps": [draw(st.sampled_from(["individual", "greedy", "sorted"])), "context"] + draw(st.lists(st.sampled_from(["individual", "uniform", "proportional", "greedy"]), max_size=2)), "shots": draw(st.integers(1, 1000))}


@sub(pipelines(), quick=200, thorough=4000, rule="two or more tasks, one with three or more terms", nt=lambda c: len(c["tasks"]) >= 2 and any(len(t["terms"]) >= 3 for t in c["tasks"]))
def pipelines_keep_totals(case):
    """The sum of all expectation values is the same after any sequence of preprocessors."""
    from zquantum.core import estimation as est
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    ts = [task_of(t) for t in case["tasks"]]
    want = sum(value(t["terms"], state_of(t), t["n"]) for t in case["tasks"])
    out = ts
    for s in case["steps"]:
        if s == "proportional" and not any(k for t in out for k in t.operator.terms):
            continue
        out = {
            "individual": lambda x: est.group_individually(x),
            "greedy": lambda x: quiet(est.group_greedily, x),
            "sorted": lambda x: quiet(est.group_greedily, x, sort_terms=True),
            "context": lambda x: est.perform_context_selection(x),
            "uniform": lambda x: est.allocate_shots_uniformly(x, case["shots"]),
            "proportional": lambda x: est.allocate_shots_proportionally(x, case["shots"]),
        }[s](out)
    got = sum(float(np.sum(e.values)) for e in est.calculate_exact_expectation_values(SymbolicSimulator(), out))
    require(abs(got - want) < 1e-6, "total expectation value", case["steps"], got, want)
    label(" ".join(case["steps"]))
