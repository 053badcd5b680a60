"""C06: simulated states and exact observables."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import fail, label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): simulated states, observables and call counts against numpy linear algebra and a counting model, over generated circuits and call sequences"
ASSUMPTIONS = ["at most 5 qubits; circuits have at least one operation where calls are counted"]

NATIVE = {
    "all": lambda o: True,
    "gates": lambda o: hasattr(o, "gate"),
    "one_qubit": lambda o: hasattr(o, "gate") and len(o.qubit_indices) == 1,
    "no_custom": lambda o: hasattr(o, "gate") and o.gate.name not in gen.CUSTOM and o.gate.name not in ("Control", "Dagger"),
    "none": lambda o: False,
}


def native_spec(kind, o):
    if kind == "all":
        return True
    if kind == "none" or isinstance(o, dict):
        return False
    if kind == "gates":
        return True
    if kind == "one_qubit":
        return len(o[1]) == 1
    g = o[0]
    if "dag" in g:
        # .dagger of a hermitian gate is the gate itself
        real = gen.build_gate(g)
        return real.name not in gen.CUSTOM and real.name not in ("Control", "Dagger")
    return "g" in g


def make_simulator(kind, log):
    from zquantum.core.interfaces.backend import QuantumSimulator

    class Sim(QuantumSimulator):
        def __init__(self):
            super().__init__()

        def is_natively_supported(self, operation):
            return NATIVE[kind](operation)

        def run_circuit_and_measure(self, circuit, n_samples):
            super().run_circuit_and_measure(circuit, n_samples)
            raise NotImplementedError

        def _get_wavefunction_from_native_circuit(self, circuit, initial_state):
            log.append((list(circuit.operations), circuit.n_qubits, np.array(initial_state, dtype=complex)))
            state = np.array(initial_state, dtype=complex)
            for op in circuit.operations:
                if hasattr(op, "gate"):
                    m = gen.numeric(op.gate.matrix)
                    state = ref.apply_matrix(m, list(op.qubit_indices), state, circuit.n_qubits)
                else:
                    state = op.apply(state)
            return state

    return Sim()


def init_state(x, n):
    if x is None:
        v = np.zeros(2**n, dtype=complex)
        v[0] = 1
        return v
    rng = np.random.RandomState(x)
    v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    return v / np.linalg.norm(v)


@st.composite
def runs(draw, max_n=4, max_ops=6):
    c = draw(gen.circuits(max_n=max_n, max_ops=max_ops, phases=True, wrap=1))
    return {
        "c": c,
        "native": draw(st.sampled_from(sorted(NATIVE))),
        "init": draw(st.one_of(st.none(), st.integers(0, 10**6))),
        "form": draw(st.sampled_from(["array", "list", "wf"])),
    }


def groups(kind, ops):
    flags = [native_spec(kind, o) for o in ops]
    n = 0
    prev = False
    for f in flags:
        if f and not prev:
            n += 1
        prev = f
    return n


@sub(
    lambda: runs(),
    quick=260,
    thorough=8000,
    shards=4,
    rule="the circuit mixes native and non-native operations",
    nt=lambda x: len({native_spec(x["native"], o) for o in x["c"]["ops"]}) == 2,
)
def mixed_native(x):
    from zquantum.core.wavefunction import Wavefunction

    c = gen.build_circuit(x["c"])
    n = gen.circuit_n(x["c"])
    v = init_state(x["init"], n)
    log = []
    sim = make_simulator(x["native"], log)
    arg = None
    if x["init"] is not None:
        arg = {"array": v.copy(), "list": list(v), "wf": Wavefunction(v)}[x["form"]]
    w = sim.get_wavefunction(c, arg) if arg is not None else sim.get_wavefunction(c)
    want = gen.ref_apply(x["c"]["ops"], v, n)
    require(isinstance(w, Wavefunction), "result type")
    require(ref.close(np.asarray(w.amplitudes), want), "simulated state differs from the unitary applied to the initial state")
    if arg is not None:
        require(np.array_equal(np.array(list(arg), dtype=complex), v), "the initial state was changed")
    k = groups(x["native"], x["c"]["ops"])
    require(len(log) == k, f"{len(log)} native runs, expected {k}")
    require(sim.number_of_circuits_run == k and sim.number_of_jobs_run == k, "number of circuits or jobs run")
    for ops, nq, _ in log:
        require(nq == n, "register of a native part")
        require(all(NATIVE[x["native"]](o) for o in ops) and ops, "a native part holds an unsupported operation")


@st.composite
def op_terms(draw, n, letters="XYZ"):
    t = {}
    for q in draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)):
        t[q] = draw(st.sampled_from(letters))
    return [[q, t[q]] for q in sorted(t)]


coefs = st.one_of(st.floats(-3, 3), st.sampled_from([1.0, -0.5, 0.25, 2]))


@st.composite
def observables(draw):
    c = draw(gen.circuits(max_n=4, max_ops=5, phases=True, wrap=1))
    n = gen.circuit_n(c)
    ising = draw(st.booleans())
    terms = []
    seen = set()
    for _ in range(draw(st.integers(1, 4))):
        t = draw(op_terms(n, "Z" if ising else "XYZ"))
        if str(t) in seen:
            continue
        seen.add(str(t))
        k = draw(coefs)
        terms.append([t, k if abs(k) > 1e-6 else 1.0])
    return {"c": c, "terms": terms, "ising": ising}


@sub(
    observables,
    quick=220,
    thorough=6000,
    shards=4,
    rule="an operator with at least two terms, one of them non-constant",
    nt=lambda x: len(x["terms"]) > 1 and any(t for t, _ in x["terms"]),
)
def exact_expectation(x):
    from zquantum.core.openfermion import IsingOperator, QubitOperator
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    c = gen.build_circuit(x["c"])
    n = gen.circuit_n(x["c"])
    cls = IsingOperator if x["ising"] else QubitOperator
    op = cls()
    for t, k in x["terms"]:
        op += cls(tuple((q, l) for q, l in t), k)
    state = gen.ref_apply(x["c"]["ops"], init_state(None, n), n)
    want = [
        k * np.real(np.vdot(state, ref.pauli_matrix([tuple(p) for p in t], n) @ state)) for t, k in x["terms"]
    ]
    order = [tuple(tuple(p) for p in t) for t, _ in x["terms"]]
    require(list(op.terms) == order, "operator terms in another order than added")
    for sim in (SymbolicSimulator(), make_simulator("one_qubit", [])):
        ev = sim.get_exact_expectation_values(c, op)
        got = np.asarray(ev.values)
        require(not np.iscomplexobj(got) or np.all(got.imag == 0), "expectation values are not real")
        require(ref.close(got, want), "exact expectation values differ from the quadratic form", got, want)
    # the outcome distribution
    d = SymbolicSimulator().get_measurement_outcome_distribution(c).distribution_dict
    b = SymbolicSimulator().get_bitstring_distribution(c).distribution_dict
    p = abs(state) ** 2
    for dist in (d, b):
        require(len(dist) == 2**n, "outcomes of the exact distribution")
        for i in range(2**n):
            require(abs(dist[ref.bits(i, n)] - p[i]) < 1e-9, f"probability of {ref.bits(i, n)}")


# ------------------------------------------------------------ histories of calls on one simulator


@st.composite
def sessions(draw):
    cs = [draw(gen.circuits(max_n=3, max_ops=3, phases=True, wrap=0, custom=False)) for _ in range(draw(st.integers(1, 3)))]
    calls = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["wf", "run", "set", "dist", "sdist", "exact", "bad", "bits"]))
        i = draw(st.integers(0, len(cs) - 1))
        calls.append([k, i, draw(st.integers(1, 40)), draw(st.lists(st.integers(0, len(cs) - 1), max_size=3))])
    return {"cs": cs, "calls": calls, "seed": draw(st.integers(0, 1000)), "backend": draw(st.sampled_from(["sym", "mock"]))}


@sub(sessions, quick=160, thorough=4000, shards=3, rule="at least three calls", nt=lambda x: len(x["calls"]) >= 3)
def call_history(x):
    from zquantum.core.interfaces.mock_objects import MockQuantumBackend
    from zquantum.core.openfermion import QubitOperator
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    cs = [gen.build_circuit(c) for c in x["cs"]]
    texts = [repr(c) for c in cs]
    ns = [gen.circuit_n(c) for c in x["cs"]]
    probs = [abs(gen.ref_apply(c["ops"], init_state(None, n), n)) ** 2 for c, n in zip(x["cs"], ns)]
    mock = x["backend"] == "mock"
    sim = MockQuantumBackend() if mock else SymbolicSimulator(seed=x["seed"])
    count = 0

    def check_samples(m, i, k, what):
        require(len(m.bitstrings) == k, f"{what}: {len(m.bitstrings)} samples, expected {k}")
        for b in m.bitstrings:
            require(len(b) == ns[i] and set(b) <= {0, 1}, f"{what}: sample {b}")
            require(probs[i][int("".join(map(str, b)), 2)] > 1e-12, f"{what}: impossible sample {b}")

    for k, i, m, idxs in x["calls"]:
        before = (sim.number_of_circuits_run, sim.number_of_jobs_run)
        require(before == (count, count), f"counts {before}, expected {count}")
        if k == "run":
            check_samples(sim.run_circuit_and_measure(cs[i], m), i, m, "run")
            if not mock:
                a = sim.run_circuit_and_measure(cs[i], m).bitstrings
                b = SymbolicSimulator(seed=x["seed"]).run_circuit_and_measure(cs[i], m).bitstrings
                require(a == b, "same seed, different samples")
                count += 1
            count += 1
        elif k == "set":
            counts = [m + j for j in range(len(idxs))]
            res = sim.run_circuitset_and_measure([cs[j] for j in idxs], counts)
            require(len(res) == len(idxs), "number of results of a circuit set")
            for r, j, c in zip(res, idxs, counts):
                check_samples(r, j, c, "circuit set")
            count += len(idxs)
        elif k == "sdist":
            d = sim.get_measurement_outcome_distribution(cs[i], m).distribution_dict
            count += 1
            require(abs(sum(d.values()) - 1) < 1e-9, "sampled distribution not normalized")
            for key, p in d.items():
                require(abs(p * m - round(p * m)) < 1e-6, "sampled probability is no multiple of 1/n")
                require(probs[i][int("".join(map(str, key)), 2)] > 1e-12, "impossible outcome")
        elif k == "bits":
            d = sim.get_bitstring_distribution(cs[i], m)
            count += 1
            require(d.get_qubits_number() == ns[i], "qubits of a bitstring distribution")
        elif k == "bad":
            for bad in (0, -1):
                raises(ValueError, lambda: sim.run_circuit_and_measure(cs[i], bad), f"{bad} samples")
                raises(ValueError, lambda: sim.run_circuitset_and_measure([cs[i]], [bad]), f"{bad} samples in a circuit set")
                if not mock:
                    raises(ValueError, lambda: sim.get_measurement_outcome_distribution(cs[i], bad), f"distribution of {bad} samples")
                    raises(ValueError, lambda: sim.get_bitstring_distribution(cs[i], bad), f"distribution of {bad} samples")
            after = sim.number_of_circuits_run
            count = after  # whether a refused call counts is not specified
        elif mock:
            continue
        elif k == "wf":
            w = sim.get_wavefunction(cs[i])
            require(np.allclose(w.get_probabilities(), probs[i], atol=1e-9), "state probabilities")
            count += 1
        elif k == "dist":
            d = sim.get_measurement_outcome_distribution(cs[i]).distribution_dict
            require(np.allclose([d[ref.bits(j, ns[i])] for j in range(2 ** ns[i])], probs[i], atol=1e-9), "exact distribution")
            count += 1
        elif k == "exact":
            ev = sim.get_exact_expectation_values(cs[i], QubitOperator(f"2.0 [Z{ns[i] - 1}]"))
            last = np.array([1 if j % 2 == 0 else -1 for j in range(2 ** ns[i])])
            require(ref.close(ev.values, [2 * float(probs[i] @ last)]), "exact expectation value")
            count += 1
        label(k)
    require((sim.number_of_circuits_run, sim.number_of_jobs_run) == (count, count), "counts of circuits and jobs")
    require([repr(c) for c in cs] == texts, "a call changed a circuit")


@st.composite
def batches(draw):
    return {
        "size": draw(st.integers(1, 5)),
        "calls": draw(st.lists(st.integers(0, 11), min_size=1, max_size=5)),
        "single": draw(st.integers(0, 3)),
    }


@sub(batches, quick=80, thorough=1500, rule="a call whose size is no multiple of the batch size", nt=lambda x: any(c % x["size"] for c in x["calls"]))
def batch_counts(x):
    from zquantum.core.circuits import Circuit, X
    from zquantum.core.interfaces.backend import QuantumBackend
    from zquantum.core.measurement import Measurements

    class Batching(QuantumBackend):
        supports_batching = True
        batch_size = x["size"]

        def run_circuit_and_measure(self, circuit, n_samples):
            super().run_circuit_and_measure(circuit, n_samples)
            return Measurements([(1,)] * n_samples)

        def run_circuitset_and_measure(self, circuits, n_samples):
            super().run_circuitset_and_measure(circuits, n_samples)
            return [Measurements([(1,)] * k) for k in n_samples]

    b = Batching()
    c = Circuit([X(0)])
    circuits = jobs = 0
    for k in x["calls"]:
        b.run_circuitset_and_measure([c] * k, [3] * k)
        circuits += k
        jobs += -(-k // x["size"])
        require((b.number_of_circuits_run, b.number_of_jobs_run) == (circuits, jobs), f"after a set of {k}: {b.number_of_circuits_run} circuits, {b.number_of_jobs_run} jobs")
    for _ in range(x["single"]):
        b.run_circuit_and_measure(c, 2)
        circuits += 1
        jobs += 1
    require((b.number_of_circuits_run, b.number_of_jobs_run) == (circuits, jobs), "counts after single runs")
    for bad in (0, -2, None, 1.5):
        cls = type("Bad", (Batching,), {"batch_size": bad})
        raises(AssertionError, cls, f"batch size {bad}")


@st.composite
def unbound(draw):
    c = draw(gen.circuits(max_n=2, max_ops=3, symbolic="only", custom=False, u3=False, names=["a", "b"]))
    return {"c": c, "env": draw(gen.envs(["a", "b"])), "n": draw(st.integers(1, 5))}


@sub(unbound, quick=60, thorough=1200, shards=2, rule="the circuit has free symbols", nt=lambda x: bool(gen.circuit_symbols(x["c"])))
def symbol_maps(x):
    """A circuit with free parameters is run with a symbol map, as bound beforehand."""
    import sympy
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    c = gen.build_circuit(x["c"])
    m = {sympy.Symbol(k): v for k, v in x["env"].items()}
    a = SymbolicSimulator(seed=3).run_circuit_and_measure(c, x["n"], symbol_map=m).bitstrings
    b = SymbolicSimulator(seed=3).run_circuit_and_measure(c.bind(m), x["n"]).bitstrings
    require(a == b, "samples with a symbol map differ from those of the bound circuit")
    n = gen.circuit_n(x["c"])
    p = abs(gen.ref_apply(x["c"]["ops"], init_state(None, n), n, x["env"])) ** 2
    for s in a:
        require(p[int("".join(map(str, s)), 2)] > 1e-12, "impossible sample")


@sub(
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([1, 3, 4, 7]),
            "count": st.sampled_from([10, 17, 30, 60]),
            "seed": st.integers(0, 10**6),
            "native": st.sampled_from(sorted(NATIVE)),
            "init": st.one_of(st.none(), st.integers(0, 10**6)),
            "terms": st.sampled_from([0, 9, 20]),
        }
    ),
    quick=60,
    thorough=1500,
    shards=3,
    rule="every case: ten operations or more",
)
def long_circuits(x):
    """Many operations in many native and non-native stretches; observables of many terms."""
    from zquantum.core.circuits import Circuit
    from zquantum.core.openfermion import QubitOperator

    n = x["n"]
    count = x["count"] if n < 7 else min(x["count"], 17)
    ops = gen.big_ops(x["seed"], n, count, shared=3, wrap=True, span=4)
    rs = np.random.RandomState(x["seed"] + 1)
    if n < 5:
        for _ in range(rs.randint(4)):
            pass_at = int(rs.randint(len(ops) + 1))
            ops.insert(pass_at, {"phases": [round(float(v), 4) for v in rs.uniform(-3, 3, 2**n)]})
    c = Circuit([gen.build_op(o) for o in ops], n_qubits=n)
    log = []
    sim = make_simulator(x["native"], log)
    v = init_state(x["init"], n)
    w = sim.get_wavefunction(c) if x["init"] is None else sim.get_wavefunction(c, v)
    want = gen.ref_apply(ops, v, n)
    require(ref.close(np.asarray(w.amplitudes), want, 1e-7), "the state of a long circuit differs")
    k = groups(x["native"], ops)
    require((len(log), sim.number_of_circuits_run, sim.number_of_jobs_run) == (k, k, k), "native runs of a long circuit", len(log), sim.number_of_circuits_run, k)
    if x["terms"]:
        words, op = {}, QubitOperator()
        for i in range(x["terms"]):
            word = tuple((q, "XYZ"[rs.randint(3)]) for q in range(n) if rs.randint(3))
            if word not in words:
                words[word] = round(float(rs.uniform(0.1, 2)), 3)
                op += QubitOperator(word, words[word])
        state = gen.ref_apply(ops, init_state(None, n), n)
        values = [k * np.real(np.vdot(state, ref.pauli_matrix(list(t), n) @ state)) for t, k in words.items()]
        got = sim.get_exact_expectation_values(c, op).values
        require(ref.close(got, values, 1e-7), "exact expectation values of many terms", got, values)


@sub(
    lambda: st.fixed_dictionaries({"sets": st.lists(st.tuples(st.sampled_from([0, 1, 9, 11, 30]), st.integers(1, 60)), min_size=1, max_size=4), "n": st.integers(1, 4), "seed": st.integers(0, 10**6), "backend": st.sampled_from(["sym", "mock"])}),
    quick=40,
    thorough=600,
    shards=2,
    rule="a set of nine circuits or more",
    nt=lambda x: any(k >= 9 for k, _ in x["sets"]),
)
def large_sets(x):
    """Sets of many circuits: results in order, of the requested sizes, and counted."""
    from zquantum.core.circuits import Circuit, X
    from zquantum.core.interfaces.mock_objects import MockQuantumBackend
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    rs = np.random.RandomState(x["seed"])
    b = MockQuantumBackend() if x["backend"] == "mock" else SymbolicSimulator(seed=x["seed"])
    total = 0
    for k, top in x["sets"]:
        words = [[int(v) for v in rs.randint(2, size=x["n"])] for _ in range(k)]
        cs = [Circuit([X(q) for q, v in enumerate(w) if v], n_qubits=x["n"]) for w in words]
        sizes = [int(rs.randint(1, top + 1)) for _ in range(k)]
        out = b.run_circuitset_and_measure(cs, sizes)
        require([len(m.bitstrings) for m in out] == sizes, "sizes of the results of a circuit set")
        for m, w in zip(out, words):
            require(set(map(tuple, m.bitstrings)) == {tuple(w)}, "the result of another circuit", m.bitstrings[0], w)
        total += sum(1 for c in cs if c.operations)
        empty = sum(1 for c in cs if not c.operations)
        require(total <= b.number_of_circuits_run <= total + empty and b.number_of_jobs_run == b.number_of_circuits_run, "counts after a circuit set", b.number_of_circuits_run, total)
        total = b.number_of_circuits_run
