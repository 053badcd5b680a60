"""C22: time-evolution circuits."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated Hamiltonians, times and step counts against closed-form Pauli exponentials, exact propagators and exact derivatives of expectation values"
ASSUMPTIONS = [
    "real coefficients (possibly stored as complex numbers) and real times; a constant term only adds a global phase, which is ignored",
    "up to 8 qubits for products of exponentials (applied to random states), up to 4 for exact propagators",
]


@st.composite
def words(draw, qubits, min_len=0):
    k = draw(st.integers(min_len, min(4, len(qubits))))
    qs = draw(st.permutations(qubits))[:k]
    return [[q, draw(st.sampled_from("XYZ"))] for q in qs]


coefs = st.sampled_from([1.0, -1.0, 0.5, -0.25, 2, 3.5, -1.7, 0.031, -1])
times = st.one_of(st.integers(-4000, 4000).map(lambda k: k / 1000), st.sampled_from([0, 1, -2, np.pi, 0.1, 12.5]), st.integers(-25, 25))


@st.composite
def hamiltonians(draw, max_q=8, min_q=1, max_terms=4, min_terms=0, kinds=("any", "any", "any", "diagonal", "zero")):
    qubits = list(range(draw(st.integers(min_q, max_q))))
    if min_q == 1 and draw(st.booleans()):
        qubits = draw(st.permutations(qubits))[: max(1, len(qubits) // 2)]
    kind = draw(st.sampled_from(kinds))
    basis = [draw(st.sampled_from("XYZ")) for _ in range(max_q)]
    out = []
    for _ in range(draw(st.integers(min_terms, max_terms))):
        w = sorted(draw(words(qubits, draw(st.sampled_from([0, 1, 1, 2])) if len(qubits) > 1 else draw(st.sampled_from([0, 1])))))
        if kind == "diagonal":
            w = [[q, "Z"] for q, _ in w]
        if kind == "basis":
            w = [[q, basis[q]] for q, _ in w]
        if kind == "pairs":
            a = draw(st.sampled_from("XYZ"))
            w = [[q, a] for q in sorted(qubits[: 2 * (len(qubits) // 2)])]
        if w not in [x[0] for x in out]:
            out.append([w, 0.0 if kind == "zero" and draw(st.integers(0, 2)) == 0 else draw(coefs)])
    return {"terms": out, "complex": draw(st.booleans())}


def operator(h):
    from zquantum.core.openfermion import QubitOperator

    op = QubitOperator()
    for fs, c in h["terms"]:
        op.terms[tuple((q, a) for q, a in fs)] = complex(c) if h["complex"] else c
    return op


def width(h):
    return max([q for fs, _ in h["terms"] for q, _ in fs] + [0]) + 1


P = {a: ref.gate_matrix(a) for a in "XYZ"}


def word_on(fs, v, n):
    for q, a in fs:
        v = ref.apply_matrix(P[a], [q], v, n)
    return v


def exp_on(fs, angle, v, n):
    """exp(-i angle W) v; constants are left out (global phase)."""
    return np.cos(angle) * v - 1j * np.sin(angle) * word_on(fs, v, n) if fs else v


def random_state(n, seed):
    r = np.random.default_rng(seed)
    v = r.normal(size=2**n) + 1j * r.normal(size=2**n)
    return v / np.linalg.norm(v)


def circuit_on(c, v, n, env=None):
    for o in c.operations:
        v = ref.apply_matrix(gen.numeric(o.gate.matrix, env), list(o.qubit_indices), v, n)
    return v


def evolve(terms, t, steps, v, n):
    for _ in range(steps):
        for fs, c in terms:
            v = exp_on(fs, c * t / steps, v, n)
    return v


@st.composite
def evolution_cases(draw, **k):
    h = draw(hamiltonians(**k))
    return {
        "h": h,
        "t": draw(times),
        "steps": draw(st.sampled_from([1, 1, 2, 3, 4, 7])),
        "symbolic": draw(st.sampled_from([None, None, "t", "expr"])),
        "coef": draw(st.integers(-3, 3).map(lambda k: k / 2)),
        "seed": draw(st.integers(0, 10**6)),
    }


def time_argument(case):
    """The time to hand over, and the bindings that make it equal to case['t']."""
    import sympy

    if case["symbolic"] is None:
        return case["t"], None
    s = sympy.Symbol("tau")
    if case["symbolic"] == "t":
        return s, {"tau": float(case["t"])}
    return 2 * s + case["coef"], {"tau": (float(case["t"]) - case["coef"]) / 2}


def nt_words(case):
    return any(len(fs) >= 2 and any(a != "Z" for _, a in fs) for fs, _ in case["h"]["terms"])


@sub(evolution_cases(max_terms=1, min_terms=1), quick=500, thorough=20000, rule="a word of two or more factors, not only Z", nt=nt_words)
def single_terms(case):
    from zquantum.core.evolution import time_evolution_for_term

    h = case["h"]
    n = width(h)
    t, env = time_argument(case)
    op = operator(h)
    c = time_evolution_for_term(op, t)
    require(op.terms == operator(h).terms, "the term was changed")
    (fs, coef), = h["terms"]
    require(c.n_qubits == (n if fs else 0), "qubits of the circuit", c)
    require({s.name for s in c.free_symbols} == (set(env or ()) if fs and coef else set()) or not coef, "free symbols", c)
    v = random_state(n, case["seed"])
    want = exp_on(fs, coef * case["t"], v, n)
    label(f"{len(fs)} factors, {'symbolic' if env else 'numeric'} time")
    require(ref.close(circuit_on(c, v, n, env), want, 1e-7), "exponential of the term (no phase)", op, t)
    if env:
        import sympy

        bound = c.bind({sympy.Symbol("tau"): env["tau"]})
        require(ref.close(circuit_on(bound, v, n), want, 1e-7), "after binding the time", op, t)
    two = operator({"terms": [[[[0, "Z"]], 1.0], [[[1, "X"]], 1.0]], "complex": False})
    raises(ValueError, lambda: time_evolution_for_term(two, t), "a sum as a single term")
    raises(ValueError, lambda: time_evolution_for_term(operator({"terms": [], "complex": False}), t), "zero as a single term")


@sub(evolution_cases(), quick=400, thorough=20000, rule="two or more non-constant terms", nt=lambda c: sum(1 for fs, _ in c["h"]["terms"] if fs) >= 2)
def products(case):
    from zquantum.core.evolution import time_evolution

    h = case["h"]
    n = width(h)
    t, env = time_argument(case)
    op = operator(h)
    c = time_evolution(op, t, trotter_order=case["steps"])
    require(op.terms == operator(h).terms and list(op.terms) == list(operator(h).terms), "the Hamiltonian was changed")
    used = any(fs for fs, _ in h["terms"])
    require(c.n_qubits == (n if used else 0), "qubits of the circuit", c)
    v = random_state(n, case["seed"])
    want = evolve(h["terms"], case["t"], case["steps"], v, n)
    label(f"{case['steps']} steps")
    require(ref.close(circuit_on(c, v, n, env), want, 1e-7), "ordered product of exponentials", op, t, case["steps"])
    if env:
        import sympy

        bound = c.bind({sympy.Symbol("tau"): env["tau"]})
        require(not bound.free_symbols and ref.close(circuit_on(bound, v, n), want, 1e-7), "after binding the time", op)
    if case["steps"] == 1:
        require(time_evolution(op, t) == c and time_evolution(op, t, "Trotter") == c, "one step is the default")
    raises(ValueError, lambda: time_evolution(op, t, method="Lie"), "unknown method")


@st.composite
def long_words(draw):
    n = draw(st.integers(5, 12))
    k = draw(st.sampled_from([n, n, n - 1, 2, n // 2]))
    fs = sorted([q, draw(st.sampled_from("XYZ"))] for q in draw(st.permutations(range(n)))[:k])
    return {
        "h": {"terms": [[fs, draw(coefs)]], "complex": draw(st.booleans())},
        "t": draw(times),
        "symbolic": draw(st.sampled_from([None, None, "t", "expr"])),
        "coef": draw(st.integers(-3, 3).map(lambda k: k / 2)),
        "seed": draw(st.integers(0, 10**6)),
        "shift": draw(st.sampled_from([0, 0, 3])),
    }


@sub(long_words(), quick=60, thorough=1500, rule="a word of eight factors or more", nt=lambda c: len(c["h"]["terms"][0][0]) >= 8)
def words_on_many_qubits(case):
    from zquantum.core.evolution import time_evolution, time_evolution_for_term

    t, env = time_argument(case)
    (fs, coef), = case["h"]["terms"]
    n = width(case["h"])
    v = random_state(n, case["seed"])
    want = exp_on(fs, coef * case["t"], v, n)
    for c in (time_evolution_for_term(operator(case["h"]), t), time_evolution(operator(case["h"]), t)):
        require(c.n_qubits == n, "qubits of the circuit", c)
        require(ref.close(circuit_on(c, v, n, env), want, 1e-7), "exponential of the term", fs, t)


@st.composite
def long_sums(draw):
    n = draw(st.integers(2, 6))
    terms = []
    for _ in range(draw(st.integers(5, 16))):
        w = sorted(draw(words(list(range(n)))))
        if w not in [x[0] for x in terms]:
            terms.append([w, draw(coefs)])
    return {"h": {"terms": terms, "complex": draw(st.booleans())}, "t": draw(times), "steps": draw(st.sampled_from([1, 2, 5, 11, 20])), "seed": draw(st.integers(0, 10**6))}


@sub(long_sums(), quick=40, thorough=1500, rule="nine terms or more, or ten steps or more", nt=lambda c: len(c["h"]["terms"]) >= 9 or c["steps"] >= 10)
def sums_of_many_terms(case):
    from zquantum.core.evolution import time_evolution

    n = width(case["h"])
    v = random_state(n, case["seed"])
    c = time_evolution(operator(case["h"]), case["t"], trotter_order=case["steps"])
    require(ref.close(circuit_on(c, v, n), evolve(case["h"]["terms"], case["t"], case["steps"], v, n), 1e-6), "ordered product of exponentials", case)


def commute(a, b):
    d = dict((q, p) for q, p in a)
    return sum(1 for q, p in b if q in d and d[q] != p) % 2 == 0


@sub(evolution_cases(max_q=4, min_q=2, max_terms=5, min_terms=3, kinds=("any", "basis", "basis", "pairs")), quick=180, thorough=10000, rule="two or more non-constant terms that all commute, not all diagonal", nt=lambda c: sum(1 for fs, _ in c["h"]["terms"] if fs) >= 2 and all(commute(a, b) for a, _ in c["h"]["terms"] for b, _ in c["h"]["terms"]) and any(a != "Z" for fs, _ in c["h"]["terms"] for _, a in fs))
def exact_propagators(case):
    """Commuting sums are evolved exactly; others within the error bound of the product formula."""
    from zquantum.core.evolution import time_evolution

    h = dict(case["h"])
    if case["seed"] % 3:  # keep only terms commuting with those before
        keep = []
        for fs, c in h["terms"]:
            if all(commute(fs, k[0]) for k in keep):
                keep.append([fs, c])
        h["terms"] = keep
    n = width(h)
    t = float(case["t"])
    mat = np.zeros((2**n, 2**n), dtype=complex)
    for fs, c in h["terms"]:
        mat += c * ref.pauli_matrix([tuple(f) for f in fs], n)
    w, u = np.linalg.eigh(mat)
    exact = u @ np.diag(np.exp(-1j * t * w)) @ u.conj().T
    circuit = time_evolution(operator(h), t, trotter_order=case["steps"])
    got = np.array([circuit_on(circuit, e, n) for e in np.eye(2**n, dtype=complex)]).T
    got = got * np.exp(-1j * t * sum(c for fs, c in h["terms"] if not fs))
    bound = t * t / (2 * case["steps"]) * sum(2 * abs(c * d) for i, (a, c) in enumerate(h["terms"]) for b, d in h["terms"][:i] if not commute(a, b))
    err = np.linalg.norm(got - exact, 2)
    label("commuting" if bound == 0 else "error bound below 0.5" if bound < 0.5 else "large error bound")
    require(err <= bound + 1e-6, "distance from the exact propagator", h["terms"], t, case["steps"], err, bound)


@st.composite
def derivative_cases(draw):
    c = draw(evolution_cases(max_q=4, min_q=draw(st.sampled_from([1, 2, 3])), max_terms=3, min_terms=draw(st.sampled_from([0, 2, 3]))))
    c["steps"] = draw(st.sampled_from([1, 2, 3, 4, 6]))
    c["obs"] = draw(hamiltonians(max_q=3, max_terms=3, min_terms=1, kinds=("any",)))
    return c


@sub(derivative_cases(), quick=220, thorough=15000, rule="two or more non-constant terms and two or more steps", nt=lambda c: sum(1 for fs, x in c["h"]["terms"] if fs and x) >= 2 and c["steps"] >= 2)
def derivatives(case):
    from zquantum.core.evolution import time_evolution_derivatives

    h, steps = case["h"], case["steps"]
    n = max(width(h), width(case["obs"]))
    obs = np.zeros((2**n, 2**n), dtype=complex)
    for fs, c in case["obs"]["terms"]:
        obs += c * ref.pauli_matrix([tuple(f) for f in fs], n)
    v = random_state(n, case["seed"])
    t, env = time_argument(case)
    op = operator(h)
    circuits, factors = time_evolution_derivatives(op, t, trotter_order=steps)
    require(op.terms == operator(h).terms, "the Hamiltonian was changed")
    require(len(circuits) == len(factors), "a factor for every circuit")
    got = 0
    for c, f in zip(circuits, factors):
        f = complex(f)
        require(abs(f.imag) < 1e-12, "real factors", f)
        psi = circuit_on(c, v, n, env)
        got += f.real * (psi.conj() @ obs @ psi).real
    psi = evolve(h["terms"], case["t"], steps, v, n)
    dpsi = np.zeros_like(v)
    seq = [x for _ in range(steps) for x in h["terms"]]
    for k, (fs, c) in enumerate(seq):
        if not fs:
            continue
        x = v
        for i, (gs, d) in enumerate(seq):
            x = exp_on(gs, d * case["t"] / steps, x, n)
            if i == k:
                x = -1j * c / steps * word_on(gs, x, n)
        dpsi = dpsi + x
    want = 2 * (dpsi.conj() @ obs @ psi).real
    label(f"{steps} steps, {'symbolic' if env else 'numeric'} time")
    if abs(want) > 1e-3:
        label("derivative not zero")
    require(abs(got - want) < 1e-6, "derivative of the expectation value", op, t, steps, got, want)
    if case["seed"] % 5 == 0:
        raises(ValueError, lambda: time_evolution_derivatives(op, t, method="Lie"), "unknown method")


@sub(st.tuples(gen.circuits(max_n=3, max_ops=4, min_ops=0, wrap=0), gen.circuits(max_n=3, max_ops=4, min_ops=0, wrap=0), st.integers(1, 14), st.integers(0, 14)), quick=100, thorough=4000, rule="two or more copies of a circuit with operations", nt=lambda c: c[2] >= 2 and c[0]["ops"] and c[3] < c[2])
def sequences(case):
    from zquantum.core.evolution import _generate_circuit_sequence

    a, b, length, position = case
    ca, cb = gen.build_circuit(a), gen.build_circuit(b)
    if position >= length:
        raises(ValueError, lambda: _generate_circuit_sequence(ca, cb, length, position), "position outside the sequence")
        return
    out = _generate_circuit_sequence(ca, cb, length, position)
    want = []
    for i in range(length):
        want += (cb if i == position else ca).operations
    require(out.operations == want, "sequence", out)
