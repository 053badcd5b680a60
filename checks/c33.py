"""C33: published contracts, random test objects and example functions."""
import itertools
import unittest

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated conforming and faulty estimators against the published contracts, generated sizes and seeds for the random-object generators against the structure they promise, an equivalence-relation model for the equality tester, closed-form gradients"
ASSUMPTIONS = [
    "an estimator is called faulty only for the faults the contracts name: a missing or extra result, results in another order, coefficients or constants ignored",
    "random matrices up to 6 x 6, interaction operators on up to 4 orbitals",
]

# ---- contracts ------------------------------------------------------------------------------------
FAULTS = ["drop", "extra", "order", "copy", "copy", "coefficients", "constants"]


@st.composite
def estimators(draw):
    fault = draw(st.sampled_from([None, None, *FAULTS]))
    return {
        "base": draw(st.sampled_from(["library", "own"])),
        "how": draw(st.sampled_from(["all", "one by one", "backwards", "halves"])),
        "shape": draw(st.sampled_from(["as is", "as is", "total", "scaled", "shifted", "empty"])),
        "scale": draw(st.sampled_from([2.0, -1.0, 0.125, 1e-3])),
        "as": draw(st.sampled_from(["list", "tuple"])),
        "fault": fault,
        "where": draw(st.sampled_from([2, 0, 1])),
        "perm": draw(st.permutations(range(3)).filter(lambda p: list(p) != [0, 1, 2])),
        "unit": draw(st.sampled_from([1.0, -2.0, 0.3])),
        "again": draw(st.permutations(range(4))),
    }


def own_values(task):
    """Values of the terms, constants included, with dense matrices."""
    n = max([task.circuit.n_qubits, *(i + 1 for t in task.operator.terms for i, _ in t)])
    v = np.zeros(2**n, dtype=complex)
    v[0] = 1
    for o in task.circuit.operations:
        v = ref.apply_matrix(np.array(o.gate.matrix, dtype=complex), o.qubit_indices, v, n)
    out = []
    for t, c in task.operator.terms.items():
        m = ops.term_matrix("ising", t, n)
        out.append(complex(c * (v.conj() @ m @ v)).real)
    return np.array(out)


def make_estimator(d):
    from zquantum.core.estimation import calculate_exact_expectation_values
    from zquantum.core.interfaces.estimation import EstimationTask
    from zquantum.core.measurement import ExpectationValues

    def base(backend, tasks):
        if d["base"] == "library":
            return list(calculate_exact_expectation_values(backend, tasks))
        return [ExpectationValues(own_values(t)) for t in tasks]

    def changed(task):
        op = task.operator
        terms = dict(op.terms)
        if d["fault"] == "coefficients":
            terms = {t: d["unit"] for t in terms}
        if d["fault"] == "constants":
            terms = {t: c for t, c in terms.items() if t}
        new = type(op)()
        new.terms = terms
        return EstimationTask(new, task.circuit, task.number_of_shots)

    def estimator(backend, estimation_tasks):
        tasks = list(estimation_tasks)
        if d["fault"] in ("coefficients", "constants"):
            tasks = [changed(t) for t in tasks]
        n = len(tasks)
        if d["how"] == "all":
            out = base(backend, tasks)
        elif d["how"] == "one by one":
            out = [base(backend, [t])[0] for t in tasks]
        elif d["how"] == "backwards":
            out = base(backend, tasks[::-1])[::-1]
        else:
            out = (base(backend, tasks[: n // 2]) if n // 2 else []) + base(backend, tasks[n // 2 :])
        vals = [np.array(o.values, dtype=float) for o in out]
        if d["shape"] == "total":
            vals = [np.array([v.sum()]) for v in vals]
        elif d["shape"] == "scaled":
            vals = [v * d["scale"] for v in vals]
        elif d["shape"] == "shifted":
            vals = [v + d["scale"] for v in vals]
        if d["shape"] == "empty" and d["fault"] == "coefficients":
            vals = [np.array([]) for _ in vals]
        out = [ExpectationValues(v) for v in vals]
        if len(out) == 3:
            if d["fault"] == "drop":
                del out[d["where"]]
            elif d["fault"] == "extra":
                out.insert(d["where"], out[d["where"]])
            elif d["fault"] == "order":
                out = [out[i] for i in d["perm"]]
            elif d["fault"] == "copy":
                out[d["where"]] = out[(d["where"] + 1 + (d["perm"][0] > 0)) % 3]
        return out if d["as"] == "list" else tuple(out)

    return estimator


@sub(estimators(), quick=100, thorough=2000, rule="a faulty estimator", nt=lambda d: d["fault"] is not None)
def estimator_contracts(d):
    from zquantum.core.interfaces.estimator_contract import ESTIMATOR_CONTRACTS

    require(len(ESTIMATOR_CONTRACTS) >= 4, "contracts are missing", len(ESTIMATOR_CONTRACTS))
    est = make_estimator(d)
    label(d["fault"] or "conforming")
    if d["fault"] in ("drop", "extra"):
        require(not ESTIMATOR_CONTRACTS[0](est), "an estimator with a missing or extra result is accepted", d)
        return
    verdicts = {}
    for i in d["again"]:
        verdicts[i] = bool(ESTIMATOR_CONTRACTS[i](est))
    want = {"order": {1: False, 0: True, 2: True, 3: True}, "copy": {1: False, 0: True, 2: True, 3: True}, "coefficients": {2: False, 0: True, 1: True}, "constants": {3: False, 0: True, 1: True, 2: True}, None: {0: True, 1: True, 2: True, 3: True}}[d["fault"]]
    for i, w in want.items():
        require(verdicts[i] == w, f"contract {i} says {verdicts[i]} of an estimator with fault {d['fault']}", d)
    if d["fault"] is None:
        require(all(c(est) for c in ESTIMATOR_CONTRACTS), "a conforming estimator is rejected", d)


# ---- random circuits, operators and states ----------------------------------------------------------
@sub(st.fixed_dictionaries({"n": st.integers(2, 8), "m": st.sampled_from([0, 1, 2, 7, 60]), "seed": st.integers(0, 10**6)}), quick=60, thorough=1500, rule="seven gates or more", nt=lambda d: d["m"] >= 7)
def random_circuits(d):
    import warnings

    from zquantum.core.circuits._testing import create_random_circuit

    one, param = {"X", "Y", "Z", "H", "S", "T"}, {"RX", "RY", "RZ", "PHASE"}
    two, both = {"CNOT", "CZ", "SWAP"}, {"CPHASE"}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c, again = (create_random_circuit(d["n"], d["m"], np.random.default_rng(d["seed"])) for _ in range(2))
        other = create_random_circuit(d["n"], d["m"], np.random.default_rng(d["seed"] + 1))
    require(len(c.operations) == d["m"], "number of gates", len(c.operations), d)
    require(c == again, "the same seed gives another circuit", c, again)
    if d["m"] >= 7:
        require(c != other, "another seed gives the same circuit", c)
    for o in c.operations:
        name = o.gate.name
        require(name in one | param | two | both, "unknown gate", name)
        require(len(o.qubit_indices) == (1 if name in one | param else 2) == len(set(o.qubit_indices)), "qubits of a gate", o)
        require(all(type(q) is int and 0 <= q < d["n"] for q in o.qubit_indices), "qubits outside the register", o)
        require(len(o.params) == (name in param | both) and all(-np.pi <= p <= np.pi for p in o.params), "parameters of a gate", o)
    require(c.n_qubits <= d["n"], "register", c.n_qubits)
    if d["m"] >= 60:
        names = {o.gate.name for o in c.operations}
        require(all(names & s for s in (one, param, two, both)), "a kind of gate never occurs", names)
        used = {o.qubit_indices for o in c.operations}
        require({q for t in used for q in t} == set(range(d["n"])) or d["n"] > 5, "a qubit is never used", used)
        require(any(t[0] > t[1] for t in used if len(t) == 2) and any(t[0] < t[1] for t in used if len(t) == 2), "pairs of qubits in one order only", used)


@sub(st.fixed_dictionaries({"n": st.integers(1, 7), "m": st.sampled_from([0, 1, 3, 12, 40]), "seed": st.integers(1, 10**6), "body": st.integers(0, 6)}), quick=80, thorough=2000, rule="three terms or more", nt=lambda d: d["m"] >= 3)
def random_operators_and_states(d):
    import random

    from zquantum.core.openfermion.ops import IsingOperator, QubitOperator
    from zquantum.core.openfermion.testing import random_qubit_operator
    from zquantum.core.testing import create_random_isingop, create_random_qubitop, create_random_wavefunction

    n, m, seed = d["n"], d["m"], d["seed"]
    for make, C, letters in ((create_random_qubitop, QubitOperator, "XYZ"), (create_random_isingop, IsingOperator, "Z")):
        op = make(n, m, seed)
        require(type(op) is C, "type of the random operator", type(op))
        require(abs(sum(op.terms.values()) - m) < 1e-9 and all(c > 0 and c == round(c) for c in op.terms.values()), "number of terms", op, m)
        require(all(a in letters and 0 <= i < n for t in op.terms for i, a in t), "factors of the random operator", op)
        require(make(n, m, seed).terms == op.terms, "the same seed gives another operator")
        random.seed(seed)
        require(make(n, m).terms == op.terms, "seeding beforehand differs from the seed given")
        if m == 40 and n >= 3:
            require(len({len(t) for t in op.terms}) >= 2, "terms of one length only", op)
            require({a for t in op.terms for _, a in t} == set(letters), "a letter never occurs", op)
    w, v = create_random_wavefunction(n, seed), create_random_wavefunction(n, seed)
    a = np.array(w.amplitudes, dtype=complex)
    require(w.n_qubits == n and a.shape == (2**n,), "register of the random state", n)
    require(abs(np.sum(np.abs(a) ** 2) - 1) < 1e-9, "norm of the random state")
    require(np.array_equal(a, np.array(v.amplitudes, dtype=complex)), "the same seed gives another state")
    require(not np.allclose(a, np.array(create_random_wavefunction(n, seed + 1).amplitudes, dtype=complex)), "another seed gives the same state")
    before = np.random.get_state()[1].copy()
    op = random_qubit_operator(n, max(m, 1), d["body"], seed)
    require(np.array_equal(before, np.random.get_state()[1]), "a seeded operator disturbs the global generator")
    require(type(op) is QubitOperator and len(op.terms) <= max(m, 1), "number of terms", op)
    require(all(len(t) <= d["body"] and all(0 <= i < n for i, _ in t) for t in op.terms), "terms of the random operator", op, d)
    require(random_qubit_operator(n, max(m, 1), d["body"], seed).terms == op.terms, "the same seed gives another operator")


@sub(st.fixed_dictionaries({"n": st.integers(1, 6), "real": st.booleans(), "seed": st.integers(0, 10**6)}), quick=80, thorough=2000, rule="two rows or more", nt=lambda d: d["n"] >= 2)
def random_matrices(d):
    from zquantum.core.openfermion.testing import random_antisymmetric_matrix, random_hermitian_matrix, random_unitary_matrix

    n, real, seed = d["n"], d["real"], d["seed"]
    for make, law in (
        (random_antisymmetric_matrix, lambda m: m.T + m),
        (random_hermitian_matrix, lambda m: m.conj().T - m),
        (random_unitary_matrix, lambda m: m.conj().T @ m - np.eye(n)),
    ):
        m = make(n, real, seed)
        require(m.shape == (n, n) and np.max(np.abs(law(m))) < 1e-9, f"{make.__name__} lacks its property", m)
        require(np.iscomplexobj(m) != real, f"{make.__name__}: real or complex", m.dtype)
        require(np.array_equal(m, make(n, real, seed)), f"{make.__name__}: the same seed gives another matrix")
        np.random.seed(seed)
        require(np.array_equal(m, make(n, real)), f"{make.__name__}: seeding beforehand differs from the seed given")
        if n > 1:
            require(not np.allclose(m, make(n, real, seed + 1)), f"{make.__name__}: another seed gives the same matrix")
        if n > 1 and not real:
            require(np.max(np.abs(m.imag)) > 1e-6, f"{make.__name__}: no imaginary part", m)


@sub(st.fixed_dictionaries({"n": st.integers(1, 4), "real": st.booleans(), "seed": st.integers(0, 10**6), "order": st.integers(1, 6)}), quick=50, thorough=1000, rule="two orbitals or more", nt=lambda d: d["n"] >= 2)
def random_interaction_operators(d):
    from zquantum.core.openfermion.ops import InteractionOperator
    from zquantum.core.openfermion.testing import random_interaction_operator, random_interaction_operator_term
    from zquantum.core.openfermion.utils import is_hermitian

    n, real, seed = d["n"], d["real"], d["seed"]
    op = random_interaction_operator(n, real=real, seed=seed)
    one, two = op.one_body_tensor, op.two_body_tensor
    require(type(op) is InteractionOperator and one.shape == (n, n) and two.shape == (n,) * 4, "shape", d)
    require(np.isreal(op.constant), "constant", op.constant)
    require(np.allclose(one, one.conj().T), "one-body part is not Hermitian", one)
    require(np.allclose(two, two.conj().transpose(3, 2, 1, 0)) and np.allclose(two, two.transpose(1, 0, 3, 2)), "two-body part lacks its symmetries", d)
    if real:
        require(np.max(np.abs(np.imag(one))) == 0 == np.max(np.abs(np.imag(two))), "not real", d)
        require(np.allclose(two, two.transpose(2, 1, 0, 3)) and np.allclose(two, two.transpose(0, 3, 2, 1)), "two-body part lacks the real symmetries", d)
    elif n >= 3:
        require(np.max(np.abs(two.imag)) > 1e-6, "two-body part is real", d)
    require(np.count_nonzero(two) == n**4 and np.count_nonzero(one) == n**2, "vanishing entries", d)
    if n <= 3:
        require(is_hermitian(op), "not Hermitian", d)
    again = random_interaction_operator(n, real=real, seed=seed)
    require(again == op and again.constant == op.constant, "the same seed gives another operator")
    wide = random_interaction_operator(n, expand_spin=True, real=real, seed=seed)
    require(wide.constant == op.constant and np.allclose(wide.one_body_tensor, np.kron(one, np.eye(2))), "spin-expanded one-body part", d)
    for p, q, r, s in itertools.product(range(2 * n), repeat=4):
        want = two[p // 2, q // 2, r // 2, s // 2] if p % 2 == s % 2 and q % 2 == r % 2 else 0
        require(abs(wide.two_body_tensor[p, q, r, s] - want) < 1e-12, "spin-expanded two-body part", d, (p, q, r, s))
    k = d["order"]
    term = random_interaction_operator_term(k, real, seed)
    require(term.constant == 0 and term.one_body_tensor.shape == (k, k), "operator on a number of orbitals", k)
    if k > 4:
        require(not np.any(term.one_body_tensor) and not np.any(term.two_body_tensor), "operator on too many orbitals", k)
        return
    full = random_interaction_operator(k, real=real, seed=seed)
    for rank, got, all_ in ((2, term.one_body_tensor, full.one_body_tensor), (4, term.two_body_tensor, full.two_body_tensor)):
        for idx in itertools.product(range(k), repeat=rank):
            require(got[idx] == (all_[idx] if len(set(idx)) == k else 0), "entries on a number of orbitals", k, idx)


# ---- equality tester ----------------------------------------------------------------------------------
class Thing:
    def __init__(self, key, hashed=None, eq="key"):
        self.key, self.hashed, self.how = key, hashed, eq

    def __eq__(self, other):
        if self.how == "never":
            return False
        if not isinstance(other, Thing):
            return self.how == "everything" or NotImplemented
        if self.how == "left":
            return True
        if self.how == "everything" or self.key == other.key:
            return True
        # an exception to transitivity
        return getattr(self, "also", None) == other.key or getattr(other, "also", None) == self.key

    def __ne__(self, other):
        if self.how == "ne broken":
            return True
        if self.how == "left":
            return not isinstance(other, Thing)
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.key if self.hashed is None else self.hashed)


@st.composite
def equality_groups(draw):
    keys = draw(st.lists(st.integers(0, 6), min_size=1, max_size=5))
    return {
        "groups": [[k, draw(st.integers(1, 3))] for k in keys],
        "kind": draw(st.sampled_from(["thing", "thing", "int", "list", "tuple"])),
        "flaw": draw(st.sampled_from([None, None, None, "hash", "never", "ne broken", "everything", "stranger", "left", "right", "chain", "chain"])),
        "at": draw(st.integers(0, 4)),
        "pair": draw(st.booleans()),
    }


@sub(equality_groups(), quick=300, thorough=3000, rule="two groups or more", nt=lambda d: len(d["groups"]) >= 2)
def equality_tester(d):
    from zquantum.core.openfermion.testing import EqualsTester

    make = {"thing": lambda k: Thing(k), "int": lambda k: k, "list": lambda k: [k, str(k)], "tuple": lambda k: (k, str(k))}[d["kind"]]
    t = EqualsTester(unittest.TestCase())
    seen = set()
    for i, (k, m) in enumerate(d["groups"]):
        items = [make(k) for _ in range(m)]
        flawed = d["flaw"] is not None and i == d["at"] % len(d["groups"])
        if flawed:
            f = d["flaw"]
            label(f"flaw: {f}")
            if f == "hash":
                items = [Thing(k), Thing(k, hashed=k + 1)]
            elif f in ("left", "right"):
                # equal in one direction only
                items = [Thing(k, eq="left"), Thing(k + 10, hashed=k)][:: 1 if f == "left" else -1]
            elif f == "chain":
                # equal to an element of an earlier group, not to the first one
                if not i or d["groups"][0][0] == k:
                    return
                items = [Thing(k) for _ in range(m)]
                t = EqualsTester(unittest.TestCase())
                odd = Thing(d["groups"][0][0])
                odd.also = k
                t.add_equality_group(Thing(d["groups"][0][0]), odd)
            elif f == "stranger":
                items = items + [make(k + 10)]
            else:
                items = [Thing(k, eq=f) for _ in range(m)]
        if flawed or k in seen:
            raises(AssertionError, lambda: t.add_equality_group(*items), f"flawed or overlapping group {k} accepted")
            return
        seen.add(k)
        if d["pair"]:
            t.make_equality_pair(lambda: make(k))
        else:
            t.add_equality_group(*items)
    label("accepted")


# ---- example functions --------------------------------------------------------------------------------
@sub(
    st.fixed_dictionaries({"x": st.lists(st.integers(-40, 40).map(lambda v: v / 8), min_size=3, max_size=3), "k": st.integers(-6, 6), "i": st.integers(0, 300)}),
    quick=100,
    thorough=2000,
    rule="no coordinate is zero",
    nt=lambda d: all(d["x"]),
)
def example_functions(d):
    from zquantum.core.history import example_functions as ex

    p, k, i = np.array(d["x"]), d["k"], d["i"]
    x, y, z = d["x"]
    require(ex.sum_of_squares(p) == x * x + y * y + z * z == ex.sum_of_squares(d["x"]), "sum of squares", p)
    require(ex.function_1(p) == x**2 - x * y and list(ex.function_1.gradient(p)) == [2 * x - y, -x], "first function or its gradient", p)
    f = ex.Function2(k)
    require(f(p) == k * (x - x * y + z**2) and list(f.gradient(p)) == [k * (1 - y), -k * x, 2 * k * z], "second function or its gradient", p, k)
    require(f == ex.Function2(k) and f != ex.Function2(k + 1) and f != ex.Function5(k), "equality of functions")
    for fn, forced in ((ex.function_3, {}), (ex.function_4, {"force": i % 2 == 0})):
        got = []
        require(fn(i, store_artifact=lambda *a, **kw: got.append((a, kw))) == 2 * i == fn(i), "function storing artifacts", i)
        require(got == [(("bitstring", format(i, "b")), forced)], "stored artifacts", got)
    for g, a in ((ex.Function5(k), k), (ex.function_6, 5)):
        got = []
        require(g(p, store_artifact=lambda *a, **kw: got.append((a, kw))) == a * x * y * z == g(p), "fifth function", p)
        require(got == ([(("something", x + y), {})] if x > 0 else []), "stored artifacts", got, p)
        require(list(g.gradient(p)) == [a * y * z, a * x * z, a * x * y], "gradient of the fifth function", p)
    require(list(p) == d["x"], "the parameters were changed")
