"""C19: Hamiltonian grouping and measurement-cost estimates are exact."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated operators, groupings, expectation values and states against the variance formulas and dense density matrices"
ASSUMPTIONS = [
    "a term with a coefficient below the library's tolerance of 1e-8 may be dropped",
    "coefficients are real numbers, possibly stored as complex numbers (Hamiltonians are Hermitian)",
    "density matrices come from states without coherence between particle numbers, on up to 4 modes",
    "observables of density matrices map to at most two-body terms, or are rejected",
]


def commute_qubitwise(s, t):
    d = dict(s)
    return all(d.get(i, a) == a for i, a in t)


@st.composite
def pauli_terms(draw, n, min_terms=0, max_terms=8, max_len=4):
    alphabet = draw(st.sampled_from(["XYZ", "XZ", "Z", "XYZ"]))
    terms = []
    for _ in range(draw(st.integers(min_terms, max_terms))):
        k = draw(st.integers(0, min(max_len, n)))
        qs = sorted(draw(st.permutations(range(n)))[:k])
        terms.append([[q, draw(st.sampled_from(alphabet))] for q in qs])
    return terms


@st.composite
def hamiltonians(draw):
    n = draw(st.integers(1, 5))
    terms = draw(pauli_terms(n, min_terms=draw(st.sampled_from([0, 1, 3, 5])), max_terms=10))
    coefs = [draw(st.one_of(st.sampled_from([1.0, -1.0, 0.5, -0.5, 2, 0.25]), st.floats(-3, 3).map(lambda x: round(x, 3)))) for _ in terms]
    far = draw(st.integers(0, 5)) == 0
    return {"terms": [[[[q + (100 if far else 0), a] for q, a in t], c] for t, c in zip(terms, coefs)], "sort": draw(st.booleans()), "complex": draw(st.booleans())}


def operator(terms, cplx=False):
    from zquantum.core.openfermion.ops import QubitOperator

    op = QubitOperator()
    for t, c in terms:
        op.terms[tuple((q, a) for q, a in t)] = complex(c) if cplx else c
    return op


@sub(hamiltonians(), quick=700, thorough=20000, rule="four or more terms, some of which cannot be measured together", nt=lambda c: len(c["terms"]) >= 4 and any(not commute_qubitwise(s, t) for (s, _), (t, _) in itertools.combinations(c["terms"], 2)))
def grouping(case):
    check_grouping(case)


def check_grouping(case):
    from zquantum.core.hamiltonian import get_decomposition_function, group_comeasureable_terms_greedy, is_comeasureable

    op = operator(case["terms"], case["complex"])
    before = list(op.terms.items())
    groups = group_comeasureable_terms_greedy(op, case["sort"]) if case["sort"] else group_comeasureable_terms_greedy(op)
    require(list(op.terms.items()) == before, "grouping changed the operator")
    found = [(t, c) for g in groups for t, c in g.terms.items()]
    for g in groups:
        ops.independent("a group", g, op, *[h for h in groups if h is not g])
    # adding a term with a negligible coefficient to an operator drops it
    nonzero = {t: c for t, c in before if abs(c) > 1e-8}
    require(len(found) == len(dict(found)) and {t: c for t, c in found if abs(c) > 1e-8} == nonzero and set(dict(found)) <= set(dict(before)), "the groups are not a partition of the terms", before, groups)
    require(all(type(g) is type(op) and g.terms for g in groups), "an empty group", groups)
    for i, g in enumerate(groups):
        for s, t in itertools.combinations(g.terms, 2):
            require(commute_qubitwise(s, t), "terms of a group cannot be measured together", s, t)
        if () in g.terms:
            require(len(g.terms) == 1 and i == len(groups) - 1, "the constant is not a group of its own at the end", groups)
            continue
        # greedy: a term opens or joins a later group only if it fits none of the earlier ones
        for t in g.terms:
            for h in groups[:i]:
                require(any(not commute_qubitwise(t, s) for s in h.terms), "a term would have fitted an earlier group", t, h, groups)
    if case["sort"]:
        rest = [g for g in groups if () not in g.terms]
        for g in rest:
            sizes = [abs(c) for c in g.terms.values()]
            require(sizes == sorted(sizes, reverse=True), "a group is not filled in order of magnitude", g)
        lead = [abs(next(iter(g.terms.values()))) for g in rest]
        require(lead == sorted(lead, reverse=True), "groups are not opened in order of magnitude", groups)
    name = "greedy-sorted" if case["sort"] else "greedy"
    again = get_decomposition_function(name)(op)
    require([list(g.terms.items()) for g in again] == [list(g.terms.items()) for g in groups], "decomposition by name", name)
    raises(ValueError, lambda: get_decomposition_function("greedy sorted"), "an unknown decomposition")
    for s, t in itertools.product(op.terms, repeat=2):
        require(bool(is_comeasureable(s, t)) == commute_qubitwise(s, t), "is_comeasureable", s, t)
    label(f"{len(groups)} groups")


def many_terms(case):
    """Sub-words of a few measurement bases, some of them changed in one place."""
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    bases = ["".join(r.choice(list("XYZ"), n)) for _ in range(case["bases"])]
    terms = []
    for _ in range(case["m"]):
        b = bases[r.randint(len(bases))]
        qs = sorted(r.permutation(n)[: r.randint(1, min(n, case["len"]) + 1)])
        t = [[int(q), b[q]] for q in qs]
        if r.rand() < case["change"]:
            t[r.randint(len(t))][1] = "XYZ"[r.randint(3)]
        if t not in terms:
            terms.append(t)
    # words at the end that clash with one earlier word of a base
    for _ in range(case["bases"]):
        q = int(r.randint(n))
        t = [[q, "XYZ"[("XYZ".index(bases[0][q]) + r.randint(1, 3)) % 3]]]
        if t not in terms:
            terms.append(t)
    if case["constant"]:
        terms.insert(r.randint(len(terms) + 1), [])
    return [[t, float(np.round(r.choice([-1, 1]) * r.uniform(0.01, 2), 4))] for t in terms]


large = st.fixed_dictionaries(
    {
        "n": st.one_of(st.integers(6, 24), st.sampled_from([40, 64])),
        "m": st.sampled_from([12, 20, 40, 60, 90, 150]),
        "bases": st.sampled_from([1, 1, 2, 3, 4]),
        "len": st.sampled_from([1, 1, 2, 3, 8, 24]),
        "change": st.sampled_from([0.0, 0.05, 0.3]),
        "constant": st.booleans(),
        "seed": st.integers(0, 10**6),
        "sort": st.booleans(),
        "complex": st.booleans(),
    }
)


@sub(large, quick=120, thorough=4000, rule="a group of nine terms or more is possible", nt=lambda c: c["m"] >= 20)
def grouping_of_many_terms(case):
    check_grouping(dict(case, terms=many_terms(case)))


@st.composite
def frames(draw):
    n = draw(st.integers(1, 4))
    groups = []
    for _ in range(draw(st.integers(1, 5))):
        terms = draw(pauli_terms(n, 0, 4))
        uniq = []
        for t in terms:
            if t not in uniq:
                uniq.append(t)
        groups.append([[t, draw(st.one_of(st.sampled_from([0.5, -1.0, 2, 0.0]), st.floats(-2, 2)))] for t in uniq])
    total = sum(len(g) for g in groups)
    vals = [draw(st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5]), st.floats(-1, 1))) for _ in range(total)]
    return {"groups": groups, "values": draw(st.sampled_from([None, vals])), "complex": draw(st.booleans()), "complex_values": draw(st.booleans()), "spoil": draw(st.sampled_from(["short", "long", "large", "small"]))}


@sub(frames(), quick=500, thorough=12000, rule="two or more groups with two or more terms each, expectation values given", nt=lambda c: c["values"] is not None and sum(len(g) >= 2 for g in c["groups"]) >= 2)
def measurement_cost(case):
    check_cost(case)


def check_cost(case):
    from zquantum.core.hamiltonian import compute_group_variances, estimate_nmeas_for_frames
    from zquantum.core.measurement import ExpectationValues

    groups = [operator(g, case["complex"]) for g in case["groups"]]
    before = [list(g.terms.items()) for g in groups]
    vals = case["values"]
    want = []
    pos = 0
    for g in case["groups"]:
        v = 0.0
        for t, c in g:
            if vals is None:
                v += c * c if t else 0
            else:
                v += c * c * (1 - vals[pos] ** 2)
                pos += 1
        want.append(v)
    want = np.array(want)
    given = lambda: None if vals is None else ExpectationValues(np.array([complex(v) for v in vals] if case["complex_values"] else vals))
    got = compute_group_variances(groups, given()) if vals is not None else compute_group_variances(groups)
    require(got.shape == want.shape and not np.iscomplexobj(got) and np.allclose(got, want, atol=1e-9), "group variances", case, got, want)
    k2, nterms, per_frame = estimate_nmeas_for_frames(groups, given()) if vals is not None else estimate_nmeas_for_frames(groups)
    sq = np.sqrt(np.maximum(want, 0))
    require(not isinstance(k2, complex) and abs(k2 - sq.sum() ** 2) < 1e-7 * max(1, sq.sum() ** 2), "number of measurements", k2, sq.sum() ** 2)
    require(np.shape(per_frame) == want.shape and not np.iscomplexobj(per_frame) and np.allclose(per_frame, sq.sum() * sq, rtol=1e-9, atol=1e-7), "measurements per group", per_frame)
    require(nterms == sum(len(g) for g in case["groups"]), "number of terms", nterms)
    require([list(g.terms.items()) for g in groups] == before, "the groups were changed")
    label("priors" if vals is not None else "no priors")
    if vals:
        bad = {"short": vals[:-1], "long": vals + [0.5], "large": vals[:-1] + [1.25], "small": [-1.25] + vals[1:]}[case["spoil"]]
        raises(ValueError, lambda: compute_group_variances(groups, ExpectationValues(np.array(bad))), f"expectation values that do not fit ({case['spoil']})")


def many_frames(case):
    r = np.random.RandomState(case["seed"])
    terms = many_terms(dict(case, sort=False))
    groups = [[] for _ in range(case["groups"])]
    for t, c in terms:
        groups[r.randint(len(groups))].append([t, c * 10.0 ** r.randint(-case["spread"], case["spread"] + 1)])
    vals = [float(v) for v in r.choice([0.0, 1.0, -1.0, 0.999, 0.3, -0.5, 0.01], len(terms))] if r.rand() < 0.7 else None
    return {"groups": groups, "values": vals, "complex": case["complex"], "complex_values": bool(r.randint(2)), "spoil": ["short", "long", "large", "small"][r.randint(4)]}


@sub(st.tuples(large, st.integers(1, 14), st.integers(0, 2)).map(lambda t: dict(t[0], groups=t[1], spread=t[2])), quick=80, thorough=3000, rule="nine groups or more", nt=lambda c: c["groups"] >= 9)
def cost_of_many_groups(case):
    check_cost(many_frames(case))


# ----- reduced density matrices -----------------------------------------------------------------------------------


@st.composite
def states(draw, n_max=4):
    """Mixtures of states with definite particle number."""
    n = draw(st.integers(1, n_max))
    if draw(st.integers(0, 4)) == 0:
        # two determinants of almost equal weight: tiny expectation values
        return {"n": n, "parts": [[draw(st.integers(0, n)), draw(st.integers(0, 10**6)), True, p] for p in (1.0, 1.001)]}
    return {"n": n, "parts": [[draw(st.integers(0, n)), draw(st.integers(0, 10**6)), draw(st.booleans()), draw(st.sampled_from([1.0, 0.5, 0.25, 0.001]))] for _ in range(draw(st.integers(1, 2)))]}


def density(case):
    n = case["n"]
    rho = np.zeros((2**n, 2**n), dtype=complex)
    total = sum(p[3] for p in case["parts"])
    for k, seed, single, p in case["parts"]:
        idx = [i for i in range(2**n) if bin(i).count("1") == k]
        r = np.random.RandomState(seed)
        v = np.zeros(2**n, dtype=complex)
        if single:
            v[idx[seed % len(idx)]] = 1
        else:
            v[idx] = r.randn(len(idx)) + 1j * r.randn(len(idx))
        v /= np.linalg.norm(v)
        rho += p / total * np.outer(v, v.conj())
    return rho


def rdm_tensors(rho, n):
    L = [[ref.ladder(n, i, False), ref.ladder(n, i, True)] for i in range(n)]
    one, two = np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for p, q in itertools.product(range(n), repeat=2):
        one[p, q] = np.trace(rho @ L[p][1] @ L[q][0])
    for p, q in itertools.combinations(range(n), 2):
        up = rho @ L[p][1] @ L[q][1]
        for r, s in itertools.combinations(range(n), 2):
            v = np.trace(up @ L[r][0] @ L[s][0])
            two[p, q, r, s] = two[q, p, s, r] = v
            two[q, p, r, s] = two[p, q, s, r] = -v
    return one, two


@st.composite
def observables(draw):
    s = draw(states())
    n = s["n"]
    terms = draw(pauli_terms(n, 1, 5))
    return {"state": s, "terms": [[t, draw(st.sampled_from([1.0, -0.5, 0.25, 2.0, -1.5]))] for t in terms], "sort": draw(st.booleans()), "seed": draw(st.integers(0, 999))}


def body(term, n):
    """Largest number of ladder operators that survive in the fermion form of a Pauli term."""
    from zquantum.core.openfermion import normal_ordered, reverse_jordan_wigner
    from zquantum.core.openfermion.ops import QubitOperator

    op = normal_ordered(reverse_jordan_wigner(QubitOperator(tuple(map(tuple, term)))))
    return max([len(t) for t, c in op.terms.items()], default=0)


@sub(observables(), quick=250, thorough=4000, rule="a non-product state and a term on two or more qubits", nt=lambda c: any(not p[2] and 0 < p[0] < c["state"]["n"] for p in c["state"]["parts"]) and any(len(t) >= 2 for t, _ in c["terms"]))
def expectations_from_density_matrices(case):
    from zquantum.core.hamiltonian import get_expectation_values_from_rdms, get_expectation_values_from_rdms_for_qubitoperator_list
    from zquantum.core.openfermion.ops import InteractionOperator, InteractionRDM
    from zquantum.core.openfermion.ops.representations.interaction_rdm import InteractionRDMError

    n = case["state"]["n"]
    rho = density(case["state"])
    one, two = rdm_tensors(rho, n)
    rdm = InteractionRDM(one, two)
    # fermionic observable
    r = np.random.RandomState(case["seed"])
    h1, h2 = r.randn(n, n), r.randn(n, n, n, n)
    got = rdm.expectation(InteractionOperator(0.75, h1, h2))
    m = 0.75 * np.eye(2**n, dtype=complex)
    for idx in itertools.product(range(n), repeat=2):
        m += h1[idx] * ref.fermion_term_matrix(list(zip(idx, (1, 0))), n)
    for idx in itertools.product(range(n), repeat=4):
        m += h2[idx] * ref.fermion_term_matrix(list(zip(idx, (1, 1, 0, 0))), n)
    require(abs(got - np.trace(rho @ m)) < 1e-7, "expectation of an interaction operator", got, np.trace(rho @ m))
    # Pauli observables
    op = operator([[t, c] for t, c in case["terms"]])
    before = list(op.terms.items())
    want = {t: np.trace(rho @ ref.pauli_matrix(list(t), n)).real for t in op.terms}
    sizes = {t: body(t, n) for t in op.terms}
    if max(sizes.values()) > 4:
        label("more than two-body")
        try:
            e = rdm.get_qubit_expectations(op)
        except InteractionRDMError:
            label("rejected")
            return
        require(all(abs(e.terms[t] - want[t]) < 1e-7 for t in want), "an accepted observable has another expectation value", op, e)
        return
    label("at most two-body")
    e = rdm.get_qubit_expectations(op)
    require(set(e.terms) == set(want) and all(abs(e.terms[t] - want[t]) < 1e-7 for t in want), "expectation values of the terms", op, e, want)
    total = sum(c * want[t] for t, c in op.terms.items())
    require(abs(rdm.expectation(op) - total) < 1e-7, "expectation of a qubit operator", total)
    ev = get_expectation_values_from_rdms(rdm, op, case["sort"]) if case["sort"] else get_expectation_values_from_rdms(rdm, op)
    order = [t for t, _ in sorted(op.terms.items(), key=lambda x: abs(x[1]), reverse=True)] if case["sort"] else list(op.terms)
    if case["sort"]:
        # terms of equal magnitude may come in any order
        sizes = [abs(op.terms[t]) for t in order]
        require(len(ev.values) == len(order), "number of values")
        for s in set(sizes):
            got = sorted(v for v, z in zip(ev.values, sizes) if z == s)
            require(np.allclose(got, sorted(want[t] for t in order if abs(op.terms[t]) == s), atol=1e-7), "values sorted by coefficient", ev.values, order)
    else:
        require(np.allclose(ev.values, [want[t] for t in order], atol=1e-7), "values in the order of the terms", ev.values, order)
    require(np.all(np.abs(ev.values) <= 1), "an expectation value outside [-1, 1]", ev.values)
    parts = [operator([[t, c]]) for t, c in op.terms.items()]
    lst = get_expectation_values_from_rdms_for_qubitoperator_list(rdm, parts[::-1] + [op])
    flat = [want[t] for t in list(op.terms)[::-1]] + [want[t] for t in op.terms]
    require(np.allclose(lst.values, flat, atol=1e-7), "values for a list of operators", lst.values, flat)
    require(list(op.terms.items()) == before and np.array_equal(rdm.one_body_tensor, one) and np.array_equal(rdm.two_body_tensor, two), "an argument was changed")
    try:
        rdm.expectation("X0")
    except Exception:
        pass
    else:
        require(False, "an observable of another type was accepted")


@st.composite
def determinants(draw):
    n = draw(st.integers(1, 3))
    return [draw(st.integers(0, n)), draw(st.integers(0, n)), n]


@sub(determinants(), quick=30, thorough=40, rule="one or more electrons", nt=lambda c: c[0] + c[1] > 0)
def hartree_fock_matrix(case):
    from zquantum.core.openfermion import hf_rdm

    a, b, orbitals = case
    n = 2 * orbitals
    occ = [int(i // 2 < (b if i % 2 else a)) for i in range(n)]
    v = np.zeros(2**n)
    v[int("".join(map(str, occ)), 2)] = 1
    rdm = hf_rdm(a, b, orbitals)
    one = np.diag(occ)
    two = np.zeros((n,) * 4)
    for p, q in itertools.permutations(range(n), 2):
        two[p, q, q, p] = occ[p] * occ[q]
        two[p, q, p, q] = -occ[p] * occ[q]
    require(np.array_equal(rdm.one_body_tensor, one) and np.array_equal(rdm.two_body_tensor, two), "Hartree-Fock density matrices", case)


@sub(states(3), quick=16, thorough=80, rule="a non-product state on two or more modes", nt=lambda c: c["n"] >= 2 and any(not p[2] for p in c["parts"]))
def density_matrix_from_measurements(case):
    """The density matrices assembled from the expectation values of all Pauli terms."""
    from zquantum.core.openfermion.measurements import get_interaction_rdm
    from zquantum.core.openfermion.ops import QubitOperator

    n = case["n"]
    rho = density(case)
    measured = QubitOperator()
    for word in itertools.product("IXYZ", repeat=n):
        term = tuple((i, a) for i, a in enumerate(word) if a != "I")
        measured.terms[term] = np.trace(rho @ ref.pauli_matrix(list(term), n)).real
    one, two = rdm_tensors(rho, n)
    for args in ((measured, n), (measured,)):
        rdm = get_interaction_rdm(*args)
        require(np.allclose(rdm.one_body_tensor, one, atol=1e-8), "one-body density matrix", rdm.one_body_tensor, one)
        require(np.allclose(rdm.two_body_tensor, two, atol=1e-8), "two-body density matrix")


@st.composite
def ground_states(draw):
    n = draw(st.integers(2, 3))
    return {"n": n, "seed": draw(st.integers(0, 9999)), "particles": draw(st.integers(0, n)), "real": draw(st.booleans())}


@sub(ground_states(), quick=20, thorough=80, rule="neither empty nor full", nt=lambda c: 0 < c["particles"] < c["n"])
def ground_state_density_matrix(case):
    from zquantum.core.openfermion import get_ground_state_rdm_from_qubit_op, jordan_wigner
    from zquantum.core.openfermion.ops import FermionOperator

    n, k = case["n"], case["particles"]
    r = np.random.RandomState(case["seed"])
    op = FermionOperator((), 0.5)
    for i in range(n):
        op += FermionOperator(((i, 1), (i, 0)), 1.3 + r.randn())
        for j in range(i):
            c = r.randn() + (0 if case["real"] else 1j * r.randn())
            op += FermionOperator(((i, 1), (j, 0)), c) + FermionOperator(((j, 1), (i, 0)), np.conj(c))
            op += FermionOperator(((i, 1), (j, 1), (j, 0), (i, 0)), r.randn())
    m = ops.obj_matrix(op, n, "fermion")
    idx = [i for i in range(2**n) if bin(i).count("1") == k]
    w, v = np.linalg.eigh(m[np.ix_(idx, idx)])
    rdm = get_ground_state_rdm_from_qubit_op(jordan_wigner(op), k)
    if len(w) > 1 and w[1] - w[0] < 1e-3:
        label("near-degenerate")
        return
    vec = np.zeros(2**n, dtype=complex)
    vec[idx] = v[:, 0]
    one, two = rdm_tensors(np.outer(vec, vec.conj()), n)
    require(np.allclose(rdm.one_body_tensor, one, atol=1e-5), "one-body density matrix of the ground state", rdm.one_body_tensor, one)
    require(np.allclose(rdm.two_body_tensor, two, atol=1e-5), "two-body density matrix of the ground state")
