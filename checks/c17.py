"""C17: sparse matrices, spectra and states agree with dense linear algebra."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated operators, states and symmetry sectors against dense Kronecker and occupation-number matrices and numpy eigenvalues"
ASSUMPTIONS = [
    "registers of up to 8 qubits or modes (plus the extra qubits asked for), of up to 11 for single columns, and spaces near a determinant of up to 40 modes",
    "spectra of non-Hermitian operators are compared through power sums (single eigenvalues are ill-conditioned)",
    "reference determinants are given as booleans with the stated number of electrons",
]


@st.composite
def operator_on_register(draw, n_max=5):
    kind = draw(st.sampled_from(["qubit", "qubit", "fermion", "fermion", "tensor"]))
    wide = n_max >= 5 and draw(st.integers(0, 3)) == 0
    n = draw(st.integers(6, 8)) if wide else draw(st.integers(1, n_max if kind != "tensor" else 4))
    o = draw(ops.operators("qubit" if kind == "qubit" else "fermion", n, max_terms=4, min_terms=0 if draw(st.integers(0, 9)) == 0 else 1, max_len=4))
    if kind == "tensor":
        terms = []
        for _ in range(draw(st.integers(0, 5))):
            k = draw(st.sampled_from([0, 1, 2]))
            terms.append([[[draw(st.integers(0, n - 1)), 1] for _ in range(k)] + [[draw(st.integers(0, n - 1)), 0] for _ in range(k)], draw(ops.coefs())])
        o = {"kind": "fermion", "terms": terms}
    return {"form": kind, "n": n, "op": o, "given": draw(st.booleans()), "extra": draw(st.integers(0, 2)), "zero_term": draw(st.integers(0, 5)) == 0}


def real_object(case):
    """(object, register size without n_qubits)."""
    from zquantum.core.openfermion.ops import InteractionOperator

    if case["form"] != "tensor":
        op = ops.build(case["op"])
        if case["zero_term"]:
            t = ((0, "Y"),) if case["form"] == "qubit" else ((0, 1), (0, 0))
            if t not in op.terms:
                op.terms[t] = 0.0
        return op, ops.width({"terms": [[t, 1] for t in op.terms]})
    n = case["n"]
    const, one, two = 0j, np.zeros((n, n), dtype=complex), np.zeros((n,) * 4, dtype=complex)
    for fs, c in case["op"]["terms"]:
        idx = tuple(f[0] for f in fs)
        c = complex(ops.coef_val(c))
        if not idx:
            const += c
        elif len(idx) == 2:
            one[idx] += c
        else:
            two[idx] += c
    return InteractionOperator(const, one, two), n


@sub(operator_on_register(), quick=400, thorough=10000, rule="two or more terms, one on two or more qubits or modes", nt=lambda c: len(c["op"]["terms"]) >= 2 and any(len({f[0] for f in fs}) >= 2 for fs, _ in c["op"]["terms"]))
def sparse_matrix(case):
    from zquantum.core.openfermion.linalg import get_sparse_operator

    op, width = real_object(case)
    n = width + case["extra"] if case["given"] else width
    m = get_sparse_operator(op, n) if case["given"] else get_sparse_operator(op)
    want = ops.matrix_on(case["op"], n)
    require(m.shape == (2**n, 2**n), "register size", m.shape, n)
    require(ref.close(m.toarray(), want), "sparse matrix differs", case["form"], op.terms if hasattr(op, "terms") else op.n_body_tensors, n)
    label(case["form"])
    if case["form"] == "qubit" and width:
        raises(ValueError, lambda: get_sparse_operator(op, width - 1), "a register that is too small")
    raises(TypeError, lambda: get_sparse_operator(want), "sparse matrix of a numpy array")


@st.composite
def ladders(draw):
    n = draw(st.integers(1, 9))
    return [n, draw(st.integers(0, n - 1)), draw(st.integers(0, 1))]


@sub(ladders(), quick=60, thorough=100, rule="two or more modes", nt=lambda c: c[0] >= 2)
def ladder_matrices(case):
    from zquantum.core.openfermion.linalg import jordan_wigner_ladder_sparse

    require(ref.close(jordan_wigner_ladder_sparse(*case).toarray(), ref.ladder(case[0], case[1], bool(case[2]))), "ladder operator", case)


@st.composite
def kron_lists(draw):
    return [[draw(st.integers(1, 3)), draw(st.integers(0, 99))] for _ in range(draw(st.integers(1, 4)))]


@sub(kron_lists(), quick=60, thorough=500, rule="two or more factors", nt=lambda c: len(c) >= 2)
def kronecker_products(case):
    import scipy.sparse
    from zquantum.core.openfermion.linalg import kronecker_operators, wrapped_kronecker

    mats = [np.random.RandomState(s).randint(-2, 3, (d, d)).astype(float) for d, s in case]
    want = np.eye(1)
    for m in mats:
        want = np.kron(want, m)
    got = kronecker_operators([scipy.sparse.csc_matrix(m) for m in mats])
    require(ref.close(got.toarray(), want), "Kronecker product", mats)
    if len(mats) == 2:
        require(ref.close(wrapped_kronecker(*[scipy.sparse.csc_matrix(m) for m in mats]).toarray(), want), "Kronecker product of two")


def hermitian(o, kind):
    back = [[[[i, a] if kind == "qubit" else [i, 1 - a] for i, a in reversed(f)], complex(ops.coef_val(c)).conjugate()] for f, c in o["terms"]]
    return {"kind": o["kind"], "terms": [list(t) for t in o["terms"]] + back}


@st.composite
def spectra(draw):
    c = draw(operator_on_register(4))
    return {**c, "hermitian": draw(st.integers(0, 3)) > 0, "guess": draw(st.one_of(st.none(), st.integers(0, 1000)))}


@sub(spectra(), quick=250, thorough=5000, rule="Hermitian with two or more terms", nt=lambda c: c["hermitian"] and len(c["op"]["terms"]) >= 2)
def spectra_and_ground_states(case):
    from zquantum.core.openfermion.linalg import eigenspectrum, get_ground_state, get_sparse_operator, sparse_eigenspectrum

    case = dict(case, zero_term=False)
    if case["hermitian"]:
        case["op"] = hermitian(case["op"], "qubit" if case["form"] == "qubit" else "fermion")
    op, width = real_object(case)
    n = width + case["extra"] if case["given"] else width
    got = eigenspectrum(op, n) if case["given"] else eigenspectrum(op)
    m = ops.matrix_on(case["op"], n)
    require(got.shape == (2**n,), "number of eigenvalues", got.shape, n)
    label(f"{case['form']} {'Hermitian' if case['hermitian'] else 'general'}")
    if case["hermitian"]:
        want = np.linalg.eigvalsh(m)
        require(ref.close(got, want, 1e-7), "spectrum", got, want)
        if n == 0:
            return
        s = get_sparse_operator(op, n)
        require(ref.close(sparse_eigenspectrum(s), want, 1e-7), "spectrum of the sparse matrix")
        guess = None if case["guess"] is None else np.random.RandomState(case["guess"]).randn(2**n) + 0j
        given = None if guess is None else guess.copy()
        energy, vec = get_ground_state(s, guess) if guess is not None else get_ground_state(s)
        require(guess is None or np.array_equal(given, guess), "the initial guess was changed")
        require(ref.close(s.toarray(), m), "the operator was changed")
        scale = max(1, np.max(np.abs(want)))
        require(abs(energy - want[0]) < 1e-8 * scale, "ground energy", energy, want[0])
        require(vec.shape == (2**n,) and abs(np.linalg.norm(vec) - 1) < 1e-8, "ground state is not a unit vector", vec)
        require(np.linalg.norm(m @ vec - want[0] * vec) < 1e-7 * scale, "not an eigenvector of the lowest eigenvalue", energy, vec)
        label(f"ground state on {n}")
    else:
        p = np.eye(2**n)
        scale = max(1, np.linalg.norm(m, 2))
        for k in (1, 2, 3):
            p = p @ m
            require(abs(np.sum(got**k) - np.trace(p)) < 1e-6 * 2**n * scale**k, f"power sum {k} of the eigenvalues", got)


def state_of(seed, n, zeros=False):
    r = np.random.RandomState(seed)
    v = r.randn(2**n) + 1j * r.randn(2**n)
    if zeros:
        v[r.rand(2**n) < 0.4] = 0
        if not np.any(v):
            v[0] = 1
    return v / np.linalg.norm(v)


@st.composite
def expectations(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
    return {
        "n": n,
        "op": draw(ops.operators("qubit", n, max_terms=4, min_terms=1, max_len=4)),
        "states": [draw(st.integers(0, 10**6)) for _ in range(draw(st.integers(1, 3)))],
        "weights": [draw(st.sampled_from([0.5, 0.25, 1.0, 0.125, 0.0005])) for _ in range(3)],
        "zeros": draw(st.booleans()),
    }


@sub(expectations(), quick=250, thorough=5000, rule="a term on two or more qubits and two or more states", nt=lambda c: len(c["states"]) >= 2 and any(len({f[0] for f in fs}) >= 2 for fs, _ in c["op"]["terms"]))
def expectation_values(case):
    import scipy.sparse.linalg
    from zquantum.core.openfermion import get_expectation_value, reverse_qubit_order
    from zquantum.core.openfermion.linalg import expectation, get_density_matrix, get_sparse_operator, inner_product
    from zquantum.core.wavefunction import Wavefunction

    n = case["n"]
    op = ops.build(case["op"])
    m = ops.matrix(case["op"], n)
    s = get_sparse_operator(op, n)
    states = [state_of(k, n, case["zeros"]) for k in case["states"]]
    keep = [v.copy() for v in states]
    w = np.array(case["weights"][: len(states)])
    w = w / w.sum()
    v = states[0]
    want = v.conj() @ m @ v
    require(ref.close(expectation(s, v), want), "expectation in a state", want)
    require(ref.close(expectation(s, v.reshape(-1, 1)), want), "expectation in a column vector", want)
    require(ref.close(expectation(scipy.sparse.linalg.aslinearoperator(s), v), want), "expectation of a linear operator", want)
    rho = sum(p * np.outer(x, x.conj()) for p, x in zip(w, states))
    d = get_density_matrix(states, list(w))
    require(ref.close(d.toarray(), rho), "density matrix", d.toarray())
    require(ref.close(expectation(s, d), np.trace(rho @ m)), "expectation in a mixed state")
    raises(ValueError, lambda: expectation(scipy.sparse.linalg.aslinearoperator(s), d), "linear operator with a density matrix")
    raises(ValueError, lambda: expectation(s, list(v)), "a state given as a list")
    require(ref.close(inner_product(states[0], states[-1]), np.vdot(states[0], states[-1])), "inner product")
    wf = Wavefunction(v)
    require(ref.close(get_expectation_value(op, wf), want), "get_expectation_value", want)
    # reversed qubit order: the same operator with qubit i called n-1-i
    perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
    vr = v[perm]
    require(ref.close(get_expectation_value(op, wf, reverse_operator=True), vr.conj() @ m @ vr), "get_expectation_value with reversed qubits")
    rev = reverse_qubit_order(op, n)
    require(ref.close(ops.obj_matrix(rev, n), m[np.ix_(perm, perm)]), "reverse_qubit_order", op.terms, rev.terms)
    ops.independent("reverse_qubit_order", rev, op)
    width = ops.width({"terms": [[t, 1] for t in op.terms]})
    if width:
        own = reverse_qubit_order(op)
        require(dict(own.terms) == dict(reverse_qubit_order(op, width).terms), "reverse_qubit_order without a size")
        raises(ValueError, lambda: reverse_qubit_order(op, width - 1), "reversing on too few qubits")
    require(all(np.array_equal(a, b) for a, b in zip(states, keep)), "the states were changed")


# ----- particle-number sectors -----------------------------------------------------------------------------


@st.composite
def number_operators(draw, n):
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
        acts = draw(st.permutations([1] * k + [0] * k))
        terms.append([[[draw(st.integers(0, n - 1)), a] for a in acts], draw(ops.coefs())])
    return {"kind": "fermion", "terms": terms}


@st.composite
def sectors(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
    return {"n": n, "op": draw(number_operators(n)), "particles": draw(st.integers(0, n)), "occ": draw(st.permutations(range(n)))[: draw(st.integers(0, n))], "derive": draw(st.booleans())}


def weight(i):
    return bin(i).count("1")


@sub(sectors(), quick=250, thorough=5000, rule="a sector of three or more states", nt=lambda c: 0 < c["particles"] < c["n"] and c["n"] >= 3)
def particle_number_sectors(case):
    from zquantum.core.openfermion.linalg import get_sparse_operator, jw_configuration_state, jw_get_ground_state_at_particle_number, jw_hartree_fock_state, jw_number_indices, jw_number_restrict_operator

    n, k = case["n"], case["particles"]
    op = ops.build(hermitian(case["op"], "fermion"))
    m = ops.matrix(hermitian(case["op"], "fermion"), n)
    s = get_sparse_operator(op, n)
    idx = jw_number_indices(k, n)
    require(sorted(idx) == [i for i in range(2**n) if weight(i) == k], "indices of the sector", idx)
    require(list(jw_number_indices(n + 1 + k, n)) == [], "a sector with more particles than modes is not empty", n)
    block = jw_number_restrict_operator(s, k) if case["derive"] else jw_number_restrict_operator(s, k, n)
    require(ref.close(block.toarray(), m[np.ix_(idx, idx)]), "restricted operator", block.toarray())
    require(ref.close(jw_number_restrict_operator(m, k, n), m[np.ix_(idx, idx)]), "restricted dense operator")
    energy, vec = jw_get_ground_state_at_particle_number(s, k)
    want = np.linalg.eigvalsh(m[np.ix_(idx, idx)])[0]
    scale = max(1, np.max(np.abs(m)))
    require(abs(energy - want) < 1e-8 * scale, "lowest energy in the sector", energy, want)
    require(abs(np.linalg.norm(vec) - 1) < 1e-8 and all(abs(vec[i]) < 1e-12 for i in range(2**n) if weight(i) != k), "ground state leaves the sector", vec)
    require(np.linalg.norm(m @ vec - want * vec) < 1e-7 * scale, "not an eigenvector", vec)
    occ = case["occ"]
    v = jw_configuration_state(occ, n)
    want_v = np.zeros(2**n)
    want_v[int("".join("1" if i in occ else "0" for i in range(n)), 2)] = 1
    require(np.array_equal(v, want_v), "configuration state", occ, v)
    hf = jw_hartree_fock_state(k, n)
    want_v = np.zeros(2**n)
    want_v[int("1" * k + "0" * (n - k), 2)] = 1
    require(np.array_equal(hf, want_v), "Hartree-Fock state", hf)
    wide = 12 + case["particles"]
    occ = sorted({(7 * i + case["n"]) % wide for i in case["occ"]} | {0, wide - 1})
    v = jw_configuration_state(occ, wide)
    require(v.shape == (2**wide,) and v[sum(1 << (wide - 1 - i) for i in occ)] == 1 and np.count_nonzero(v) == 1, "configuration state of a wide register", wide, occ)


@st.composite
def restricted(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]))
    spin = draw(st.booleans())
    k = draw(st.integers(0, n))
    how = draw(st.integers(0, 2))
    det = None
    if how == 1:
        det = draw(st.permutations([True] * k + [False] * (n - k)))
    elif how == 2:
        # given numbers of electrons of either spin
        na, nb = (n + 1) // 2, n // 2
        ka, kb = draw(st.integers(0, na)), draw(st.integers(0, nb))
        if ka and kb and draw(st.booleans()):
            ka, kb = draw(st.sampled_from([(0, kb), (1, kb), (ka, 0), (ka, 1)]))
        a = draw(st.permutations([True] * ka + [False] * (na - ka)))
        b = draw(st.permutations([True] * kb + [False] * (nb - kb)))
        det = [(b if i % 2 else a)[i // 2] for i in range(n)]
        k = ka + kb
    level = draw(st.one_of(st.none(), st.integers(0, 4)))
    o = draw(number_operators(n))
    if spin:
        # conserve Sz term by term: indices of the lowering part carry the spins of the raising part
        for fs, _ in o["terms"]:
            ups = [f for f in fs if f[1]]
            downs = [f for f in fs if not f[1]]
            for u, d in zip(ups, downs):
                if (u[0] - d[0]) % 2:
                    d[0] = u[0] % 2 + 2 * (d[0] // 2) if u[0] % 2 + 2 * (d[0] // 2) < n else u[0]
    return {"n": n, "k": k, "spin": spin, "det": det if det is None else list(det), "level": level, "op": o, "as_list": draw(st.booleans())}


@sub(restricted(), quick=350, thorough=8000, rule="three or more states in the space and a term moving particles", nt=lambda c: 0 < c["k"] < c["n"] and c["n"] >= 3 and any(len(fs) >= 2 for fs, _ in c["op"]["terms"]))
def number_preserving_sparse_operator(case):
    from zquantum.core.openfermion.linalg import get_number_preserving_sparse_operator
    from zquantum.core.openfermion.ops import FermionOperator

    n, k, spin, level = case["n"], case["k"], case["spin"], case["level"]
    op = ops.build(case["op"])
    before = dict(op.terms)
    det = case["det"]
    kwargs = {}
    if spin:
        kwargs["spin_preserving"] = True
    if det is not None:
        kwargs["reference_determinant"] = det if case["as_list"] else np.array(det)
    if level is not None:
        kwargs["excitation_level"] = level
    reference = det if det is not None else [i < k for i in range(n)]
    ref_index = int("".join("1" if b else "0" for b in reference), 2)
    # the basis, by the weight of every state under a labelling operator
    labels = FermionOperator()
    for i in range(n):
        labels += FermionOperator(((i, 1), (i, 0)), 1.0 * 2 ** (n - 1 - i))
    basis = np.rint(np.real(get_number_preserving_sparse_operator(labels, n, k, **kwargs).diagonal())).astype(int).tolist()
    expected = set()
    for i in range(2**n):
        b = ref.bits(i, n)
        if weight(i) != k:
            continue
        if spin and sum(b[::2]) != sum(reference[::2]):
            continue
        if level is not None and sum(1 for x, y in zip(b, reference) if y and not x) > level:
            continue
        expected.add(i)
    require(sorted(basis) == sorted(expected), "states of the restricted space", basis, sorted(expected), kwargs)
    require(basis[0] == ref_index, "the reference state is not the first", basis, reference)
    got = get_number_preserving_sparse_operator(op, n, k, **kwargs)
    want = ref.fermion_block([(fs, complex(ops.coef_val(c))) for fs, c in case["op"]["terms"]], basis, n)
    require(ref.close(got.toarray(), want), "restricted operator differs from the block of the full matrix", op.terms, got.toarray(), basis)
    require(op.terms == before, "the operator was changed")
    bad = op + FermionOperator(((0, 1),), 0.5)
    raises(ValueError, lambda: get_number_preserving_sparse_operator(bad, n, k, **kwargs), "a term that does not conserve the particle number")
    label(f"space of {len(basis)}")


# ----- operators from matrices and vectors -------------------------------------------------------------------


@st.composite
def matrices(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "op": draw(ops.operators("qubit", n, max_terms=4, min_terms=0, max_len=4)), "noise": draw(st.one_of(st.none(), st.integers(0, 1000))), "form": draw(st.sampled_from(["list", "array"]))}


@sub(matrices(), quick=100, thorough=2000, rule="two or more qubits", nt=lambda c: c["n"] >= 2)
def pauli_expansion_of_a_matrix(case):
    from zquantum.core.openfermion import get_qubitop_from_matrix

    n = case["n"]
    m = ops.matrix(case["op"], n)
    if case["noise"] is not None:
        r = np.random.RandomState(case["noise"])
        m = m + r.randn(2**n, 2**n) + 1j * r.randn(2**n, 2**n)
    got = get_qubitop_from_matrix(m.tolist() if case["form"] == "list" else m)
    require(ref.close(ops.obj_matrix(got, n), m, 1e-7), "the expansion is another matrix", got.terms)
    for bad in (m[:, :-1], m[:-1, :-1], np.zeros((3, 3)), np.zeros((6, 6))):
        if bad.shape in ((1, 1), (2, 2), (4, 4)):
            continue
        raises(Exception, lambda: get_qubitop_from_matrix(bad.tolist()), f"a matrix of shape {bad.shape}")


@st.composite
def label_lists(draw):
    n = draw(st.integers(1, 5))
    m = draw(st.integers(1, 6))
    return {"n": n, "labels": [[draw(st.integers(0, 3)) for _ in range(n)] for _ in range(m)], "coefs": [draw(st.sampled_from([0.5, -1.25, 2.0, 0.75])) for _ in range(m)], "values": [draw(st.floats(-1, 1)) for _ in range(m)], "seed": draw(st.integers(0, 99)), "locality": draw(st.integers(1, n)), "fixed": draw(st.booleans())}


@sub(label_lists(), quick=150, thorough=3000, rule="two or more terms", nt=lambda c: len(c["labels"]) >= 2)
def operators_from_labels(case):
    import random

    import zquantum.core.openfermion as of
    from zquantum.core.measurement import ExpectationValues
    from zquantum.core.openfermion import FermionOperator, IsingOperator, QubitOperator

    n = case["n"]
    op = of.get_qubitop_from_coeffs_and_labels(case["coefs"], case["labels"])
    want = sum(c * ref.pauli_matrix([(i, " XYZ"[a]) for i, a in enumerate(l) if a], n) for c, l in zip(case["coefs"], case["labels"]))
    require(ref.close(ops.obj_matrix(op, n), want), "operator from coefficients and labels", case, op.terms)
    values = np.array(case["values"][: len(op.terms)])
    total = sum(c.real * v for c, v in zip(op.terms.values(), values))
    got = of.evaluate_qubit_operator(op, ExpectationValues(values))
    require(abs(got - total) < 1e-9 and type(got).__name__ == "ValueEstimate", "evaluated operator", got, total)
    parts = [QubitOperator(t, c) for t, c in op.terms.items()]
    got = of.evaluate_qubit_operator_list([op] + parts, ExpectationValues(np.concatenate([values, values[::-1]])))
    both = total + sum(c.real * v for c, v in zip(op.terms.values(), values[::-1]))
    require(abs(got - both) < 1e-9, "evaluated list of operators", got, both)
    for circuit, term in zip(of.create_circuits_from_qubit_operator(op), op.terms):
        found = sorted((o.qubit_indices[0], o.gate.name) for o in circuit.operations)
        require(found == sorted(term), "circuit of a Pauli term", found, term)
    require(len(of.create_circuits_from_qubit_operator(op)) == len(op.terms), "number of circuits")
    zs = QubitOperator()
    for c, l in zip(case["coefs"], case["labels"]):
        zs += QubitOperator(tuple((i, "Z") for i, a in enumerate(l) if a), c)
    ising = of.change_operator_type(zs, IsingOperator)
    require(type(ising) is IsingOperator and dict(ising.terms) == dict(zs.terms), "changed operator type", ising.terms, zs.terms)
    back = of.change_operator_type(ising, QubitOperator)
    require(type(back) is QubitOperator and dict(back.terms) == dict(zs.terms), "changed back")
    for x in (ising, of.change_operator_type(zs, QubitOperator), of.change_operator_type(ising, IsingOperator)):
        ops.independent("change_operator_type", x, zs, ising) if x is not ising else ops.independent("change_operator_type", x, zs)
    # random operators
    room = 3**case["locality"]
    k = min(len(case["labels"]), room)
    random.seed(case["seed"])
    r = of.generate_random_qubitop(n, k, case["locality"], 1.5, case["fixed"])
    require(len(r.terms) == k and all(len(t) == case["locality"] for t in r.terms), "random operator: number or size of terms", r.terms)
    require(all(i < n for t in r.terms for i, _ in t), "random operator: qubits", r.terms)
    require(all(c == 1.5 if case["fixed"] else abs(c) <= 1.5 for c in r.terms.values()), "random operator: coefficients", r.terms)
    label("random " + ("fixed" if case["fixed"] else "uniform"))


# ----- wider registers and longer terms ------------------------------------------------------------------------


def random_term(rs, kind, n, m):
    acts = "XYZ" if kind == "qubit" else (0, 1)
    return tuple((int(q), acts[rs.randint(len(acts))]) for q in sorted(rs.permutation(n)[:m]))


def column(terms, kind, b, n):
    """{row: value} of the column b of the matrix of [(term, coefficient)]."""
    out = {}
    for term, c in terms:
        if kind == "fermion":
            r = ref.fermion_act(term, b, n)
            if r:
                out[r[1]] = out.get(r[1], 0) + c * r[0]
            continue
        i = b
        for q, a in term:
            bit = (b >> (n - 1 - q)) & 1
            c *= (1j if bit == 0 else -1j) if a == "Y" else -1 if a == "Z" and bit else 1
            if a != "Z":
                i ^= 1 << (n - 1 - q)
        out[i] = out.get(i, 0) + c
    return out


@sub(
    st.fixed_dictionaries({"kind": st.sampled_from(["qubit", "fermion"]), "n": st.sampled_from([8, 9, 10, 11]), "lengths": st.lists(st.integers(0, 12), min_size=2, max_size=5), "seed": st.integers(0, 10**6), "given": st.booleans(), "cplx": st.booleans()}),
    quick=20,
    thorough=400,
    rule="a term on eight or more qubits or modes",
    nt=lambda c: any(m >= 8 for m in c["lengths"]),
)
def wide_registers(case):
    """Sparse matrices of 8 to 11 qubits, of terms up to as long: random columns."""
    from zquantum.core.openfermion import FermionOperator, QubitOperator
    from zquantum.core.openfermion.linalg import expectation, get_sparse_operator

    n, kind = case["n"], case["kind"]
    rs = np.random.RandomState(case["seed"])
    terms = {}
    for m in case["lengths"]:
        terms[random_term(rs, kind, n, min(m, n))] = complex(round(rs.uniform(0.3, 2), 3), round(rs.uniform(-1, 1), 3) if case["cplx"] else 0)
    op = (QubitOperator if kind == "qubit" else FermionOperator)()
    for t, c in terms.items():
        op += type(op)(t, c)
    width = max([f[0] + 1 for t in terms for f in t], default=0)
    size = n if case["given"] else width
    m = (get_sparse_operator(op, n) if case["given"] else get_sparse_operator(op)).tocsc()
    require(m.shape == (2**size, 2**size), "register size", m.shape, size)
    for b in {0, 2**size - 1, *(int(x) for x in rs.randint(2**size, size=12))}:
        want = {i: v for i, v in column(list(terms.items()), kind, b, size).items() if abs(v) > 1e-12}
        col = m[:, b].tocoo()
        got = {int(i): complex(v) for i, v in zip(col.row, col.data) if abs(v) > 1e-12}
        require(set(got) == set(want) and all(abs(got[i] - want[i]) < 1e-9 for i in want), "a column of the sparse matrix differs", size, b, want, got)
    v = np.zeros(2**size, dtype=complex)
    picked = sorted({int(x) for x in rs.randint(2**size, size=4)})
    v[picked] = 1 / np.sqrt(len(picked))
    want = sum(val * v[b] * v[i].conjugate() for b in picked for i, val in column(list(terms.items()), kind, b, size).items())
    require(abs(expectation(m, v) - want) < 1e-9, "expectation in a state of few basis states", want)
    label(f"{kind} {n}")


@sub(
    st.fixed_dictionaries({
        "n": st.sampled_from([11, 12, 14, 16, 20, 24, 30, 33, 34, 40]), "k": st.sampled_from([0, 1, 2, 2, 3, 4, 5, 7, 10, 15]), "level": st.sampled_from([0, 1, 2, 2]), "spin": st.booleans(), "seed": st.integers(0, 10**6), "lengths": st.lists(st.integers(0, 3), min_size=2, max_size=4)}),
    quick=24,
    thorough=400,
    rule="a level of two",
    nt=lambda c: c["level"] >= 2 and c["k"] >= 2,
)
def wide_sectors(case):
    """Spaces near a reference determinant of 11 to 40 modes."""
    from zquantum.core.openfermion import FermionOperator
    from zquantum.core.openfermion.linalg import get_number_preserving_sparse_operator

    n, level, spin = case["n"], case["level"], case["spin"]
    if n > 16:
        level = min(level, 1)
    k = min(case["k"], n)
    rs = np.random.RandomState(case["seed"])
    det = [False] * n
    for q in rs.permutation(n)[:k]:
        det[int(q)] = True
    kwargs = {"reference_determinant": det, "excitation_level": level, "spin_preserving": spin}
    labels = FermionOperator()
    for i in range(n):
        labels += FermionOperator(((i, 1), (i, 0)), 1.0 * 2 ** (n - 1 - i))
    basis = np.rint(np.real(get_number_preserving_sparse_operator(labels, n, k, **kwargs).diagonal())).astype(int).tolist()
    full = [i for i in range(n) if det[i]]
    free = [i for i in range(n) if not det[i]]
    ref_index = sum(1 << (n - 1 - i) for i in full)
    want = set()
    for order in range(level + 1):
        for a in itertools.combinations(full, order):
            for b in itertools.combinations(free, order):
                if spin and sum(x % 2 for x in a) != sum(x % 2 for x in b):
                    continue
                want.add(ref_index + sum(1 << (n - 1 - i) for i in b) - sum(1 << (n - 1 - i) for i in a))
    require(sorted(basis) == sorted(want) and basis[0] == ref_index, "states of the restricted space", sorted(basis), sorted(want))
    terms = []
    for m in case["lengths"]:
        ups = [int(x) for x in rs.randint(n, size=m)]
        downs = [int(x) for x in (rs.choice(full, m) if full and rs.rand() < 0.7 else rs.randint(n, size=m))]
        if spin:
            downs = [d if (d - u) % 2 == 0 else (d + 1 if d + 1 < n else d - 1) for u, d in zip(ups, downs)]
        terms.append((tuple((u, 1) for u in ups) + tuple((d, 0) for d in downs), round(rs.uniform(0.3, 2), 3)))
    op = FermionOperator()
    for t, c in terms:
        op += FermionOperator(t, c)
    got = get_number_preserving_sparse_operator(op, n, k, **kwargs)
    require(ref.close(got.toarray(), ref.fermion_block(terms, basis, n)), "restricted operator differs", terms, det)
    label(f"{n} modes, space of {len(basis)}")


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([7, 8, 9]), "terms": st.integers(3, 8), "seed": st.integers(0, 10**6), "particles": st.integers(0, 9), "degenerate": st.booleans()}),
    quick=10,
    thorough=150,
    rule="eight or nine modes",
    nt=lambda c: c["n"] >= 8,
)
def wide_ground_states(case):
    """Lowest energies of 7 to 9 qubits, over all states and at a particle number, some of them degenerate."""
    from zquantum.core.openfermion import FermionOperator, QubitOperator
    from zquantum.core.openfermion.linalg import get_ground_state, get_sparse_operator, jw_get_ground_state_at_particle_number, jw_number_indices

    n, k = case["n"], min(case["particles"], case["n"])
    rs = np.random.RandomState(case["seed"])
    q = QubitOperator()
    for _ in range(case["terms"]):
        q += QubitOperator(random_term(rs, "qubit", n, rs.randint(1, 3 if case["degenerate"] else n)), round(rs.uniform(-2, 2), 2) or 0.5)
    s = get_sparse_operator(q, n)
    values = np.linalg.eigvalsh(s.toarray())
    energy, vec = get_ground_state(s)
    scale = max(1, np.max(np.abs(values)))
    require(abs(energy - values[0]) < 1e-8 * scale, "ground energy", energy, values[0])
    require(abs(np.linalg.norm(vec) - 1) < 1e-8 and np.linalg.norm(s @ vec - energy * vec) < 1e-7 * scale, "ground state is not a normalized eigenvector")
    f = FermionOperator()
    for _ in range(case["terms"]):
        a, b = (int(x) for x in rs.randint(n, size=2))
        c = round(rs.uniform(-2, 2), 2) or 0.5
        f += FermionOperator(((a, 1), (b, 0)), c) + FermionOperator(((b, 1), (a, 0)), c)
        f += FermionOperator(((a, 1), (a, 0), (b, 1), (b, 0)), round(rs.uniform(-2, 2), 2))
    s = get_sparse_operator(f, n)
    idx = [i for i in range(2**n) if weight(i) == k]
    require(sorted(jw_number_indices(k, n)) == idx, "indices of the sector")
    values = np.linalg.eigvalsh(s.toarray()[np.ix_(idx, idx)])
    energy, vec = jw_get_ground_state_at_particle_number(s, k)
    scale = max(1, np.max(np.abs(values)))
    require(abs(energy - values[0]) < 1e-8 * scale, "lowest energy in the sector", energy, values[0])
    out = np.ones(2**n, dtype=bool)
    out[idx] = False
    require(abs(np.linalg.norm(vec) - 1) < 1e-8 and not np.any(np.abs(vec[out]) > 1e-12), "the ground state leaves the sector")
    require(np.linalg.norm(s @ vec - energy * vec) < 1e-7 * scale, "not an eigenvector in the sector")
    label(f"{n} qubits")
