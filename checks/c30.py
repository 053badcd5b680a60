"""C30: model and chemistry Hamiltonians equal their defining sums."""
import gc
import itertools
import math
import os
import random

import numpy as np
from hypothesis import strategies as st

from pbt import ref
from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated grids, integrals, orbital choices and amplitudes against the defining sums acting on occupation states and in dense matrices, round trips with injected failures for molecule files"
ASSUMPTIONS = [
    "grids of up to 36 modes compared on all states of at most 2 particles (which determines operators of at most two-body terms)",
    "integrals for up to 3 spatial orbitals, coefficients away from the library's 1e-8 cut-off",
]

# --- operators acting on occupation states -------------------------------------------------------


def act(terms, state):
    """{frozenset of occupied modes: amplitude} after the operator {factors: coefficient}."""
    out = {}
    for factors, c in terms.items():
        occ, amp = set(state), complex(c)
        for mode, up in reversed(factors):
            if (mode in occ) == bool(up):
                break
            if sum(1 for m in occ if m < mode) % 2:
                amp = -amp
            if up:
                occ.add(mode)
            else:
                occ.remove(mode)
        else:
            k = frozenset(occ)
            out[k] = out.get(k, 0) + amp
    return out


def states(n, k):
    for m in range(k + 1):
        yield from itertools.combinations(range(n), m)


def same_action(terms, want, n, particles=2, tol=1e-9):
    """None or a state on which the operator and the function want(state) differ."""
    for s in states(n, particles):
        a, b = act(terms, s), want(frozenset(s))
        for k in set(a) | set(b):
            if abs(a.get(k, 0) - b.get(k, 0)) > tol:
                return f"{sorted(s)} -> {sorted(k)}: {a.get(k, 0)} instead of {b.get(k, 0)}"
    return None


# --- Hubbard --------------------------------------------------------------------------------------

numbers = st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 2.0, -0.5]), st.floats(-4, 4).map(lambda x: round(x, 4)))


@st.composite
def grids(draw):
    spinless = draw(st.booleans())
    small = st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6])
    x, y = draw(small), draw(small)
    while x * y > (25 if spinless else 12):
        x, y = (x - 1, y) if x >= y else (x, y - 1)
    return {
        "x": x, "y": y, "spinless": spinless, "periodic": draw(st.booleans()), "phs": draw(st.booleans()),
        "t": draw(numbers), "u": draw(numbers), "mu": draw(numbers), "h": draw(numbers),
        "defaults": draw(st.integers(0, 5)) == 0,
    }


def grid_edges(x, y, periodic):
    """Pairs of neighbouring sites (row by row numbering), each once."""
    out = set()
    for a in range(x):
        for b in range(y):
            for da, db in ((1, 0), (0, 1)):
                a2, b2 = a + da, b + db
                if periodic:
                    a2, b2 = a2 % x, b2 % y
                if a2 < x and b2 < y and (a2, b2) != (a, b):
                    out.add(frozenset((b * x + a, b2 * x + a2)))
    return [tuple(sorted(e)) for e in out]


@sub(grids(), quick=160, thorough=1500, rule="a grid with neighbours and a hopping or interaction", nt=lambda d: d["x"] * d["y"] > 1 and (d["t"] or d["u"]))
def hubbard(d):
    from zquantum.core.openfermion.hamiltonians import fermi_hubbard

    x, y, t, u, mu, h = (d[k] for k in ("x", "y", "t", "u", "mu", "h"))
    if d["defaults"]:
        op, mu, h, periodic, spinless, phs = fermi_hubbard(x, y, t, u), 0, 0, True, False, False
        if 2 * x * y > 24:
            return
    else:
        periodic, spinless, phs = d["periodic"], d["spinless"], d["phs"]
        op = fermi_hubbard(x, y, t, u, mu, h, periodic, spinless, phs)
    for text in ("spinless" if spinless else "spinful", "periodic" if periodic else "open", "particle-hole" if phs else "plain"):
        label(text)
    if periodic and 2 in (x, y):
        label("periodic dimension of size 2")
    edges = grid_edges(x, y, periodic)
    sites = x * y
    n = sites if spinless else 2 * sites
    shift = 0.5 if phs else 0
    neighbours = {}
    for i, j in edges:
        for a, b in ((i, j), (j, i)):
            if spinless:
                neighbours.setdefault(a, []).append(b)
            else:
                for s in (0, 1):
                    neighbours.setdefault(2 * a + s, []).append(2 * b + s)

    def want(occ):
        diag = 0.0
        if spinless:
            for i, j in edges:
                diag += u * ((i in occ) - shift) * ((j in occ) - shift)
            diag -= mu * len(occ)
        else:
            for i in range(sites):
                up, down = 2 * i in occ, 2 * i + 1 in occ
                diag += u * (up - shift) * (down - shift) - mu * (up + down) - h * (up - down)
        out = {occ: complex(diag)}
        for m in occ:
            for v in neighbours.get(m, []):
                if v not in occ:
                    lo, hi = min(m, v), max(m, v)
                    sign = (-1) ** sum(1 for k in occ if lo < k < hi)
                    k = (occ - {m}) | {v}
                    out[k] = out.get(k, 0) - t * sign
        return out

    bad = same_action(op.terms, want, n)
    require(bad is None, "the Hubbard model has another matrix element", bad)
    if spinless and not d["defaults"]:
        other = fermi_hubbard(x, y, t, u, mu, h + 1.25, periodic, spinless, phs)
        require(other == op, "the magnetic field contributes to a spinless model")


@sub(
    st.fixed_dictionaries({"x": st.integers(1, 3), "y": st.integers(1, 3), "re": numbers, "im": numbers, "u": numbers, "spinless": st.booleans(), "periodic": st.booleans()}),
    quick=40, thorough=400, rule="a complex hopping amplitude and neighbours", nt=lambda d: d["im"] and d["x"] * d["y"] > 1,
)
def hubbard_complex(d):
    """A complex amplitude still gives a Hermitian operator with one pair of terms per edge."""
    from zquantum.core.openfermion.hamiltonians import fermi_hubbard

    t = complex(d["re"], d["im"])
    op = fermi_hubbard(d["x"], d["y"], t, d["u"], periodic=d["periodic"], spinless=d["spinless"])
    hops = {k: c for k, c in op.terms.items() if len(k) == 2 and k[0][0] != k[1][0]}
    for ((i, a), (j, b)), c in hops.items():
        require((a, b) == (1, 0), "a hopping term of another form", i, j)
        back = hops.get(((j, 1), (i, 0)))
        require(back is not None and abs(back - np.conj(c)) < 1e-12, "the hopping terms are not Hermitian conjugates", (i, j, c, back))
        require(min(abs(c + t), abs(c + t.conjugate())) < 1e-12, "a hopping term with another coefficient", c, t)
    if abs(t) > 1e-6:
        want = 2 * len(grid_edges(d["x"], d["y"], d["periodic"])) * (1 if d["spinless"] else 2)
        require(len(hops) == want, "another number of hopping terms", len(hops), want)


@sub(
    st.fixed_dictionaries({"n": st.integers(0, 6), "mode": st.one_of(st.none(), st.integers(0, 5)), "c": st.one_of(numbers, st.tuples(numbers, numbers).map(list)), "i": st.integers(0, 5), "j": st.integers(0, 5), "parity": st.sampled_from([-1, -1, -1, 1, 0, 2])}),
    quick=100, thorough=600, rule="a nonzero coefficient", nt=lambda d: bool(d["c"]),
)
def number_operators(d):
    from zquantum.core.openfermion.hamiltonians import general_hubbard
    from zquantum.core.openfermion.hamiltonians.special_operators import number_operator

    c = complex(*d["c"]) if isinstance(d["c"], list) else d["c"]
    if d["parity"] != -1:
        if d["mode"] is not None or d["n"]:
            raises(ValueError, lambda: number_operator(d["n"], d["mode"], c, d["parity"]), "number operators other than fermionic ones are accepted")
    else:
        op = number_operator(d["n"], d["mode"], c, -1)
        modes = range(d["n"]) if d["mode"] is None else [d["mode"]]
        bad = same_action(op.terms, lambda s: {s: complex(c) * sum(m in s for m in modes)}, 6)
        require(bad is None, "the number operator counts otherwise", bad)
    i, j = d["i"], d["j"]
    for phs in (False, True):
        sh = 0.5 if phs else 0
        bad = same_action(general_hubbard.number_operator(i, c, phs).terms, lambda s: {s: c * ((i in s) - sh)}, 6)
        require(bad is None, "the (shifted) number operator has another matrix element", phs, bad)
        bad = same_action(general_hubbard.interaction_operator(i, j, c, phs).terms, lambda s: {s: c * ((i in s) - sh) * ((j in s) - sh)}, 6, 3)
        require(bad is None, "the interaction operator has another matrix element", phs, bad)


# --- integrals ------------------------------------------------------------------------------------


def integrals(m, seed, symmetric=True, scale=1.0):
    """Random real integrals in the convention h[p,q,r,s] = <pq|sr>, with eightfold symmetry."""
    r = np.random.RandomState(seed)
    one = np.round(r.uniform(-1, 1, (m, m)), 3) * scale
    two = np.round(r.uniform(-1, 1, (m,) * 4), 3) * scale
    if symmetric:
        one = one + one.T
        # chemist order (ps|qr) from h[p,q,r,s]
        g = two.transpose(0, 3, 1, 2)
        g = g + g.transpose(1, 0, 2, 3)
        g = g + g.transpose(0, 1, 3, 2)
        g = g + g.transpose(2, 3, 0, 1)
        two = np.ascontiguousarray(g.transpose(0, 2, 3, 1)) / 8
    return one, two


def dense(constant, one, two, n):
    """constant + sum one a†a + sum two a†a†aa."""
    out = constant * np.eye(2**n, dtype=complex)
    up = [ref.ladder(n, k, True) for k in range(n)]
    down = [ref.ladder(n, k, False) for k in range(n)]
    for p, q in itertools.product(range(n), repeat=2):
        if one[p, q]:
            out += one[p, q] * (up[p] @ down[q])
    pairs = {(r, s): down[r] @ down[s] for r in range(n) for s in range(n)}
    for p, q in itertools.product(range(n), repeat=2):
        inner = sum((two[p, q, r, s] * pairs[r, s] for r in range(n) for s in range(n) if two[p, q, r, s]), np.zeros((2**n, 2**n)))
        out += up[p] @ up[q] @ inner
    return out


def spatial_dense(constant, one, two):
    """The spin-free Hamiltonian: constant + sum h E + 1/2 sum g a†_ps a†_qt a_rt a_ss'."""
    m = one.shape[0]
    n = 2 * m
    so, tw = np.zeros((n,) * 2), np.zeros((n,) * 4)
    for p, q in itertools.product(range(m), repeat=2):
        for s in (0, 1):
            so[2 * p + s, 2 * q + s] = one[p, q]
    for p, q, r, s in itertools.product(range(m), repeat=4):
        for a in (0, 1):
            for b in (0, 1):
                tw[2 * p + a, 2 * q + b, 2 * r + b, 2 * s + a] = two[p, q, r, s] / 2
    return dense(constant, so, tw, n), so, tw


@st.composite
def index_sets(draw, m):
    order = draw(st.permutations(list(range(m))))
    a = draw(st.integers(1, m))
    c = draw(st.integers(0, m - a))
    return {"active": order[:a], "occupied": order[a:a + c], "none": c == 0 and draw(st.booleans())}


@st.composite
def molecules(draw, max_m=3):
    m = draw(st.sampled_from([1, 2, 2, 3, 3][: 3 if max_m == 2 else 5]))
    return {"m": m, "seed": draw(st.integers(0, 10**6)), "constant": draw(numbers), "sets": draw(index_sets(m)), "scale": draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])), "zeros": draw(st.booleans())}


def build_integrals(d, symmetric=True):
    one, two = integrals(d["m"], d["seed"], symmetric, d["scale"])
    if d["zeros"]:
        one[np.abs(one) < 0.5 * d["scale"]] = 0
        two[np.abs(two) < 0.3 * d["scale"]] = 0
    return one, two


@sub(molecules(), quick=45, thorough=500, rule="an orbital left out of the active ones", nt=lambda d: len(d["sets"]["active"]) < d["m"])
def active_space(d):
    """The active-space Hamiltonian is the compression of the full one to a doubly occupied core."""
    from zquantum.core.openfermion.chem.molecular_data import MolecularData
    from zquantum.core.openfermion.ops.representations import get_active_space_integrals, get_tensors_from_integrals

    one, two = build_integrals(d)
    keep = one.copy(), two.copy()
    m, active, occupied = d["m"], d["sets"]["active"], d["sets"]["occupied"]
    args = (None if d["sets"]["none"] else list(occupied), list(active))
    core, one_a, two_a = get_active_space_integrals(one, two, *args)
    require(one_a.shape == (len(active),) * 2 and two_a.shape == (len(active),) * 4, "active integrals of another shape")
    t1, t2 = get_tensors_from_integrals(one_a, two_a)
    full, _, _ = spatial_dense(d["constant"], one, two)
    n, na = 2 * m, 2 * len(active)
    # embed: active state -> full state. Ordering signs: move the active modes in their order to
    # the front; core pairs are even and commute with everything.
    modes = [2 * p + s for p in active for s in (0, 1)]
    core_modes = [2 * p + s for p in occupied for s in (0, 1)]
    v = np.zeros((2**n, 2**na), dtype=complex)
    for idx in range(2**na):
        occ = [modes[k] for k in range(na) if (idx >> (na - 1 - k)) & 1]
        state, sign = frozenset(), 1
        for mode in reversed(occ):
            if sum(1 for k in state if k < mode) % 2:
                sign = -sign
            state = state | {mode}
        target = sum(1 << (n - 1 - k) for k in list(state) + core_modes)
        v[target, idx] = sign
    want = v.conj().T @ full @ v
    got = dense(d["constant"] + core, t1, t2, na)
    tol = 1e-7 * max(1.0, d["scale"])
    require(np.allclose(got, want, atol=tol), "the active-space Hamiltonian is not the restriction of the full one", float(np.max(np.abs(got - want))))
    require(np.array_equal(one, keep[0]) and np.array_equal(two, keep[1]), "the integrals were modified")
    with scratch():
        mol = MolecularData([("H", (0, 0, 0)), ("H", (0, 0, 0.7))], "sto-3g", 1, filename=os.path.abspath("x"))
        mol.one_body_integrals, mol.two_body_integrals, mol.nuclear_repulsion = one, two, d["constant"]
        ham = mol.get_molecular_hamiltonian(*args)
        require(np.allclose(dense(ham.constant, ham.one_body_tensor, ham.two_body_tensor, na), want, atol=tol), "the Hamiltonian of the molecule is not the restriction of the full one")
        whole = mol.get_molecular_hamiltonian()
        require(np.allclose(dense(whole.constant, whole.one_body_tensor, whole.two_body_tensor, n), full, atol=tol), "the Hamiltonian of the molecule differs from the sum of its integrals")
        c2, o2, w2 = mol.get_active_space_integrals(*args)
        require(abs(c2 - core) < tol and np.array_equal(o2, one_a) and np.array_equal(w2, two_a), "the molecule gives other active integrals")
        raises(ValueError, lambda: mol.get_active_space_integrals(list(occupied), []), "an empty active space is accepted")
    raises(ValueError, lambda: get_active_space_integrals(one, two, list(occupied), []), "an empty active space is accepted")


@sub(molecules(), quick=60, thorough=600, rule="at least 2 orbitals", nt=lambda d: d["m"] > 1)
def tensors(d):
    """Spin-orbital tensors of any integrals (also without symmetries), and derived matrices."""
    from zquantum.core.openfermion.chem import molecular_data as md
    from zquantum.core.openfermion.ops.representations import get_tensors_from_integrals

    one, two = build_integrals(d, symmetric=False)
    m = d["m"]
    keep = one.copy(), two.copy()
    _, so, tw = spatial_dense(0, one, two)
    t1, t2 = get_tensors_from_integrals(one, two)
    s1, s2 = md.spinorb_from_spatial(one, two)
    require(np.array_equal(t1, so) and np.allclose(t2, tw, rtol=1e-13, atol=0), "tensors of integrals with other elements")
    require(np.array_equal(s1, so) and np.allclose(s2, 2 * tw, rtol=1e-13, atol=0), "spin-orbital integrals with other elements")
    anti = md.antisymtei(two)
    j, k = md.j_mat(two), md.k_mat(two)
    for p, q in itertools.product(range(m), repeat=2):
        require(abs(j[p, q] - two[p, q, q, p]) < 1e-12 and abs(k[p, q] - two[p, q, p, q]) < 1e-12, "another Coulomb or exchange integral", p, q)
        for r, s in itertools.product(range(m), repeat=2):
            require(abs(anti[p, q, r, s] - (two[p, q, s, r] - two[p, q, r, s])) < 1e-12, "another antisymmetrized integral")
    with scratch():
        mol = md.MolecularData("custom", "sto-3g", 1, filename=os.path.abspath("x"))
        for f in (mol.get_j, mol.get_k, mol.get_antisym, mol.get_integrals):
            raises(md.MissingCalculationError, f, "missing integrals are accepted")
        mol.one_body_integrals, mol.two_body_integrals = one, two
        require(np.array_equal(mol.get_j(), j) and np.array_equal(mol.get_k(), k), "the molecule gives another Coulomb or exchange matrix")
        a2 = mol.get_antisym()
        require(np.allclose(a2, s2.transpose(0, 1, 3, 2) - s2), "the molecule gives other antisymmetrized integrals")
        i1, i2 = mol.get_integrals()
        require(np.array_equal(i1, one) and np.array_equal(i2, two), "the molecule gives other integrals")
    require(np.array_equal(one, keep[0]) and np.array_equal(two, keep[1]), "the integrals were modified")


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([2, 3, 4, 4, 5]), "seed": st.integers(0, 10**6), "constant": numbers, "electrons": st.integers(2, 5), "hermitian": st.booleans(), "complex": st.booleans()}),
    quick=50, thorough=500, rule="a sector that exists", nt=lambda d: d["electrons"] <= d["n"],
)
def reduced(d):
    from zquantum.core.openfermion.chem.reduced_hamiltonian import make_reduced_hamiltonian
    from zquantum.core.openfermion.ops.representations import InteractionOperator

    n, e = d["n"], d["electrons"]
    r = np.random.RandomState(d["seed"])
    one, two = np.round(r.uniform(-1, 1, (n, n)), 3), np.round(r.uniform(-1, 1, (n,) * 4), 3)
    if d["complex"]:
        one, two = one + 1j * np.round(r.uniform(-1, 1, (n, n)), 3), two + 1j * np.round(r.uniform(-1, 1, (n,) * 4), 3)
        label("complex")
    if d["hermitian"]:
        one, two = one + one.conj().T, two + two.transpose(3, 2, 1, 0).conj()
    op = InteractionOperator(d["constant"], one.copy(), two.copy())
    red = make_reduced_hamiltonian(op, e)
    require(not np.any(red.one_body_tensor), "the reduced Hamiltonian has one-body terms")
    require(np.array_equal(op.one_body_tensor, one) and np.array_equal(op.two_body_tensor, two) and op.constant == d["constant"], "the Hamiltonian was modified")
    if e > n:
        return
    a, b = dense(d["constant"], one, two, n), dense(red.constant, red.one_body_tensor, red.two_body_tensor, n)
    sector = [k for k in range(2**n) if bin(k).count("1") == e]
    x, y = a[np.ix_(sector, sector)], b[np.ix_(sector, sector)]
    require(np.allclose(x, y, atol=1e-9), "the reduced Hamiltonian differs on the sector", float(np.max(np.abs(x - y))))


# --- coupled cluster --------------------------------------------------------------------------------


@st.composite
def amplitudes(draw):
    n = draw(st.integers(1, 6))
    r = random.Random(draw(st.integers(0, 10**6)))
    amp = lambda: r.choice([0.5, -0.25, 1.5, round(r.uniform(-2, 2), 3), 1, -2])
    singles = [[[r.randrange(n), r.randrange(n)], amp()] for _ in range(draw(st.integers(0, 4)))]
    doubles = [[[r.randrange(n) for _ in range(4)], amp()] for _ in range(draw(st.integers(0, 4)))]
    return {"n": n, "singles": singles, "doubles": doubles, "form": draw(st.sampled_from(["list", "array"])), "anti": draw(st.booleans())}


@sub(amplitudes(), quick=90, thorough=800, rule="some amplitudes", nt=lambda d: d["singles"] and d["doubles"])
def uccsd(d):
    from zquantum.core.openfermion.circuits import uccsd_convert_amplitude_format, uccsd_generator

    n = d["n"]
    if d["form"] == "list":
        single, double = d["singles"], d["doubles"]
        pairs1, pairs2 = single, double
    else:
        single, double = np.zeros((n,) * 2), np.zeros((n,) * 4)
        for i, t in d["singles"]:
            single[tuple(i)] = t
        for i, t in d["doubles"]:
            double[tuple(i)] = t
        pairs1 = [[list(i), single[i]] for i in np.ndindex(*single.shape) if single[i]]
        pairs2 = [[list(i), double[i]] for i in np.ndindex(*double.shape) if double[i]]
        l1, l2 = uccsd_convert_amplitude_format(single, double)
        plain = lambda l: sorted(([int(x) for x in i], float(t)) for i, t in l)
        require(plain(l1) == plain(pairs1) and plain(l2) == plain(pairs2), "converted amplitudes differ", l1, l2)
    gen = uccsd_generator(single, double, anti_hermitian=d["anti"])
    if d["anti"]:
        require(uccsd_generator(single, double) == gen, "the generator is not anti-Hermitian by default")
    want = np.zeros((2**n, 2**n), dtype=complex)
    for (i, j), t in pairs1:
        want += t * ref.fermion_term_matrix(((i, 1), (j, 0)), n)
    for (i, j, k, l), t in pairs2:
        want += t * ref.fermion_term_matrix(((i, 1), (j, 0), (k, 1), (l, 0)), n)
    if d["anti"]:
        want = want - want.conj().T
        label("anti-Hermitian")
    got = np.zeros_like(want)
    for term, c in gen.terms.items():
        got += complex(c) * ref.fermion_term_matrix(term, n)
    require(np.allclose(got, want, atol=1e-7), "the generator differs from its sum")


@st.composite
def singlet_cases(draw):
    n = draw(st.sampled_from([2, 4, 4, 6, 6, 8]))
    return {"n": n, "electrons": draw(st.one_of(st.integers(0, n), st.integers(1, max(1, n - 2)), st.integers(2, max(2, n - 2)))), "seed": draw(st.integers(0, 10**6)), "anti": draw(st.sampled_from([True, True, False])), "zeros": draw(st.booleans())}


def spin_operators(n):
    """Matrices of N, Sz and S²."""
    up = [ref.ladder(n, k, True) for k in range(n)]
    down = [ref.ladder(n, k, False) for k in range(n)]
    num = sum(up[k] @ down[k] for k in range(n))
    sz = sum((0.5 if k % 2 == 0 else -0.5) * up[k] @ down[k] for k in range(n))
    sp = sum(up[2 * k] @ down[2 * k + 1] for k in range(n // 2))
    return num, sz, sp.conj().T @ sp + sz @ sz + sz


def excitation(v, o):
    return [((2 * v + s, 1), (2 * o + s, 0)) for s in (0, 1)]


@sub(singlet_cases(), quick=70, thorough=600, rule="occupied and virtual orbitals", nt=lambda d: 0 < d["electrons"] <= d["n"] - 2)
def uccsd_singlet(d):
    from zquantum.core.openfermion.circuits import uccsd_singlet_generator, uccsd_singlet_get_packed_amplitudes, uccsd_singlet_paramsize

    n, e = d["n"], d["electrons"]
    occ = (e + 1) // 2
    pairs = [(v, o) for v in range(occ, n // 2) for o in range(occ)]
    combos = list(itertools.combinations(range(len(pairs)), 2))
    size = uccsd_singlet_paramsize(n, e)
    require(size == 2 * len(pairs) + len(combos), "another number of amplitudes", size)
    r = random.Random(d["seed"])
    amps = [0.0 if d["zeros"] and r.random() < 0.4 else r.choice([1, -1]) * round(r.uniform(0.1, 2), 4) for _ in range(size)]
    gen = uccsd_singlet_generator(list(amps), n, e, anti_hermitian=d["anti"])
    if d["anti"]:
        require(uccsd_singlet_generator(amps, n, e) == gen, "the generator is not anti-Hermitian by default")
    raises(ValueError, lambda: uccsd_singlet_generator(amps, n + 1, e), "an odd number of spin orbitals is accepted")
    raises(ValueError, lambda: uccsd_singlet_paramsize(n - 1, e), "an odd number of spin orbitals is accepted")
    want = {}

    def add(term, c):
        want[term] = want.get(term, 0) + c

    for i, (v, o) in enumerate(pairs):
        for s in (0, 1):
            a, b = excitation(v, o)[s], excitation(v, o)[1 - s]
            add(a, amps[i])
            add(a + b, amps[len(pairs) + i])
    for k, (i, j) in enumerate(combos):
        for a in excitation(*pairs[i]):
            for b in excitation(*pairs[j]):
                add(a + b, amps[2 * len(pairs) + k])
    if d["anti"]:
        for term, c in list(want.items()):
            add(tuple((m, 1 - x) for m, x in reversed(term)), -c)
    if n <= 6:
        m = lambda terms: sum((complex(c) * ref.fermion_term_matrix(t, n) for t, c in terms.items()), np.zeros((2**n, 2**n), dtype=complex))
        got = m(gen.terms)
        require(np.allclose(got, m(want), atol=1e-7), "the singlet generator differs from the sum of its excitations")
        if d["anti"]:
            require(np.allclose(got, -got.conj().T, atol=1e-9), "the singlet generator is not anti-Hermitian")
        for name, op in zip(("particle number", "spin projection", "total spin"), spin_operators(n)):
            require(np.allclose(op @ got, got @ op, atol=1e-7), "the singlet generator does not conserve the " + name)
    else:
        label("compared by action")
        bad = same_action(gen.terms, lambda s: act(want, s), n, 3)
        require(bad is None, "the singlet generator differs from the sum of its excitations", bad)
    # packing the amplitudes found in the generator gives them back
    if d["anti"] and pairs:
        single, double = np.zeros((n,) * 2), np.zeros((n,) * 4)
        for i, (v, o) in enumerate(pairs):
            for s in (0, 1):
                single[2 * v + s, 2 * o + s] = amps[i]
                double[2 * v + s, 2 * o + s, 2 * v + 1 - s, 2 * o + 1 - s] = amps[len(pairs) + i]
        for k, (i, j) in enumerate(combos):
            (v, o), (w, u) = pairs[i], pairs[j]
            for s in (0, 1):
                for t in (0, 1):
                    double[2 * v + s, 2 * o + s, 2 * w + t, 2 * u + t] = amps[2 * len(pairs) + k]
        packed = uccsd_singlet_get_packed_amplitudes(single, double, n, e)
        require(list(map(float, packed)) == list(map(float, amps)), "packed amplitudes differ from the ones of the generator", packed, amps)


# --- molecule data ----------------------------------------------------------------------------------

ATOMS = ["H", "He", "Li", "Be", "C", "N", "O", "F", "Na", "Cl", "Fe", "U"]
CHARGE = {"H": 1, "He": 2, "Li": 3, "Be": 4, "C": 6, "N": 7, "O": 8, "F": 9, "Na": 11, "Cl": 17, "Fe": 26, "U": 92}
SPIN = ["singlet", "doublet", "triplet", "quartet", "quintet", "sextet", "septet", "octet", "nonet", "dectet", "undectet", "duodectet"]
SCALARS = ["n_orbitals", "n_qubits", "nuclear_repulsion", "hf_energy", "mp2_energy", "cisd_energy", "fci_energy", "ccsd_energy"]
ARRAYS = ["canonical_orbitals", "overlap_integrals", "orbital_energies", "one_body_integrals", "two_body_integrals", "cisd_one_rdm", "cisd_two_rdm", "fci_one_rdm", "fci_two_rdm", "ccsd_single_amps", "ccsd_double_amps"]


@st.composite
def molecule_cases(draw):
    named = draw(st.integers(0, 7)) == 0
    coord = st.one_of(st.sampled_from([0, 0.0, 1, 0.7414, -2.5]), st.floats(-9, 9).map(lambda x: round(x, 5)))
    geometry = "custom" if named else draw(st.lists(st.tuples(st.sampled_from(ATOMS), st.tuples(coord, coord, coord)), min_size=1, max_size=5))
    text = st.text(alphabet="ab 1.-_", max_size=6)
    return {
        "geometry": geometry, "basis": draw(st.sampled_from(["sto-3g", "6-31g*", "cc-pvtz"])),
        "multiplicity": draw(st.integers(1, 12)), "charge": draw(st.integers(-3, 3)), "description": draw(text.map(lambda t: t.rstrip("\x00"))),
        "scalars": {k: draw(st.one_of(st.none(), st.integers(0, 12) if k.startswith("n_") else st.one_of(st.sampled_from([0.0, -1.5]), st.floats(-50, 50)))) for k in SCALARS},
        "arrays": {k: draw(st.one_of(st.none(), st.integers(0, 10**6))) for k in ARRAYS},
        "general": draw(st.dictionaries(st.text(alphabet="abcXYZ ", min_size=1, max_size=6), st.floats(-5, 5), max_size=3)),
        "suffix": draw(st.booleans()), "fault": draw(st.sampled_from([None, None, "value", "array"])), "again": draw(st.sampled_from(["same", "drop general", "same"])),
    }


def make(d, path):
    from zquantum.core.openfermion.chem.molecular_data import MolecularData

    geometry = d["geometry"] if isinstance(d["geometry"], str) else [(a, tuple(p)) for a, p in d["geometry"]]
    mol = MolecularData(geometry, d["basis"], d["multiplicity"], d["charge"], d["description"], path)
    for k, v in d["scalars"].items():
        setattr(mol, k, v)
    for k, seed in d["arrays"].items():
        if seed is not None:
            r = np.random.RandomState(seed)
            setattr(mol, k, r.uniform(-2, 2, tuple(r.randint(1, 4, size=1 + seed % 4))))
    mol.general_calculations = dict(d["general"])
    return mol


def compare(mol, new):
    if isinstance(mol.geometry, str):
        require(new.geometry == mol.geometry, "another geometry", new.geometry)
    else:
        want = [(a, tuple(float(x) for x in p)) for a, p in mol.geometry]
        require([(a, tuple(p)) for a, p in new.geometry] == want, "another geometry", new.geometry)
    for k in ("basis", "multiplicity", "charge", "description", "name", "n_atoms", "n_electrons"):
        require(getattr(new, k) == getattr(mol, k), "another " + k, getattr(new, k), getattr(mol, k))
    require(list(new.atoms) == list(mol.atoms), "other atoms", new.atoms)
    require(np.array_equal(new.protons, mol.protons), "other protons", new.protons)
    for k in SCALARS:
        a, b = getattr(mol, k), getattr(new, k)
        require((a is None) == (b is None) and (a is None or a == b), "another " + k, a, b)
    for k in ARRAYS:
        a, b = getattr(mol, k), getattr(new, k)
        require((a is None) == (b is None) and (a is None or (np.shape(a) == np.shape(b) and np.array_equal(a, b))), "another " + k)
    require(new.general_calculations == mol.general_calculations, "other general calculations", new.general_calculations, mol.general_calculations)


@sub(molecule_cases(), quick=40, thorough=600, rule="some arrays or general calculations are set", nt=lambda d: d["general"] or any(v is not None for v in d["arrays"].values()))
def molecule_files(d):
    from zquantum.core.openfermion.chem.molecular_data import MolecularData

    gc.collect()  # saving gets slower with every unreleased file otherwise
    with scratch():
        path = os.path.abspath("mol")
        mol = make(d, path + ".hdf5" if d["suffix"] else path)
        require(mol.filename == path, "another file name", mol.filename)
        mol.save()
        require(sorted(os.listdir(".")) == ["mol.hdf5"], "saving leaves other files", os.listdir("."))
        new = MolecularData(filename=path + (".hdf5" if not d["suffix"] else ""))
        compare(mol, new)
        # saving what was loaded gives the same again
        new.save()
        compare(mol, MolecularData(filename=path))
        if d["again"] == "drop general":
            mol.general_calculations = {}
            mol.hf_energy = None if mol.hf_energy is not None else -3.25
            mol.save()
            new.load()
            require(new.general_calculations == {} and (new.hf_energy is None) == (mol.hf_energy is None), "loading keeps values which the file does not hold", new.general_calculations)
            compare(mol, MolecularData(filename=path))
            label("reloaded")
        if d["fault"]:
            label("failed save")
            before = open("mol.hdf5", "rb").read()
            bad = make(d, path)
            if d["fault"] == "value":
                bad.general_calculations = {"bad": object()}
            else:
                bad.ccsd_double_amps = np.array([object(), None], dtype=object)
            bad.n_orbitals, bad.basis = 77, "other"
            try:
                bad.save()
            except Exception:
                pass
            else:
                require(False, "an object that cannot be stored was saved")
            require(open("mol.hdf5", "rb").read() == before, "a failed save changed the stored molecule")
            compare(mol, MolecularData(filename=path))


@sub(molecule_cases(), quick=80, thorough=600, rule="at least 2 atoms", nt=lambda d: not isinstance(d["geometry"], str) and len(d["geometry"]) > 1)
def molecule_metadata(d):
    from zquantum.core.openfermion.chem import molecular_data as md

    mol = make(d, "")
    geometry = mol.geometry
    if isinstance(geometry, str):
        name = geometry
    else:
        names = sorted((a for a, _ in geometry), key=CHARGE.get)
        require(list(mol.atoms) == names and list(mol.protons) == [CHARGE[a] for a in names] and mol.n_atoms == len(names), "other atoms", mol.atoms)
        require(mol.n_electrons == sum(CHARGE[a] for a in names) - d["charge"], "another number of electrons", mol.n_electrons)
        name = "-".join(f"{a}{names.count(a)}" for a in dict.fromkeys(names))
        alpha, beta = mol.get_n_alpha_electrons(), mol.get_n_beta_electrons()
        if (mol.n_electrons + d["multiplicity"] - 1) % 2 == 0:
            require(alpha + beta == mol.n_electrons and alpha - beta == d["multiplicity"] - 1, "alpha and beta electrons do not add up", alpha, beta)
            label("spin fits")
        with scratch():
            with open("g.txt", "w") as f:
                for a, p in geometry:
                    f.write(" ".join([a] + [repr(x) for x in p]) + "\n")
                    f.write("\n")
            require(md.geometry_from_file("g.txt") == [(a, tuple(float(x) for x in p)) for a, p in geometry], "another geometry read from a file")
    name += f"_{d['basis']}_{SPIN[d['multiplicity'] - 1]}"
    if d["charge"]:
        name += f"_{d['charge']}{'+' if d['charge'] > 0 else '-'}"
    if d["description"]:
        name += "_" + d["description"]
    require(mol.name == name == md.name_molecule(geometry, d["basis"], d["multiplicity"], d["charge"], d["description"]), "another name", mol.name, name)
    require(os.path.basename(mol.filename) == os.path.basename(name), "another file name", mol.filename)
    other = md.MolecularData(geometry, d["basis"], d["multiplicity"], d["charge"], d["description"], data_directory="/nowhere")
    require(other.filename == "/nowhere/" + name, "the data directory is ignored", other.filename)
    for m in (0, 13, -1):
        raises(md.MoleculeNameError, lambda: md.MolecularData(geometry, d["basis"], m), "an impossible multiplicity is accepted")
    raises(TypeError, lambda: md.MolecularData(geometry, d["basis"], 1, description=5), "a description which is not text is accepted")
    raises(ValueError, lambda: md.MolecularData(geometry, d["basis"]), "a molecule without multiplicity is accepted")
    x = d["charge"] + 0.731
    require(abs(md.bohr_to_angstroms(md.angstroms_to_bohr(x)) - x) < 1e-6 * abs(x), "unit conversions are not inverse")
    require(abs(md.bohr_to_angstroms(1.0) - 0.529177) < 1e-5, "another Bohr radius")
    mol.cisd_energy = mol.fci_energy = None
    for fci in (False, True):
        raises(md.MissingCalculationError, lambda: mol.get_molecular_rdm(use_fci=fci), "density matrices of a missing calculation are accepted")
    r = np.random.RandomState(len(name))
    one = [np.where(r.uniform(size=(2, 2)) < 0.3, 1e-9, r.uniform(0.1, 1, (2, 2))) for _ in range(2)]
    two = [np.where(r.uniform(size=(2,) * 4) < 0.3, 1e-9, r.uniform(0.1, 1, (2,) * 4)) for _ in range(2)]
    mol.cisd_energy, mol.fci_energy = 1.0, 0.0
    mol.cisd_one_rdm, mol.fci_one_rdm, mol.cisd_two_rdm, mol.fci_two_rdm = one[0].copy(), one[1].copy(), two[0].copy(), two[1].copy()
    for fci in (0, 1):
        rdm = mol.get_molecular_rdm(use_fci=bool(fci))
        require(np.allclose(rdm.one_body_tensor, one[fci], atol=1e-8) and np.allclose(rdm.two_body_tensor, two[fci], atol=1e-8), "density matrices of another calculation")


@sub(
    st.fixed_dictionaries({"m": st.just(3), "seed": st.integers(0, 10**6), "constant": numbers, "scale": st.just(1.0), "zeros": st.booleans(), "electrons": st.one_of(st.none(), st.sampled_from([4, 2])), "orbitals": st.one_of(st.none(), st.integers(1, 2)), "description": st.sampled_from(["", "1.45"])}),
    quick=20, thorough=200, rule="a restricted active space", nt=lambda d: d["orbitals"] is not None,
)
def stored_hamiltonian(d):
    """load_molecular_hamiltonian equals building the Hamiltonian of the stored integrals."""
    from zquantum.core.openfermion.chem import molecular_data as md

    one, two = build_integrals(d)
    geometry = [("Li", (0.0, 0.0, 0.0)), ("H", (0.0, 0.0, 1.45))]
    with scratch():
        old = md.DATA_DIRECTORY
        md.DATA_DIRECTORY = os.getcwd()
        try:
            mol = md.MolecularData(geometry, "sto-3g", 1, description=d["description"])
            mol.one_body_integrals, mol.two_body_integrals, mol.nuclear_repulsion = one, two, d["constant"]
            mol.save()
            e, k = d["electrons"], d["orbitals"]
            if e is not None and k is None:
                return
            got = md.load_molecular_hamiltonian(geometry, "sto-3g", 1, d["description"], e, k)
            core = 0 if e is None else (4 - e) // 2
            if k is not None and core + k > 3:
                return
            want = mol.get_molecular_hamiltonian(*((None, None) if k is None else (list(range(core)), list(range(core, core + k)))))
        finally:
            md.DATA_DIRECTORY = old
        require(np.allclose(got.constant, want.constant) and np.allclose(got.one_body_tensor, want.one_body_tensor) and np.allclose(got.two_body_tensor, want.two_body_tensor), "the stored Hamiltonian differs")
