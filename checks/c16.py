"""C16: reordering, conjugation and commutators preserve operator meaning."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): dense matrices before and after each transformation, random rewritings of one operator for uniqueness of normal forms, matrix blocks of frozen configurations, permutation models for relabelling"
ASSUMPTIONS = [
    "dense comparisons on at most 5 modes, bit-mask Pauli algebra (exact Jordan-Wigner images) above; coefficients between 1e-3 and a few units, so that nothing lies near the library's 1e-8 tolerance",
    "the hopping shortcut of the double commutator is used for real symmetric hopping terms, as documented",
]


def ladder_text(term):
    return [tuple(f) for f in term]


def promised(term):
    """Raising first, then lowering, each from the highest mode to the lowest."""
    keys = [(1 - a, -i) for i, a in term]
    return all(x < y for x, y in zip(keys, keys[1:]))


@st.composite
def fermions(draw, n_max=4, max_terms=4, symbolic=False):
    n = draw(st.integers(1, n_max))
    long = draw(st.integers(0, 3)) == 0
    m = draw(st.integers(1, 2 if long else max_terms))
    terms = [[draw(ops.factors("fermion", n, 7 if long else 4)), draw(ops.coefs(symbolic))] for _ in range(m)]
    return {"kind": "fermion", "n": n, "terms": terms}


def disordered(o):
    return any(not promised(fs) for fs, _ in o["terms"]) and any(len({f[0] for f in fs}) >= 2 for fs, _ in o["terms"])


@sub(fermions(), quick=300, thorough=8000, rule="a term out of order and a term on two or more modes", nt=disordered)
def normal_ordering(case):
    from zquantum.core.openfermion.transforms import normal_ordered, normal_ordered_ladder_term

    n = case["n"]
    op = ops.build(case)
    before = dict(op.terms)
    res = normal_ordered(op)
    require(ref.close(ops.obj_matrix(res, n), ops.matrix(case, n), 1e-7), "normal ordering changed the operator", op.terms, res.terms)
    require(all(promised(t) for t in res.terms), "not in normal order", res.terms)
    require(res.is_normal_ordered(), "is_normal_ordered denies the result", res.terms)
    require(op.terms == before, "normal ordering changed its argument")
    ops.independent("normal ordering", res, op)
    again = normal_ordered(res)
    ops.independent("normal ordering", again, res)
    require(dict(again.terms) == dict(res.terms), "normal ordering is not idempotent", res.terms, again.terms)
    fs, c = case["terms"][0]
    one = normal_ordered_ladder_term(tuple(tuple(f) for f in fs), ops.coef_obj(c), -1)
    require(ref.close(ops.obj_matrix(one, n), ops.coef_val(c) * ops.term_matrix("fermion", fs, n), 1e-7), "one term", fs, one.terms)
    require(type(op).is_normal_ordered(op) == all(promised(t) for t in op.terms), "is_normal_ordered", op.terms)


@st.composite
def rewritings(draw):
    o = draw(fermions(max_terms=3))
    return {"op": o, "swaps": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 6)), min_size=1, max_size=12))}


@sub(rewritings(), quick=250, thorough=6000, rule="a term on two or more modes", nt=lambda c: any(len({f[0] for f in fs}) >= 2 for fs, _ in c["op"]["terms"]))
def equal_operators_have_one_normal_form(case):
    from zquantum.core.openfermion.transforms import normal_ordered

    terms = [[ladder_text(fs), complex(ops.coef_val(c))] for fs, c in case["op"]["terms"]]
    for k, pos in case["swaps"]:
        fs, c = terms[k % len(terms)]
        if len(fs) < 2:
            continue
        j = pos % (len(fs) - 1)
        a, b = fs[j], fs[j + 1]
        if a == b:
            continue
        terms[k % len(terms)][:] = [fs[:j] + [b, a] + fs[j + 2 :], -c]
        if a[0] == b[0]:
            terms.append([fs[:j] + fs[j + 2 :], c])
    op = ops.build(case["op"])
    other = ops.build({"kind": "fermion", "terms": [[fs, c] for fs, c in terms]})
    x, y = normal_ordered(op), normal_ordered(other)
    diff = {t: x.terms.get(t, 0) - y.terms.get(t, 0) for t in set(x.terms) | set(y.terms)}
    require(all(abs(v) < 1e-7 for v in diff.values()), "equal operators have different normal forms", op.terms, other.terms, x.terms, y.terms)
    label("rewritten" if dict(op.terms) != dict(other.terms) else "unchanged")


@st.composite
def conserving(draw):
    n = draw(st.integers(2, 4))
    terms = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from([0, 1, 2, 2, 2]))
        acts = draw(st.permutations([1] * k + [0] * k))
        terms.append([[[draw(st.integers(0, n - 1)), a] for a in acts], draw(ops.coefs())])
    if draw(st.integers(0, 4)) == 0:
        terms.append([draw(ops.factors("fermion", n, 5)), 1.5])
    return {"kind": "fermion", "n": n, "terms": terms}


@sub(conserving(), quick=200, thorough=4000, rule="a two-body term", nt=lambda o: any(len(fs) == 4 for fs, _ in o["terms"]))
def chemist_ordering(case):
    from zquantum.core.openfermion.transforms import chemist_ordered

    n = case["n"]
    op = ops.build(case)
    before = dict(op.terms)
    good = all(len(t) in (0, 2, 4) and 2 * sum(a for _, a in t) == len(t) for t in op.terms)
    require(op.is_two_body_number_conserving() == good, "is_two_body_number_conserving", op.terms)
    spins = good and all(sum(1 - 2 * (i % 2) for i, a in t if a) == sum(1 - 2 * (i % 2) for i, a in t if not a) for t in op.terms)
    require(op.is_two_body_number_conserving(True) == spins, "is_two_body_number_conserving with spin", op.terms)
    if not good:
        label("rejected")
        raises(TypeError, lambda: chemist_ordered(op), f"chemist ordering of {op.terms}")
        return
    res = chemist_ordered(op)
    require(ref.close(ops.obj_matrix(res, n), ops.matrix(case, n), 1e-7), "chemist ordering changed the operator", op.terms, res.terms)
    require(all([a for _, a in t] in ([], [1, 0], [1, 0, 1, 0]) for t in res.terms), "not in chemist order", res.terms)
    require(op.terms == before, "chemist ordering changed its argument")
    ops.independent("chemist ordering", res, op)


@st.composite
def tensor_cases(draw):
    n = draw(st.integers(1, 4))
    cplx = draw(st.booleans())
    num = st.sampled_from([1, -1, 0.5, 0.25, -0.75, 2])
    ent = lambda: [draw(num), draw(num) if cplx else 0]
    one = [[draw(st.integers(0, n - 1)) for _ in range(2)] + [ent()] for _ in range(draw(st.integers(0, 4)))]
    two = [[draw(st.integers(0, n - 1)) for _ in range(4)] + [ent()] for _ in range(draw(st.integers(0, 5)))]
    return {"n": n, "cplx": cplx, "constant": [draw(num), draw(num) if cplx else 0], "one": one, "two": two, "symmetrize": draw(st.booleans())}


def interaction(case):
    from zquantum.core.openfermion.ops import InteractionOperator

    n, cplx = case["n"], case["cplx"]
    dt = complex if cplx else float
    one, two = np.zeros((n, n), dtype=dt), np.zeros((n,) * 4, dtype=dt)
    val = lambda e: complex(*e) if cplx else e[0]
    for p, q, e in case["one"]:
        one[p, q] += val(e)
    for p, q, r, s, e in case["two"]:
        two[p, q, r, s] += val(e)
    const = val(case["constant"])
    if case["symmetrize"]:
        one = (one + one.conj().T) / 2
        two = (two + two.conj().transpose(3, 2, 1, 0)) / 2
        const = const.real
    return InteractionOperator(const, one, two)


def tensor_matrix(op, n):
    m = complex(op.constant) * np.eye(2**n, dtype=complex)
    for p, q in zip(*np.nonzero(op.one_body_tensor)):
        m += op.one_body_tensor[p, q] * ref.fermion_term_matrix([(int(p), 1), (int(q), 0)], n)
    for p, q, r, s in zip(*np.nonzero(op.two_body_tensor)):
        m += op.two_body_tensor[p, q, r, s] * ref.fermion_term_matrix([(int(p), 1), (int(q), 1), (int(r), 0), (int(s), 0)], n)
    return m


@sub(tensor_cases(), quick=200, thorough=4000, rule="two or more two-body entries", nt=lambda c: len(c["two"]) >= 2)
def interaction_operators(case):
    from zquantum.core.openfermion.transforms import normal_ordered
    from zquantum.core.openfermion.utils import hermitian_conjugated, is_hermitian

    n = case["n"]
    op = interaction(case)
    keep = {k: np.array(v) for k, v in op.n_body_tensors.items()}
    m = tensor_matrix(op, n)
    res = normal_ordered(op)
    require(ref.close(tensor_matrix(res, n), m, 1e-7), "normal ordering changed the operator", op.n_body_tensors, res.n_body_tensors)
    require(all(p > q and r > s for p, q, r, s in zip(*np.nonzero(res.two_body_tensor))), "two-body tensor is not in normal order", res.two_body_tensor)
    conj = hermitian_conjugated(op)
    require(ref.close(tensor_matrix(conj, n), m.conj().T), "Hermitian conjugate", op.n_body_tensors)
    dev = np.max(np.abs(m - m.conj().T))
    require(is_hermitian(op) == (dev < 1e-9), "is_hermitian", dev, op.n_body_tensors)
    ops.independent("normal ordering", res, op)
    label("Hermitian" if dev < 1e-9 else "not Hermitian")
    require(set(keep) == set(op.n_body_tensors) and all(np.array_equal(keep[k], op.n_body_tensors[k]) for k in keep), "the operator was changed")


@st.composite
def conjugations(draw):
    kind = draw(st.sampled_from(["qubit", "fermion", "array", "sparse"]))
    n = draw(st.integers(1, 3))
    o = draw(ops.operators("qubit" if kind in ("array", "sparse") else kind, n, max_terms=4, min_terms=1, max_len=4))
    return {"form": kind, "n": n, "op": o, "add_conjugate": draw(st.booleans())}


@sub(conjugations(), quick=300, thorough=6000, rule="two or more terms, one with two or more factors", nt=lambda c: len(c["op"]["terms"]) >= 2 and any(len(f) >= 2 for f, _ in c["op"]["terms"]))
def conjugation_and_hermiticity(case):
    import scipy.sparse
    from zquantum.core.openfermion.utils import hermitian_conjugated, is_hermitian

    n = case["n"]
    m = ops.matrix(case["op"], n)
    if case["add_conjugate"]:
        m = m + m.conj().T
    if case["form"] == "array":
        op = m.copy()
        dense = lambda x: x
    elif case["form"] == "sparse":
        op = scipy.sparse.csc_matrix(m)
        dense = lambda x: x.toarray()
    else:
        op = ops.build(case["op"])
        if case["add_conjugate"]:
            fs = [[[[i, a] if case["form"] == "qubit" else [i, 1 - a] for i, a in reversed(f)], complex(ops.coef_val(c)).conjugate()] for f, c in case["op"]["terms"]]
            op = op + ops.build({"kind": case["form"], "terms": fs})
        dense = lambda x: ops.obj_matrix(x, n)
    conj = hermitian_conjugated(op)
    require(ref.close(dense(conj), m.conj().T), f"Hermitian conjugate of a {case['form']}", m)
    require(ref.close(dense(op), m), "the operator was changed by conjugation")
    require(ref.close(dense(hermitian_conjugated(conj)), m), "conjugating twice")
    if case["form"] == "array":
        conj += 1
        require(ref.close(op, m), "writing into the conjugate changed the array")
        conj -= 1
    elif case["form"] != "sparse":
        ops.independent("conjugation", conj, op)
    dev = np.max(np.abs(m - m.conj().T))
    if dev < 1e-12 or dev > 1e-6:
        require(bool(is_hermitian(op)) == (dev < 1e-12), f"is_hermitian of a {case['form']}", dev, m)
    label(case["form"] + (" Hermitian" if dev < 1e-12 else " not Hermitian"))


@st.composite
def pairs(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion", "array", "sparse"]))
    under = "qubit" if kind in ("array", "sparse") else kind
    mk = ops.operators(under, 3, max_terms=3, min_terms=1, max_len=3)
    return {"form": kind, "a": draw(mk), "b": draw(mk), "same": draw(st.integers(0, 9)) == 0, "ints": draw(st.booleans())}


@sub(pairs(), quick=250, thorough=6000, rule="two or more terms in each", nt=lambda c: len(c["a"]["terms"]) >= 2 and len(c["b"]["terms"]) >= 2)
def commutators(case):
    import scipy.sparse
    from zquantum.core.openfermion.utils import anticommutator, commutator

    n = 3
    ma, mb = ops.matrix(case["a"], n), ops.matrix(case["b"], n)
    if case["form"] in ("array", "sparse"):
        if case["ints"]:
            ma, mb = np.rint(ma.real).astype(int), np.rint(mb.real).astype(int)
        make = (lambda m: m.copy()) if case["form"] == "array" else scipy.sparse.csr_matrix
        a, b = make(ma), make(mb)
        dense = (lambda x: x) if case["form"] == "array" else (lambda x: x.toarray())
    else:
        a, b = ops.build(case["a"]), ops.build(case["b"])
        dense = lambda x: ops.obj_matrix(x, n)
    if case["same"]:
        b, mb = a, ma
    require(ref.close(dense(commutator(a, b)), ma @ mb - mb @ ma), f"commutator of {case['form']}s", case["a"], case["b"])
    require(ref.close(dense(anticommutator(a, b)), ma @ mb + mb @ ma), f"anticommutator of {case['form']}s", case["a"], case["b"])
    require(ref.close(dense(a), ma) and ref.close(dense(b), mb), "the operands were changed")
    other = np.eye(8) if case["form"] != "array" else ops.build(case["a"])
    for fn in (commutator, anticommutator):
        raises(TypeError, lambda: fn(a, other), f"{fn.__name__} of different types")
    label(case["form"])


@st.composite
def doubles(draw):
    n = 4
    mk = ops.operators("fermion", n, max_terms=2, min_terms=1, max_len=3)
    if draw(st.booleans()):
        pick = lambda: list(draw(st.permutations(range(n))))[:2]
        c = st.sampled_from([1.0, -0.5, 0.75, 2])
        return {"hop": True, "a": draw(mk), "i2": pick(), "i3": pick(), "c2": draw(c), "c3": draw(c)}
    return {"hop": False, "a": draw(mk), "b": draw(mk), "c": draw(mk)}


@sub(doubles(), quick=200, thorough=4000, rule="general operators with two or more terms in all, or hopping terms sharing one mode", nt=lambda c: len(set(c["i2"]) & set(c["i3"])) == 1 if c["hop"] else True)
def double_commutators(case):
    from zquantum.core.openfermion.utils import double_commutator

    n = 4
    a, ma = ops.build(case["a"]), ops.matrix(case["a"], n)
    if case["hop"]:
        hop = lambda i, c: {"kind": "fermion", "terms": [[[[i[0], 1], [i[1], 0]], c], [[[i[1], 1], [i[0], 0]], c]]}
        db, dc = hop(case["i2"], case["c2"]), hop(case["i3"], case["c3"])
    else:
        db, dc = case["b"], case["c"]
    b, c, mb, mc = ops.build(db), ops.build(dc), ops.matrix(db, n), ops.matrix(dc, n)
    inner = mb @ mc - mc @ mb
    want = ma @ inner - inner @ ma
    res = double_commutator(a, b, c)
    require(ref.close(ops.obj_matrix(res, n), want, 1e-7), "double commutator", case)
    require(all(promised(t) for t in res.terms), "not normal ordered", res.terms)
    if case["hop"]:
        i2, i3 = set(case["i2"]), set(case["i3"])
        res = double_commutator(a, b, c, i2, i3, True, True)
        require(ref.close(ops.obj_matrix(res, n), want, 1e-7), "double commutator of hopping terms", case, res.terms)
        require(i2 == set(case["i2"]) and i3 == set(case["i3"]), "the index sets were changed")
        res = double_commutator(a, b, c, i2, i3, True, False)
        require(ref.close(ops.obj_matrix(res, n), want, 1e-7), "double commutator with one hopping term", case, res.terms)
        label(f"hopping, {len(i2 & i3)} shared")


@st.composite
def relabellings(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    n = draw(st.integers(1, 8))
    o = draw(ops.operators(kind, n, max_terms=4, min_terms=0, max_len=4))
    extra = draw(st.integers(0, 3))
    total = n + extra
    return {"kind": kind, "op": o, "n": total, "perm": draw(st.permutations(range(total))), "given": draw(st.booleans()), "std": draw(st.booleans())}


@sub(relabellings(), quick=300, thorough=6000, rule="a term on two or more modes and a permutation that moves something", nt=lambda c: any(len({f[0] for f in fs}) >= 2 for fs, _ in c["op"]["terms"]) and (c["std"] or list(c["perm"]) != sorted(c["perm"])))
def relabelling_modes(case):
    from zquantum.core.openfermion.transforms import reorder
    from zquantum.core.openfermion.utils import up_then_down

    op = ops.build(case["op"])
    before = dict(op.terms)
    used = max([i + 1 for t in op.terms for i, _ in t], default=0)
    n = case["n"] if case["given"] else used
    if case["std"]:
        fn = up_then_down
        evens = [i for i in range(n) if i % 2 == 0]
        order = evens + [i for i in range(n) if i % 2]
        perm = {m: order.index(m) for m in range(n)}
        require({m: up_then_down(m, n) for m in range(n)} == perm, "up_then_down is not evens first, then odds", n)
    else:
        ranks = [p for p in case["perm"] if p < n]
        perm = dict(enumerate(ranks))
        fn = lambda i, m: perm[i] if m == n else 10**6
    res = reorder(op, fn, num_modes=n if case["given"] else None)
    want = ops.build({"kind": case["kind"], "terms": [[[[perm[i], a] for i, a in t], complex(c)] for t, c in op.terms.items()]})
    same = lambda a, b: set(a.terms) == set(b.terms) and all(abs(a.terms[t] - b.terms[t]) < 1e-12 for t in a.terms)
    require(type(res) is type(op) and same(res, want), "relabelled operator differs", op.terms, res.terms, perm)
    require(same(reorder(res, fn, num_modes=n, reverse=True), op), "reverse relabelling does not undo the relabelling", op.terms, perm)
    require(op.terms == before, "relabelling changed its argument")
    ops.independent("relabelling", res, op)
    label("derived size" if not case["given"] else "given size")


@st.composite
def frozen(draw):
    n = draw(st.integers(2, 5))
    o = draw(ops.operators("fermion", n, max_terms=5, min_terms=1, max_len=4))
    state = [draw(st.sampled_from(["free", "free", "occ", "emp"])) for _ in range(n)]
    # favour terms that survive: pairs on frozen modes
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(1, 3))
        idx = [draw(st.integers(0, n - 1)) for _ in range(k)]
        fs = [[i, 1] for i in idx] + [[i, 0] for i in draw(st.permutations(idx))]
        o["terms"].append([draw(st.permutations(fs)), draw(ops.coefs())])
    return {"n": n, "op": o, "state": state, "order": draw(st.permutations(range(n))), "anchor": draw(st.booleans()), "no_unoccupied": draw(st.booleans())}


@sub(frozen(), quick=300, thorough=8000, rule="a frozen and a free mode, and a term touching both", nt=lambda c: any({"free"} < {c["state"][f[0]] for f in fs} for fs, _ in c["op"]["terms"]))
def freezing_orbitals(case):
    from zquantum.core.openfermion.transforms import freeze_orbitals

    n, state = case["n"], list(case["state"])
    desc = {"kind": "fermion", "terms": [list(t) for t in case["op"]["terms"]]}
    if case["no_unoccupied"]:
        state = ["free" if s == "emp" else s for s in state]
    if case["anchor"]:
        desc["terms"] += [[[[i, 1], [i, 0]], 0.37 * 1.618 ** (i + 1)] for i in range(n)]
    op = ops.build(desc)
    before = dict(op.terms)
    occ = [i for i in case["order"] if state[i] == "occ"]
    emp = [i for i in case["order"] if state[i] == "emp"]
    free = [i for i in range(n) if state[i] == "free"]
    res = freeze_orbitals(op, occ) if case["no_unoccupied"] else freeze_orbitals(op, occ, emp)
    require(op.terms == before, "freezing changed its argument")
    ops.independent("freezing", res, op)
    m = ops.matrix(desc, n)
    rows = []
    for k in range(2 ** len(free)):
        b = ref.bits(k, len(free))
        full = [{"occ": 1, "emp": 0}.get(s) for s in state]
        for i, v in zip(free, b):
            full[i] = v
        rows.append(int("".join(map(str, full)), 2))
    block = m[np.ix_(rows, rows)]
    used = sorted({i for t in res.terms for i, _ in t})
    require(used == list(range(len(used))) and len(used) <= len(free), "remaining modes are not numbered from zero", res.terms)
    # modes on which nothing acts are renumbered away: some order-preserving choice must give the block
    for choice in itertools.combinations(range(len(free)), len(used)):
        back = [[[[choice[i], a] for i, a in t], c] for t, c in res.terms.items()]
        if ref.close(ops.matrix({"kind": "fermion", "terms": [[f, complex(c)] for f, c in back]}, len(free)), block, 1e-7):
            break
    else:
        require(False, "matrix elements in the frozen configuration differ", desc, occ, emp, res.terms)
    kept = freeze_orbitals(op, occ, None if case["no_unoccupied"] else emp, prune=False)
    require(all(i in free for t in kept.terms for i, _ in t), "a frozen mode is left", kept.terms)
    there = {"kind": "fermion", "terms": [[[[free.index(i), a] for i, a in t], complex(c)] for t, c in kept.terms.items()]}
    require(ref.close(ops.matrix(there, len(free)), block, 1e-7), "matrix elements without renumbering differ", desc, occ, emp, kept.terms)
    for form in (np.array, lambda x: [np.int64(i) for i in x], tuple):
        if form is not tuple or occ:
            again = freeze_orbitals(op, form(occ), None if case["no_unoccupied"] else form(emp), prune=False)
            require(dict(again.terms) == dict(kept.terms), "numpy integers name other orbitals than integers", occ, emp, again.terms, kept.terms)
    label(f"{len(free)} free of {n}")
    label(f"{len(used)} used")


@st.composite
def gaps(draw):
    kind = draw(st.sampled_from(["qubit", "ising", "fermion"]))
    big = draw(st.lists(st.integers(0, 300), min_size=4, max_size=4, unique=True))
    return {"kind": kind, "op": draw(ops.operators(kind, 4, max_terms=4, max_len=4)), "names": big}


@sub(gaps(), quick=200, thorough=4000, rule="two or more modes in use", nt=lambda c: len({f[0] for fs, _ in c["op"]["terms"] for f in fs}) >= 2)
def unused_indices(case):
    from zquantum.core.openfermion.transforms import prune_unused_indices
    from zquantum.core.openfermion.utils import count_qubits, is_identity

    C = ops.cls(case["kind"])
    op = C()
    for fs, c in case["op"]["terms"]:
        op += C(tuple((case["names"][i], a) for i, a in fs), ops.coef_obj(c))
    before = dict(op.terms)
    used = sorted({i for t in op.terms for i, _ in t})
    res = prune_unused_indices(op)
    want = {tuple((used.index(i), a) for i, a in t): c for t, c in op.terms.items()}
    require(type(res) is C and dict(res.terms) == want, "pruned operator", op.terms, res.terms)
    require(op.terms == before, "pruning changed its argument")
    ops.independent("pruning", res, op)
    require(count_qubits(op) == (used[-1] + 1 if used else 0) and count_qubits(res) == len(used), "count_qubits", op.terms)
    if case["kind"] != "ising":
        require(is_identity(op) == (list(op.terms) == [()]), "is_identity", op.terms)
    raises(TypeError, lambda: count_qubits("1.0 [0]"), "count_qubits of text")


def masks(terms):
    return ref.jw_masks(terms, ops.number)


def desc_terms(o):
    out = {}
    for fs, c in o["terms"]:
        k = tuple((i, a) for i, a in fs)
        out[k] = out.get(k, 0) + complex(ops.coef_val(c))
    return out


def desc_masks(o):
    return ref.jw_masks(desc_terms(o))


@st.composite
def wide_fermions(draw, n_max=14, max_terms=3):
    n = draw(st.integers(7, n_max))
    names = list(draw(st.permutations(range(n))))[: draw(st.integers(4, 7))]
    terms = []
    for _ in range(draw(st.integers(1, max_terms))):
        m = draw(st.integers(2, 8))
        terms.append([[[draw(st.sampled_from(names)), draw(st.integers(0, 1))] for _ in range(m)], draw(ops.coefs())])
        if draw(st.integers(0, 2)) == 0:
            # distinct modes, so that nothing vanishes
            k = min(len(names), draw(st.integers(4, 7)))
            terms[-1][0] = [[i, draw(st.integers(0, 1))] for i in draw(st.permutations(names))[:k]]
    return {"kind": "fermion", "n": n, "terms": terms}


def wide_term(o):
    return any(len({f[0] for f in fs}) >= 4 and max(f[0] for f in fs) >= 5 for fs, _ in o["terms"])


@sub(wide_fermions(), quick=120, thorough=4000, rule="a term on four or more modes, one of them the sixth or later", nt=wide_term)
def normal_ordering_on_many_modes(case):
    from zquantum.core.openfermion.transforms import normal_ordered
    from zquantum.core.openfermion.utils import hermitian_conjugated, is_hermitian

    op = ops.build(case)
    want = desc_masks(case)
    res = normal_ordered(op)
    require(ref.masks_close(masks(res.terms), want, 1e-7), "normal ordering changed the operator", op.terms, res.terms)
    require(all(promised(t) for t in res.terms), "not in normal order", res.terms)
    require(res.is_normal_ordered(), "is_normal_ordered denies the result", res.terms)
    conj = hermitian_conjugated(op)
    require(ref.masks_close(masks(conj.terms), ref.masks_adjoint(want)), "Hermitian conjugate", op.terms, conj.terms)
    both = op + conj
    require(is_hermitian(both), "an operator plus its conjugate is said not to be Hermitian", both.terms)
    dev = max([abs(v) for v in ref.masks_add(want, ref.masks_adjoint(want), -1).values()], default=0)
    if dev < 1e-12 or dev > 1e-5:
        require(is_hermitian(op) == (dev < 1e-12), "is_hermitian", op.terms, dev)
    label("long" if any(len(t) >= 6 for t in op.terms) else "short")


@st.composite
def wide_pairs(draw):
    o = lambda: draw(wide_fermions(12, 2))
    fs = [o(), o(), o()]
    for f in fs:
        f["terms"] = [[t[:4], c] for t, c in f["terms"]]
    # make them overlap
    if draw(st.booleans()):
        for t, _ in fs[1]["terms"]:
            t[0] = list(fs[0]["terms"][0][0][-1])
            t[0][1] = draw(st.integers(0, 1))
    return {"ops": fs}


@sub(wide_pairs(), quick=100, thorough=2500, rule="two of the operators share a mode", nt=lambda c: bool({f[0] for t, _ in c["ops"][0]["terms"] for f in t} & {f[0] for t, _ in c["ops"][1]["terms"] for f in t}))
def commutators_on_many_modes(case):
    from zquantum.core.openfermion.utils import anticommutator, commutator, double_commutator

    a, b, c = (ops.build(o) for o in case["ops"])
    ma, mb, mc = (desc_masks(o) for o in case["ops"])
    ab, ba = ref.masks_mul(ma, mb), ref.masks_mul(mb, ma)
    require(ref.masks_close(masks(commutator(a, b).terms), ref.masks_add(ab, ba, -1), 1e-7), "commutator", a.terms, b.terms)
    require(ref.masks_close(masks(anticommutator(a, b).terms), ref.masks_add(ab, ba), 1e-7), "anticommutator", a.terms, b.terms)
    inner = ref.masks_add(ref.masks_mul(mb, mc), ref.masks_mul(mc, mb), -1)
    want = ref.masks_add(ref.masks_mul(ma, inner), ref.masks_mul(inner, ma), -1)
    res = double_commutator(a, b, c)
    require(ref.masks_close(masks(res.terms), want, 1e-7), "double commutator", a.terms, b.terms, c.terms)
    require(all(promised(t) for t in res.terms), "not normal ordered", res.terms)


@st.composite
def wide_tensors(draw):
    n = draw(st.integers(4, 8))
    cplx = draw(st.booleans())
    num = st.sampled_from([1, -1, 0.5, 0.25, -0.75, 2])
    ent = lambda: [draw(num), draw(num) if cplx else 0]
    one = [[draw(st.integers(0, n - 1)) for _ in range(2)] + [ent()] for _ in range(draw(st.integers(0, 4)))]
    two = []
    for _ in range(draw(st.integers(1, 6))):
        how = draw(st.integers(0, 3))
        idx = list(draw(st.permutations(range(n))))[:4]
        if how == 0:
            idx = [draw(st.integers(0, n - 1)) for _ in range(4)]
        elif how == 1:
            idx[draw(st.integers(2, 3))] = idx[draw(st.integers(0, 1))]
        two.append(idx + [ent()])
    return {"n": n, "cplx": cplx, "constant": [draw(num), draw(num) if cplx else 0], "one": one, "two": two, "symmetrize": draw(st.booleans())}


def tensor_masks(op):
    terms = {(): complex(op.constant)}
    for p, q in zip(*np.nonzero(op.one_body_tensor)):
        terms[(int(p), 1), (int(q), 0)] = op.one_body_tensor[p, q]
    for p, q, r, s in zip(*np.nonzero(op.two_body_tensor)):
        terms[(int(p), 1), (int(q), 1), (int(r), 0), (int(s), 0)] = op.two_body_tensor[p, q, r, s]
    return ref.jw_masks(terms)


@sub(wide_tensors(), quick=120, thorough=2500, rule="six or more modes and an entry on four different ones", nt=lambda c: c["n"] >= 6 and any(len(set(t[:4])) == 4 for t in c["two"]))
def interaction_operators_on_many_modes(case):
    from zquantum.core.openfermion.transforms import get_fermion_operator, normal_ordered
    from zquantum.core.openfermion.utils import hermitian_conjugated, is_hermitian

    op = interaction(case)
    keep = {k: np.array(v) for k, v in op.n_body_tensors.items()}
    m = tensor_masks(op)
    res = normal_ordered(op)
    require(ref.masks_close(tensor_masks(res), m, 1e-7), "normal ordering changed the operator", case)
    require(all(p > q and r > s for p, q, r, s in zip(*np.nonzero(res.two_body_tensor))), "two-body tensor is not in normal order", case)
    conj = hermitian_conjugated(op)
    require(ref.masks_close(tensor_masks(conj), ref.masks_adjoint(m)), "Hermitian conjugate", case)
    dev = max([abs(v) for v in ref.masks_add(m, ref.masks_adjoint(m), -1).values()], default=0)
    require(is_hermitian(op) == (dev < 1e-9), "is_hermitian", dev, case)
    require(ref.masks_close(masks(get_fermion_operator(op).terms), m, 1e-7), "fermion form", case)
    require(set(keep) == set(op.n_body_tensors) and all(np.array_equal(keep[k], op.n_body_tensors[k]) for k in keep), "the operator was changed")
    label(f"{case['n']} modes")
    label("Hermitian" if dev < 1e-9 else "not Hermitian")


@st.composite
def wide_frozen(draw):
    o = draw(wide_fermions(12, 3))
    n = o["n"]
    state = [draw(st.sampled_from(["free", "free", "free", "occ", "emp"])) for _ in range(n)]
    frozen_modes = [i for i in range(n) if state[i] != "free"] or [0]
    for _ in range(draw(st.integers(0, 3))):
        idx = [draw(st.sampled_from(frozen_modes)) for _ in range(draw(st.integers(1, 3)))]
        fs = [[i, 1] for i in idx] + [[i, 0] for i in draw(st.permutations(idx))]
        fs += [[draw(st.integers(0, n - 1)), draw(st.integers(0, 1))] for _ in range(draw(st.integers(0, 3)))]
        o["terms"].append([draw(st.permutations(fs)), draw(ops.coefs())])
    return {"n": n, "op": o, "state": state, "order": draw(st.permutations(range(n)))}


@sub(wide_frozen(), quick=120, thorough=3000, rule="a frozen and a free mode, and a term touching both", nt=lambda c: any({"free"} < {c["state"][f[0]] for f in fs} for fs, _ in c["op"]["terms"]))
def freezing_among_many_orbitals(case):
    from zquantum.core.openfermion.transforms import freeze_orbitals

    n, state = case["n"], case["state"]
    # every mode is in use, so renumbering is determined
    desc = {"kind": "fermion", "terms": case["op"]["terms"] + [[[[i, 1], [i, 0]], 0.37 * 1.3 ** (i + 1)] for i in range(n)]}
    op = ops.build(desc)
    occ = [i for i in case["order"] if state[i] == "occ"]
    emp = [i for i in case["order"] if state[i] == "emp"]
    free = [i for i in range(n) if state[i] == "free"]
    block = ref.masks_freeze(desc_masks(desc), occ, emp)
    kept = freeze_orbitals(op, occ, emp, prune=False)
    require(all(i in free for t in kept.terms for i, _ in t), "a frozen mode is left", kept.terms)
    there = {tuple((free.index(i), a) for i, a in t): c for t, c in kept.terms.items()}
    require(ref.masks_close(masks(there), block, 1e-7), "matrix elements without renumbering differ", desc, occ, emp, kept.terms)
    res = freeze_orbitals(op, occ, emp)
    if {i for t in kept.terms for i, _ in t} == set(free):
        label("all free modes used")
        require(ref.masks_close(masks(res.terms), block, 1e-7), "matrix elements in the frozen configuration differ", desc, occ, emp, res.terms)
    else:
        used = sorted({i for t in kept.terms for i, _ in t})
        want = {tuple((used.index(i), a) for i, a in t): c for t, c in kept.terms.items()}
        require(dict(res.terms) == want, "renumbering", kept.terms, res.terms)


@st.composite
def large_ones(draw):
    return {
        "n": draw(st.sampled_from([4, 8, 9, 12, 30])),
        "m": draw(st.sampled_from([6, 12, 30, 60])),
        "longest": draw(st.sampled_from([2, 4, 5])),
        "cplx": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


def random_terms(r, n, m, longest, cplx):
    out = {}
    for _ in range(m):
        k = r.randint(0, longest + 1)
        t = [(int(r.randint(n)), int(r.randint(2))) for _ in range(k)]
        if r.randint(2) and k <= n:
            t = [(int(i), int(r.randint(2))) for i in r.permutation(n)[:k]]
        x, y = np.round(r.uniform(0.1, 3, 2) * r.choice([-1, 1], 2), 3)
        out[tuple(t)] = complex(x, y) if cplx else float(x)
    return out


@sub(large_ones(), quick=50, thorough=1500, shards=2, rule="twelve terms or more on eight modes or more", nt=lambda c: c["m"] >= 12 and c["n"] >= 8)
def operators_with_many_terms(case):
    from zquantum.core.openfermion.ops import FermionOperator
    from zquantum.core.openfermion.transforms import freeze_orbitals, normal_ordered, prune_unused_indices, reorder
    from zquantum.core.openfermion.utils import anticommutator, commutator, count_qubits, hermitian_conjugated, is_hermitian

    n, r = case["n"], np.random.RandomState(case["seed"])
    op, other = FermionOperator(), FermionOperator()
    op.terms = random_terms(r, n, case["m"], case["longest"], case["cplx"])
    other.terms = random_terms(r, n, min(case["m"], 8), 3, case["cplx"])
    keep = dict(op.terms), dict(other.terms)
    want = masks(op.terms)
    res = normal_ordered(op)
    require(ref.masks_close(masks(res.terms), want, 1e-7), "normal ordering changed the operator", op.terms, res.terms)
    require(all(promised(t) for t in res.terms), "not in normal order", res.terms)
    conj = hermitian_conjugated(op)
    require(dict(conj.terms) == {tuple((i, 1 - a) for i, a in reversed(t)): np.conj(c) for t, c in op.terms.items()}, "Hermitian conjugate", op.terms, conj.terms)
    both = op + conj
    require(is_hermitian(both) and not is_hermitian(both + FermionOperator(((n, 1),), 0.01)), "is_hermitian", both.terms)
    # renaming
    perm = [int(i) for i in r.permutation(n)]
    if all(i < n for t in op.terms for i, _ in t):
        moved = reorder(op, lambda i, k: perm[i], num_modes=n)
        require(dict(moved.terms) == {tuple((perm[i], a) for i, a in t): c for t, c in op.terms.items()}, "relabelled operator", perm)
        require(dict(reorder(moved, lambda i, k: perm[i], num_modes=n, reverse=True).terms) == dict(op.terms), "relabelling back", perm)
    used = sorted({i for t in op.terms for i, _ in t})
    require(dict(prune_unused_indices(op).terms) == {tuple((used.index(i), a) for i, a in t): c for t, c in op.terms.items()}, "pruned operator")
    require(count_qubits(op) == (used[-1] + 1 if used else 0), "count_qubits", used)
    # freezing
    modes = [int(i) for i in r.permutation(n)]
    occ, emp = modes[: r.randint(0, n // 2 + 1)], modes[n - n // 3 :][: r.randint(0, n // 3 + 1)]
    emp = [i for i in emp if i not in occ]
    kept = freeze_orbitals(op, occ, emp, prune=False)
    free = [i for i in range(n) if i not in occ and i not in emp]
    require(all(i in free for t in kept.terms for i, _ in t), "a frozen mode is left", kept.terms)
    there = {tuple((free.index(i), a) for i, a in t): c for t, c in kept.terms.items()}
    require(ref.masks_close(masks(there), ref.masks_freeze(want, occ, emp), 1e-7), "matrix elements in the frozen configuration differ", occ, emp, kept.terms)
    # brackets
    small = FermionOperator()
    small.terms = dict(list(op.terms.items())[:10])
    ma, mb = masks(small.terms), masks(other.terms)
    ab, ba = ref.masks_mul(ma, mb), ref.masks_mul(mb, ma)
    require(ref.masks_close(masks(commutator(small, other).terms), ref.masks_add(ab, ba, -1), 1e-7), "commutator", small.terms, other.terms)
    require(ref.masks_close(masks(anticommutator(small, other).terms), ref.masks_add(ab, ba), 1e-7), "anticommutator", small.terms, other.terms)
    require((op.terms, other.terms) == keep, "an operand was changed")
