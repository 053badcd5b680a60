"""C15: fermion-to-qubit encodings preserve the operator algebra."""
import numpy as np
from hypothesis import strategies as st

from pbt import ops, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated fermion and interaction operators against occupation-number matrices, the Fenwick-tree basis change, and the anticommutation relations checked with an independent Pauli algebra on registers of up to 70 modes"
ASSUMPTIONS = [
    "interaction operators given to the direct encodings are Hermitian (the encodings are documented for those)",
    "dense comparisons up to 5 modes; the algebra laws are checked on sparse Pauli sums with up to 70 modes",
]


def encodings():
    from zquantum.core.openfermion.transforms import bravyi_kitaev, jordan_wigner

    return {"jw": jordan_wigner, "bk": bravyi_kitaev}


def fenwick(n):
    """Bravyi-Kitaev basis change: permutation matrix |occupations> -> |encoded bits>."""
    dim = 2**n
    m = np.zeros((dim, dim))
    for idx in range(dim):
        occ = ref.bits(idx, n)
        enc = 0
        for i in range(n):
            k = i + 1
            low = k & -k
            bit = sum(occ[k - low : k]) % 2
            enc |= bit << (n - 1 - i)
        m[enc, idx] = 1
    return m


_fenwick = {}


def encoded(kind, dense, n):
    if kind == "jw":
        return dense
    if n not in _fenwick:
        _fenwick[n] = fenwick(n)
    return _fenwick[n] @ dense @ _fenwick[n].T


def encode(kind, op, n):
    e = encodings()[kind]
    return e(op) if kind == "jw" or n is None else e(op, n)


@st.composite
def small(draw):
    n = draw(st.integers(1, 5))
    o = draw(ops.operators("fermion", n, max_terms=4, min_terms=1, max_len=4))
    return {"op": o, "n": n, "kind": draw(st.sampled_from(["jw", "bk", "bk"])), "explicit": draw(st.booleans()), "extra": draw(st.integers(0, 2))}


def ladders(case):
    return len(case["op"]["terms"]) >= 2 and any(len({f[0] for f in fs}) >= 2 for fs, _ in case["op"]["terms"])


@sub(small(), quick=350, thorough=8000, rule="two or more terms, one of them on two or more modes", nt=ladders)
def encoded_operator_is_the_same_operator(case):
    op = ops.build(case["op"])
    before = dict(op.terms)
    width = ops.width(case["op"])
    n = max(1, width)
    if case["kind"] == "bk":
        if case["explicit"]:
            n = max(1, min(5, max(case["n"], width) + case["extra"]))
            q = encode("bk", op, n)
        else:
            q = encode("bk", op, None)
    else:
        q = encode("jw", op, None)
    dense = ops.matrix(case["op"], n)
    require(ops.width({"terms": [[t, 1] for t in q.terms]}) <= n, "image leaves the register", q.terms)
    got = ops.obj_matrix(q, n, "qubit")
    require(ref.close(got, encoded(case["kind"], dense, n)), f"{case['kind']} image differs from the encoded operator", op.terms, q.terms, n)
    require(op.terms == before, "encoding changed its argument")
    label(case["kind"])
    # spectrum, for operators with a Hermitian part
    h = dense + dense.conj().T
    from zquantum.core.openfermion.utils import hermitian_conjugated

    hq = ops.obj_matrix(q, n, "qubit")
    require(ref.close(np.linalg.eigvalsh(hq + hq.conj().T), np.linalg.eigvalsh(h)), "spectrum of the Hermitian part differs")
    other = encode(case["kind"], hermitian_conjugated(op), n if case["kind"] == "bk" else None)
    require(ref.close(ops.obj_matrix(other, n, "qubit"), got.conj().T), "image of the Hermitian conjugate", op.terms)


@st.composite
def symbolic_cases(draw):
    n = draw(st.integers(1, 3))
    return {"op": draw(ops.operators("fermion", n, max_terms=2, min_terms=1, max_len=2, symbolic=True)), "kind": draw(st.sampled_from(["jw", "bk"]))}


@sub(symbolic_cases(), quick=60, thorough=800, rule="a symbolic coefficient", nt=lambda c: any(isinstance(k, dict) for _, k in c["op"]["terms"]))
def symbolic_coefficients(case):
    op = ops.build(case["op"])
    n = max(1, ops.width(case["op"]))
    q = encode(case["kind"], op, None)
    require(ref.close(ops.obj_matrix(q, n, "qubit"), encoded(case["kind"], ops.matrix(case["op"], n), n)), f"{case['kind']} image", op.terms, q.terms)


@st.composite
def wide(draw):
    n = draw(st.one_of(st.integers(2, 12), st.integers(13, 70)))
    mode = st.one_of(st.integers(0, n - 1), st.sampled_from([i for i in (0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64) if i < n]))
    return {"n": n, "p": draw(mode), "q": draw(mode), "ap": draw(st.integers(0, 1)), "aq": draw(st.integers(0, 1)), "kind": draw(st.sampled_from(["jw", "bk", "bk"])), "c": draw(ops.coefs())}


@sub(wide(), quick=500, thorough=15000, rule="two different modes", nt=lambda c: c["p"] != c["q"])
def canonical_anticommutation_relations(case):
    from zquantum.core.openfermion.ops import FermionOperator

    n, kind = case["n"], case["kind"]
    fa, fb = FermionOperator(((case["p"], case["ap"]),)), FermionOperator(((case["q"], case["aq"]),))
    a, b = (ref.pauli_masks(encode(kind, f, n).terms) for f in (fa, fb))
    anti = ref.masks_add(ref.masks_mul(a, b), ref.masks_mul(b, a))
    want = {(0, 0): 1.0} if case["p"] == case["q"] and case["ap"] != case["aq"] else {}
    require(ref.masks_close(anti, want), "anticommutator of two encoded ladder operators", case, anti)
    # product, sum and adjoint
    prod = FermionOperator(((case["p"], case["ap"]), (case["q"], case["aq"])), ops.coef_obj(case["c"]))
    c = ops.coef_val(case["c"])
    got = ref.pauli_masks(encode(kind, prod, n).terms)
    require(ref.masks_close(got, {k: c * v for k, v in ref.masks_mul(a, b).items()}), "image of a product", case)
    both = ref.pauli_masks(encode(kind, fa + ops.coef_obj(case["c"]) * fb, n).terms)
    require(ref.masks_close(both, ref.masks_add(a, b, c)), "image of a sum", case)
    adj = ref.pauli_masks(encode(kind, FermionOperator(((case["p"], 1 - case["ap"]),)), n).terms)
    require(ref.masks_close(adj, ref.masks_adjoint(a)), "image of the adjoint", case)
    label(kind)


@st.composite
def rejected(draw):
    return {"kind": draw(st.sampled_from(["jw", "bk", "reverse"])), "what": draw(st.sampled_from(["other operator", "number", "none", "text", "too small"])), "n": draw(st.integers(1, 4)), "less": draw(st.integers(1, 4))}


@sub(rejected(), quick=60, thorough=500, rule="every case")
def unsuitable_arguments_are_rejected(case):
    from zquantum.core.openfermion.ops import FermionOperator, InteractionOperator, QubitOperator
    from zquantum.core.openfermion.transforms import reverse_jordan_wigner

    n = case["n"]
    if case["kind"] == "reverse":
        fn, good, bad = reverse_jordan_wigner, QubitOperator(((n, "Z"),)), FermionOperator(((n, 1),))
    else:
        fn, good, bad = encodings()[case["kind"]], FermionOperator(((n, 1),)), QubitOperator(((n, "Z"),))
    if case["what"] == "too small":
        if case["kind"] == "jw":
            return
        k = max(0, n + 1 - case["less"])
        raises(ValueError, lambda: fn(good, k), f"{k} qubits for mode {n}")
        if case["kind"] == "bk":
            iop = InteractionOperator(0.0, np.eye(n + 1), np.zeros((n + 1,) * 4))
            raises(ValueError, lambda: fn(iop, k), f"{k} qubits for an interaction operator on {n + 1}")
        return
    value = {"other operator": bad, "number": 3, "none": None, "text": "1.0 [0^ 0]"}[case["what"]]
    raises(TypeError, lambda: fn(value), f"{case['kind']} of {value!r}")


@st.composite
def interactions(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9]))
    cplx = draw(st.booleans())
    num = st.one_of(st.sampled_from([1.0, -0.5, 0.25]), st.floats(0.05, 2), st.floats(-2, -0.05))
    ent = lambda: [draw(num), draw(num) if cplx else 0.0]
    one = [[draw(st.integers(0, n - 1)) for _ in range(2)] + [ent()] for _ in range(draw(st.integers(0, 4)))]
    two = []
    for _ in range(draw(st.integers(0, 6))):
        p, q = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if n >= 4 and draw(st.integers(0, 2)) == 0:
            idx = draw(st.permutations(range(n)))[:4]
        elif n >= 2:
            idx = [draw(st.integers(0, n - 1)) for _ in range(4)]
        else:
            idx = [p, q, p, q]
        two.append(list(idx) + [ent()])
    return {"n": n, "cplx": cplx, "constant": draw(st.sampled_from([0.0, 1.5, -0.75, 2])), "one": one, "two": two, "extra": draw(st.integers(0, 3))}


def hermitian_tensors(case):
    n = case["n"]
    dt = complex if case["cplx"] else float
    one, two = np.zeros((n, n), dtype=dt), np.zeros((n,) * 4, dtype=dt)

    def value(e):
        return complex(*e) if case["cplx"] else e[0]

    for p, q, e in case["one"]:
        one[p, q] += value(e)
    for p, q, r, s, e in case["two"]:
        two[p, q, r, s] += value(e)
    one = (one + one.conj().T) / 2
    two = (two + two.conj().transpose(3, 2, 1, 0)) / 2
    return one, two


def distinct4(case):
    return any(p != q and r != s for p, q, r, s, _ in case["two"]) and len(case["two"]) + len(case["one"]) >= 2


@sub(interactions(), quick=250, thorough=5000, rule="two or more entries, one a non-vanishing two-body entry", nt=distinct4)
def interaction_operators_encode_like_their_fermion_form(case):
    from zquantum.core.openfermion.ops import InteractionOperator

    n = case["n"]
    one, two = hermitian_tensors(case)
    iop = InteractionOperator(case["constant"], one.copy(), two.copy())
    terms = [[[], case["constant"]]]
    terms += [[[[p, 1], [q, 0]], one[p, q]] for p in range(n) for q in range(n) if one[p, q]]
    terms += [[[[p, 1], [q, 1], [r, 0], [s, 0]], two[p, q, r, s]] for p, q, r, s in zip(*np.nonzero(two))]
    terms = [[[[int(i), a] for i, a in fs], complex(c)] for fs, c in terms]
    form = ops.build({"kind": "fermion", "terms": terms})
    for kind in ("jw", "bk"):
        for m in ([n] if kind == "jw" else [None, n + case["extra"]]):
            direct = encode(kind, iop, m)
            via = encode(kind, form, n if m is None else m)
            require(ref.masks_close(ref.pauli_masks(direct.terms), ref.pauli_masks(via.terms), 1e-7), f"direct {kind} encoding differs from that of the fermion form", m, direct.terms, via.terms)
            if n <= 4 and (m or n) <= 5:
                m_ = m or n
                dense = ops.matrix({"kind": "fermion", "terms": terms}, m_)
                require(ref.close(ops.obj_matrix(direct, m_, "qubit"), encoded(kind, dense, m_), 1e-7), f"direct {kind} encoding differs from the operator's matrix", direct.terms)
    require(np.array_equal(iop.one_body_tensor, one) and np.array_equal(iop.two_body_tensor, two) and iop.constant == case["constant"], "encoding changed the operator")
    label("complex" if case["cplx"] else "real")


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([3, 4, 5, 5, 6]), "seed": st.integers(0, 10**6), "cplx": st.booleans(), "holes": st.sampled_from([0.0, 0.5]), "constant": st.sampled_from([0.0, 1.5]), "extra": st.integers(0, 2)}),
    quick=16,
    thorough=200,
    shards=4,
    rule="five modes or more",
    nt=lambda c: c["n"] >= 5,
)
def dense_interaction_operators(case):
    from zquantum.core.openfermion.ops import InteractionOperator

    n, r = case["n"], np.random.RandomState(case["seed"])
    draw = lambda *k: (r.uniform(0.1, 2, k) * r.choice([-1, 1], k) + (1j * r.uniform(0.1, 2, k) if case["cplx"] else 0)) * (r.uniform(size=k) >= case["holes"])  # noqa
    one, two = draw(n, n), draw(n, n, n, n)
    one = (one + one.conj().T) / 2
    two = (two + two.conj().transpose(3, 2, 1, 0)) / 2
    iop = InteractionOperator(case["constant"], one.copy(), two.copy())
    terms = {(): case["constant"]}
    terms.update({((p, 1), (q, 0)): one[p, q] for p in range(n) for q in range(n) if one[p, q]})
    terms.update({((p, 1), (q, 1), (r, 0), (s, 0)): two[p, q, r, s] for p, q, r, s in np.argwhere(two != 0).tolist() if p != q and r != s})
    want = ref.jw_masks(terms)
    require(ref.masks_close(ref.pauli_masks(encode("jw", iop, n).terms), want, 1e-7), "direct jw encoding of a dense operator", n)
    m = n + case["extra"]
    via = ops.build({"kind": "fermion", "terms": [[[list(f) for f in t], complex(c)] for t, c in terms.items()]})
    require(ref.masks_close(ref.pauli_masks(encode("bk", iop, m).terms), ref.pauli_masks(encode("bk", via, m).terms), 1e-7), "direct bk encoding of a dense operator", n, m)


@st.composite
def pieces(draw):
    n = draw(st.integers(2, 14))
    k = draw(st.sampled_from([2, 4, 4, 4]))
    idx = draw(st.permutations(range(n)))[:k] if draw(st.booleans()) and n >= k else [draw(st.integers(0, n - 1)) for _ in range(k)]
    c = [round(draw(st.floats(-2, 2)), 3), round(draw(st.floats(-2, 2)), 3) if draw(st.booleans()) else 0.0]
    return {"idx": list(idx), "c": c}


@sub(pieces(), quick=250, thorough=4000, rule="all indices different", nt=lambda c: len(set(c["idx"])) == len(c["idx"]))
def one_and_two_body_pieces(case):
    from zquantum.core.openfermion.transforms import jordan_wigner_one_body, jordan_wigner_two_body

    idx = case["idx"]
    half = len(idx) // 2
    self_adjoint = set(idx[:half]) == set(idx[half:])
    c = complex(*case["c"])
    if self_adjoint or case["c"][1] == 0:
        c = case["c"][0]
    term = tuple((i, 1) for i in idx[:half]) + tuple((i, 0) for i in idx[half:])
    m = ref.jw_masks({term: c})
    want = m if self_adjoint else ref.masks_add(m, ref.masks_adjoint(m))
    got = (jordan_wigner_one_body if half == 1 else jordan_wigner_two_body)(*idx, c)
    require(ref.masks_close(ref.pauli_masks(got.terms), want), "one- or two-body term plus conjugate", idx, c, got.terms)
    label(f"{len(set(idx))} distinct of {len(idx)}")


@st.composite
def reversals(draw):
    n = draw(st.integers(1, 5))
    return {"op": draw(ops.operators("qubit", n, max_terms=4, min_terms=1, max_len=4)), "extra": draw(st.sampled_from([None, 0, 1, 3]))}


def strings(case):
    return any(len({f[0] for f in fs}) >= 2 and any(a in "XY" for _, a in fs) for fs, _ in case["op"]["terms"])


@sub(reversals(), quick=250, thorough=6000, rule="a term with X or Y on two or more qubits", nt=strings)
def reverse_undoes_jordan_wigner(case):
    from zquantum.core.openfermion.transforms import jordan_wigner, normal_ordered, reverse_jordan_wigner

    q = ops.build(case["op"])
    n = max(1, ops.width(case["op"]))
    before = dict(q.terms)
    f = reverse_jordan_wigner(q) if case["extra"] is None else reverse_jordan_wigner(q, n + case["extra"])
    require(ref.close(ops.obj_matrix(f, n, "fermion"), ops.matrix(case["op"], n)), "reverse image is another operator", q.terms, f.terms)
    back = jordan_wigner(f)
    require(ref.masks_close(ref.pauli_masks(back.terms), ref.pauli_masks(q.terms)), "encoding the reverse image does not give the operator back", q.terms, back.terms)
    require(back == q, "encoding the reverse image compares unequal", q.terms, back.terms)
    again = reverse_jordan_wigner(back)
    require(normal_ordered(again) == normal_ordered(f), "normal forms differ")
    require(q.terms == before, "reversal changed its argument")


@st.composite
def fermion_round_trips(draw):
    n = draw(st.sampled_from([2, 3, 5, 9]))
    return draw(ops.operators("fermion", n, max_terms=3, min_terms=1, max_len=4))


@sub(fermion_round_trips(), quick=200, thorough=4000, rule="a term on two or more modes", nt=lambda o: any(len({f[0] for f in fs}) >= 2 for fs, _ in o["terms"]))
def fermion_operators_come_back_normal_ordered(case):
    from zquantum.core.openfermion.transforms import jordan_wigner, normal_ordered, reverse_jordan_wigner

    op = ops.build(case)
    back = reverse_jordan_wigner(jordan_wigner(op))
    a, b = normal_ordered(back), normal_ordered(op)
    diff = {t: a.terms.get(t, 0) - b.terms.get(t, 0) for t in set(a.terms) | set(b.terms)}
    require(all(abs(v) < 1e-7 for v in diff.values()), "normal forms differ after encoding and back", op.terms, back.terms)


@st.composite
def wide_products(draw):
    n = draw(st.integers(6, 40))
    names = list(draw(st.permutations(range(n))))[: draw(st.integers(2, 6))]
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            fs = [[i, draw(st.integers(0, 1))] for i in names[: draw(st.integers(2, 6))]]
        else:
            fs = [[draw(st.sampled_from(names)), draw(st.integers(0, 1))] for _ in range(draw(st.integers(2, 6)))]
        terms.append([fs, draw(ops.coefs())])
    return {"n": n, "op": {"kind": "fermion", "terms": terms}, "kind": draw(st.sampled_from(["jw", "bk"]))}


@sub(wide_products(), quick=120, thorough=4000, rule="a product on three or more modes", nt=lambda c: any(len({f[0] for f in fs}) >= 3 for fs, _ in c["op"]["terms"]))
def products_of_many_ladder_operators(case):
    from zquantum.core.openfermion.ops import FermionOperator
    from zquantum.core.openfermion.transforms import jordan_wigner, normal_ordered, reverse_jordan_wigner

    n, kind = case["n"], case["kind"]
    op = ops.build(case["op"])
    single, want = {}, {}
    for fs, c in case["op"]["terms"]:
        acc = {(0, 0): ops.coef_val(c)}
        for i, a in fs:
            if (i, a) not in single:
                single[i, a] = ref.pauli_masks(encode(kind, FermionOperator(((i, a),)), n).terms)
            acc = ref.masks_mul(acc, single[i, a])
        want = ref.masks_add(want, acc)
    got = ref.pauli_masks(encode(kind, op, n).terms)
    require(ref.masks_close(got, want, 1e-7), f"{kind} image of a product is not the product of the images", op.terms, n)
    if kind == "jw":
        exact = {}
        for fs, c in case["op"]["terms"]:
            exact = ref.masks_add(exact, ref.jw_masks({tuple((i, a) for i, a in fs): ops.coef_val(c)}))
        require(ref.masks_close(got, exact, 1e-7), "Jordan-Wigner image", op.terms)


@st.composite
def wide_reversals(draw):
    n = draw(st.integers(5, 22))
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        # all but a few letters are Z or adjacent, so that the reverse image stays short
        m = draw(st.integers(1, 3))
        at = list(draw(st.permutations(range(n))))[:m]
        terms.append([[[i, draw(st.sampled_from("XYZ"))] for i in at], draw(ops.coefs())])
        if n <= 9 and draw(st.integers(0, 3)) == 0:
            terms[-1][0] = [[i, draw(st.sampled_from("XYZ"))] for i in range(n) if draw(st.booleans())]
        elif draw(st.booleans()):
            lo = at[0]
            hi = min(n - 1, lo + draw(st.integers(1, 6)))
            terms[-1][0] = [[lo, draw(st.sampled_from("XY"))]] + [[i, "Z"] for i in range(lo + 1, hi)] + [[hi, draw(st.sampled_from("XYZ"))]]
    # Z strings of the reverse image double its size for every mode: keep them short
    width = max([f[0] for fs, _ in terms for f in fs], default=0)
    return {"op": {"kind": "qubit", "terms": [t for t in terms if cost(t[0]) <= 8]}, "width": width, "extra": draw(st.sampled_from([None, 0, 2]))}


def cost(fs):
    """log2 of the size of the reverse image: one for every Z left after the ladder operators' strings cancel."""
    letters = dict((i, a) for i, a in fs)
    parity = n = 0
    for i in sorted(letters, reverse=True) and range(max(letters, default=-1), -1, -1):
        a = letters.get(i, "I")
        z = (a == "Z") ^ parity if a in "IZ" else 0
        n += bool(z) or a in "XY"
        if a in "XY":
            parity ^= 1
    return n


@sub(wide_reversals(), quick=120, thorough=4000, rule="X or Y on the sixth qubit or a later one", nt=lambda c: any(f[0] >= 5 and f[1] in "XY" for fs, _ in c["op"]["terms"] for f in fs))
def reversal_on_many_qubits(case):
    from zquantum.core.openfermion.transforms import jordan_wigner, reverse_jordan_wigner

    q = ops.build(case["op"])
    if case["extra"] is None or not case["op"]["terms"]:
        f = reverse_jordan_wigner(q)
    else:
        f = reverse_jordan_wigner(q, ops.width(case["op"]) + case["extra"])
    want = ref.pauli_masks(q.terms)
    require(ref.masks_close(ref.jw_masks(f.terms), want, 1e-7), "reverse image is another operator", q.terms)
    back = jordan_wigner(f)
    require(ref.masks_close(ref.pauli_masks(back.terms), want, 1e-7), "encoding the reverse image does not give the operator back", q.terms)
    label(f"{len(f.terms).bit_length()} bits of terms")


@st.composite
def large_sums(draw):
    return {
        "kind": draw(st.sampled_from(["jw", "bk", "bk"])),
        "n": draw(st.sampled_from([1, 2, 5, 8, 9, 13, 16, 17, 33, 64])),
        "extra": draw(st.sampled_from([None, 0, 1, 7])),
        "m": draw(st.sampled_from([1, 8, 25, 60])),
        "longest": draw(st.sampled_from([2, 4, 8])),
        "cplx": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }


@sub(large_sums(), quick=60, thorough=2000, shards=2, rule="eight terms or more on eight modes or more", nt=lambda c: c["m"] >= 8 and c["n"] >= 8)
def operators_with_many_terms(case):
    from zquantum.core.openfermion.ops import FermionOperator

    n, r = case["n"], np.random.RandomState(case["seed"])
    op = FermionOperator()
    for _ in range(case["m"]):
        k = r.randint(0, case["longest"] + 1)
        t = [(int(r.randint(n)), int(r.randint(2))) for _ in range(k)]
        if r.randint(2) and k <= n:
            # distinct modes, so that nothing vanishes
            t = [(int(i), int(r.randint(2))) for i in r.permutation(n)[:k]]
        x, y = r.uniform(0.05, 3, 2) * r.choice([-1, 1], 2)
        op.terms[tuple(t)] = complex(x, y) if case["cplx"] else float(x)
    keep = dict(op.terms)
    jw = ref.jw_masks(op.terms)
    width = max([i + 1 for t in op.terms for i, _ in t], default=0)
    if case["kind"] == "jw":
        got = encode("jw", op, None)
        want = jw
    else:
        m = None if case["extra"] is None else width + case["extra"]
        got = encode("bk", op, m)
        want = ref.bk_masks(jw, max(1, width if m is None else m))
    require(ref.masks_close(ref.pauli_masks(got.terms), want, 1e-7), f"{case['kind']} image", op.terms, got.terms)
    require(op.terms == keep, "encoding changed its argument")
