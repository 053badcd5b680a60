"""Independent numpy reference implementations (oracles).  Nothing here imports from /repo."""
import cmath
import itertools
import math

import numpy as np

SQ2 = 1 / math.sqrt(2)
P1 = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
    "H": np.array([[SQ2, SQ2], [SQ2, -SQ2]], dtype=complex),
    "S": np.diag([1, 1j]).astype(complex),
    "T": np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(complex),
}
P2 = {
    "CNOT": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex),
    "CZ": np.diag([1, 1, 1, -1]).astype(complex),
    "SWAP": np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex),
    "ISWAP": np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], dtype=complex),
}
N_PARAMS = {
    **{g: 0 for g in list(P1) + list(P2)},
    **{g: 1 for g in ["RX", "RY", "RZ", "RH", "PHASE", "CPHASE", "XX", "YY", "ZZ", "XY"]},
    "U3": 3,
}
N_QUBITS = {
    **{g: 1 for g in list(P1) + ["RX", "RY", "RZ", "RH", "PHASE", "U3"]},
    **{g: 2 for g in list(P2) + ["CPHASE", "XX", "YY", "ZZ", "XY"]},
}


def exp_involution(op, t):
    """exp(-i t/2 op) for op with op^2 = 1."""
    return math.cos(t / 2) * np.eye(op.shape[0], dtype=complex) - 1j * math.sin(t / 2) * op


def gate_matrix(name, params=()):
    if name in P1:
        return P1[name]
    if name in P2:
        return P2[name]
    t = params[0]
    if name == "RX":
        return exp_involution(P1["X"], t)
    if name == "RY":
        return exp_involution(P1["Y"], t)
    if name == "RZ":
        return exp_involution(P1["Z"], t)
    if name == "RH":
        return cmath.exp(0.5j * t) * exp_involution(P1["H"], t)
    if name == "PHASE":
        return np.diag([1, cmath.exp(1j * t)])
    if name == "CPHASE":
        return np.diag([1, 1, 1, cmath.exp(1j * t)])
    if name in ("XX", "YY", "ZZ"):
        p = P1[name[0]]
        return exp_involution(np.kron(p, p), t)
    if name == "XY":
        c, s = math.cos(t / 2), math.sin(t / 2)
        return np.array([[1, 0, 0, 0], [0, c, 1j * s, 0], [0, 1j * s, c, 0], [0, 0, 0, 1]])
    if name == "U3":
        th, ph, la = params
        c, s = math.cos(th / 2), math.sin(th / 2)
        return np.array(
            [[c, -cmath.exp(1j * la) * s], [cmath.exp(1j * ph) * s, cmath.exp(1j * (ph + la)) * c]]
        )
    raise KeyError(name)


def controlled(m, k):
    d = m.shape[0] * 2**k
    out = np.eye(d, dtype=complex)
    out[d - m.shape[0] :, d - m.shape[0] :] = m
    return out


def apply_matrix(m, qubits, vec, n):
    """Applies m (acting on `qubits`, in that order, first = most significant) to vec."""
    k = len(qubits)
    t = np.asarray(vec, dtype=complex).reshape((2,) * n)
    m = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(qubits)))
    # axes 0..k-1 of t are now the new values of `qubits`
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape(-1)


def embed(m, qubits, n):
    dim = 2**n
    out = np.zeros((dim, dim), dtype=complex)
    for c in range(dim):
        e = np.zeros(dim, dtype=complex)
        e[c] = 1
        out[:, c] = apply_matrix(m, qubits, e, n)
    return out


def pauli_matrix(term, n):
    """term: iterable of (qubit, letter)."""
    out = np.eye(1, dtype=complex)
    d = dict(term)
    for q in range(n):
        out = np.kron(out, P1[d.get(q, "I")])
    return out


def ladder(n, mode, raising):
    """Jordan-Wigner matrix of a ladder operator, mode 0 most significant, built by action on
    occupation states (not from Pauli matrices)."""
    dim = 2**n
    out = np.zeros((dim, dim), dtype=complex)
    for idx in range(dim):
        occ = [(idx >> (n - 1 - j)) & 1 for j in range(n)]
        sign = (-1) ** sum(occ[:mode])
        if raising and occ[mode] == 0:
            out[idx | (1 << (n - 1 - mode)), idx] = sign
        elif not raising and occ[mode] == 1:
            out[idx & ~(1 << (n - 1 - mode)), idx] = sign
    return out


_ladders = {}


def fermion_term_matrix(term, n):
    out = np.eye(2**n, dtype=complex)
    for mode, action in term:
        key = (n, mode, action)
        if key not in _ladders:
            _ladders[key] = ladder(n, mode, action)
        out = out @ _ladders[key]
    return out


def bits(i, n):
    return tuple((i >> (n - 1 - j)) & 1 for j in range(n))


def close(a, b, tol=1e-8):
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(b))))
    d = np.max(np.abs(a - b))
    return bool(d <= tol * scale)


def equal_up_to_phase(a, b, tol=1e-7):
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    k = np.argmax(np.abs(b))
    ra, rb = a.reshape(-1)[k], b.reshape(-1)[k]
    if abs(ra) < 1e-12:
        return False
    ph = ra / rb
    return abs(abs(ph) - 1) < tol and close(a, ph * b, tol)


# ----- Pauli algebra on bit masks: {(x, z): coefficient} stands for sum of coefficient * X^x Z^z ------------


def pauli_masks(terms):
    """terms: {((qubit, letter), ...): coefficient}, at most one factor per qubit."""
    out = {}
    for term, c in terms.items():
        x = z = 0
        c = complex(c)
        for q, a in term:
            if a in "XY":
                x |= 1 << q
            if a in "YZ":
                z |= 1 << q
            if a == "Y":
                c *= 1j  # Y = i X Z
        out[x, z] = out.get((x, z), 0) + c
    return out


def masks_mul(a, b):
    out = {}
    for (x1, z1), c1 in a.items():
        for (x2, z2), c2 in b.items():
            k = (x1 ^ x2, z1 ^ z2)
            s = -1 if bin(z1 & x2).count("1") % 2 else 1
            out[k] = out.get(k, 0) + s * c1 * c2
    return out


def masks_add(a, b, k=1):
    out = dict(a)
    for key, c in b.items():
        out[key] = out.get(key, 0) + k * c
    return out


def masks_adjoint(a):
    # (X^x Z^z)^dagger = Z^z X^x = (-1)^{|x&z|} X^x Z^z
    return {(x, z): (-1 if bin(x & z).count("1") % 2 else 1) * complex(c).conjugate() for (x, z), c in a.items()}


def masks_close(a, b, tol=1e-8):
    scale = max([1.0] + [abs(c) for c in b.values()])
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * scale for k in set(a) | set(b))


def jw_masks(terms, value=complex):
    """{((mode, 1 or 0), ...): coefficient} as a Pauli sum on bit masks, by the defining Jordan-Wigner images of
    the ladder operators; two fermion operators are equal exactly when these sums are."""
    out = {}
    for term, c in terms.items():
        acc = {(0, 0): value(c)}
        for p, a in term:
            low, bit = (1 << p) - 1, 1 << p
            acc = masks_mul(acc, {(bit, low): 0.5, (bit, low | bit): 0.5 if a else -0.5})
            acc = {k: v for k, v in acc.items() if v != 0}
        out = masks_add(out, acc)
    return out


def bk_masks(m, n):
    """A Jordan-Wigner Pauli sum on n modes in the Bravyi-Kitaev basis: qubit k-1 holds the parity of the
    occupations of modes k - lowbit(k) ... k-1."""
    cols, rows = [0] * n, [0] * n
    for k in range(1, n + 1):
        low = k & -k
        for j in range(k - low, k):
            cols[j] |= 1 << (k - 1)
        rows[k - 1] = 1 << (k - 1)
        c = k - 1
        while c > k - low:
            rows[k - 1] |= 1 << (c - 1)
            c -= c & -c

    def change(mask, table):
        out = 0
        for j in range(n):
            if mask >> j & 1:
                out ^= table[j]
        return out

    return {(change(x, cols), change(z, rows)): c for (x, z), c in m.items()}


def masks_freeze(m, occupied, empty):
    """The block of a Pauli sum in which qubits `occupied` are 1 and `empty` 0, on the remaining qubits in order."""
    occ, emp = sum(1 << i for i in occupied), sum(1 << i for i in empty)
    out = {}

    def squeeze(v):
        r = k = i = 0
        while v >> i:
            if not (occ | emp) >> i & 1:
                r |= (v >> i & 1) << k
                k += 1
            i += 1
        return r

    for (x, z), c in m.items():
        if x & (occ | emp):
            continue
        s = -1 if bin(z & occ).count("1") % 2 else 1
        k = (squeeze(x), squeeze(z))
        out[k] = out.get(k, 0) + s * c
    return out


def fermion_act(term, idx, n):
    """(sign, index) of a product of ladder operators applied to an occupation state, or None."""
    sign = 1
    for p, a in reversed(list(term)):
        bit = 1 << (n - 1 - p)
        if bool(idx & bit) == bool(a):
            return None
        if bin(idx >> (n - p)).count("1") % 2:
            sign = -sign
        idx ^= bit
    return sign, idx


def fermion_block(terms, basis, n):
    """Matrix of [(term, coefficient), ...] between the given occupation states; None if it leaves them."""
    at = {b: k for k, b in enumerate(basis)}
    out = np.zeros((len(basis), len(basis)), dtype=complex)
    for term, c in terms:
        for b in basis:
            r = fermion_act(term, b, n)
            if r and r[1] in at:
                out[at[r[1]], at[b]] += c * r[0]
    return out
