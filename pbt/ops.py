"""Generated qubit, Ising and fermion operators: descriptions, real objects, dense matrices.

An operator description is {"kind": "qubit|ising|fermion", "terms": [[factors, coefficient], ...]} with
factors [[index, action], ...] and coefficient a number, [re, im] or {"sym": name, "k": number}.
"""
import numpy as np
from hypothesis import strategies as st

from . import ref

ACTIONS = {"qubit": ["X", "Y", "Z"], "ising": ["Z"], "fermion": [0, 1]}
ENV = {"a": 0.731, "b": -1.37}


def cls(kind):
    from zquantum.core.openfermion import ops

    return {"qubit": ops.QubitOperator, "ising": ops.IsingOperator, "fermion": ops.FermionOperator}[kind]


@st.composite
def coefs(draw, symbolic=False, real=False, big=False):
    k = draw(st.integers(0, 9 if symbolic else 5))
    if k == 0:
        return draw(st.sampled_from([1, -1, 2, 3]))
    if k in (1, 2) or (real and k <= 5):
        x = draw(st.one_of(st.sampled_from([0.5, -0.25, 1.5, -2.0, 0.125]), st.floats(0.01, 3), st.floats(-3, -0.01)))
        if big and draw(st.integers(0, 3)) == 0:
            x *= 10.0 ** draw(st.integers(-6, 7))
        return x
    if k <= 5:
        return [draw(st.sampled_from([0.0, 0.5, -1.0, 0.25])), draw(st.sampled_from([1.0, -0.5, 0.75, -2.0]))] if draw(st.booleans()) else [round(draw(st.floats(-2, 2)), 3), draw(st.floats(0.1, 2))]
    return {"sym": draw(st.sampled_from(sorted(ENV))), "k": draw(st.sampled_from([1, 2, -0.5]))}


@st.composite
def factors(draw, kind, n, max_len=4):
    m = draw(st.integers(0, max_len))
    return [[draw(st.integers(0, n - 1)), draw(st.sampled_from(ACTIONS[kind]))] for _ in range(m)]


@st.composite
def operators(draw, kind=None, n=3, max_terms=4, min_terms=0, max_len=4, symbolic=False, real=False, big=False):
    kind = kind or draw(st.sampled_from(["qubit", "ising", "fermion"]))
    m = draw(st.integers(min_terms, max_terms))
    terms = [[draw(factors(kind, n, max_len)), draw(coefs(symbolic, real, big))] for _ in range(m)]
    if m > 1 and draw(st.integers(0, 3)) == 0:
        terms[-1][0] = [list(f) for f in terms[0][0]]
    return {"kind": kind, "terms": terms}


def coef_obj(c):
    import sympy

    if isinstance(c, dict):
        return c["k"] * sympy.Symbol(c["sym"])
    if isinstance(c, list):
        return complex(*c)
    return c


def coef_val(c):
    if isinstance(c, dict):
        return c["k"] * ENV[c["sym"]]
    if isinstance(c, list):
        return complex(*c)
    return c


def term_key(fs):
    return tuple((i, a) for i, a in fs)


def build(o):
    """Sum of single terms (each simplified by the class)."""
    C = cls(o["kind"])
    out = C()
    for fs, c in o["terms"]:
        out += C(term_key(fs), coef_obj(c))
    return out


def term_matrix(kind, fs, n):
    if kind == "fermion":
        return ref.fermion_term_matrix([(i, a) for i, a in fs], n)
    # products of Pauli matrices in the order given
    out = np.eye(2**n, dtype=complex)
    for f in fs:
        out = out @ ref.pauli_matrix([tuple(f)], n)
    return out


def matrix(o, n):
    m = np.zeros((2**n, 2**n), dtype=complex)
    for fs, c in o["terms"]:
        m = m + coef_val(c) * term_matrix(o["kind"], fs, n)
    return m


def matrix_on(o, n):
    """matrix(o, n), also when terms on later qubits or modes cancel."""
    w = max(n, width(o))
    return matrix(o, w)[:: 2 ** (w - n), :: 2 ** (w - n)]


def number(c):
    """Numeric value of a coefficient found in an operator."""
    import sympy

    if isinstance(c, sympy.Expr):
        return complex(c.subs({sympy.Symbol(k): v for k, v in ENV.items()}, simultaneous=True))
    return complex(c)


def obj_matrix(op, n, kind=None):
    from zquantum.core.openfermion.ops import FermionOperator

    kind = kind or ("fermion" if isinstance(op, FermionOperator) else "qubit")
    m = np.zeros((2**n, 2**n), dtype=complex)
    for term, c in op.terms.items():
        m = m + number(c) * term_matrix(kind, term, n)
    return m


def width(o):
    return max([f[0] + 1 for fs, _ in o["terms"] for f in fs], default=0)


def _state(x):
    if hasattr(x, "terms"):
        return dict(x.terms)
    return {k: np.array(v, copy=True) for k, v in x.n_body_tensors.items()}


def independent(what, result, *operands):
    """A result shares no state with an operand: what is later written into the result stays out of the operand."""
    from .core import require

    before = [_state(x) for x in operands]
    kept = _state(result)
    if hasattr(result, "terms"):
        result.terms[()] = 0.37
        for key in kept:
            result.terms[key] = 41.5
    else:
        for v in result.n_body_tensors.values():
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v += 7.25
    after = [_state(x) for x in operands]
    if hasattr(result, "terms"):
        result.terms.clear()
        result.terms.update(kept)
    else:
        for k, v in result.n_body_tensors.items():
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v[...] = kept[k]
    for x, b, a in zip(operands, before, after):
        same = b == a if hasattr(x, "terms") else (set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in a))
        require(same, f"{what}: writing into the result changed the operand", x)
