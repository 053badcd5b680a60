"""Circuit descriptions: strategies, construction of the real objects, reference semantics.

gate:  {"g": NAME, "p": [param...]}                      built-in
       {"custom": id, "p": [...]}                         user-defined, id indexes CUSTOM
       {"ctrl": k, "of": gate} / {"dag": gate}            wrappers
param: number | expression tree (list, see expr.py)
op:    [gate, [qubits...]] or {"phases": [param...]}
circuit: {"ops": [...], "n": int or None}
"""
import cmath
import math

import numpy as np
from hypothesis import strategies as st

from pbt import expr, ref

# user-defined gates: name -> (number of qubits, parameter names, matrix as function of values)
# The sympy matrices are built in custom_definition().
CUSTOM = {
    "cg_u1": (1, [], lambda: np.array([[0, 1j], [1, 0]], dtype=complex)),
    "cg_perm2": (
        2,
        [],
        lambda: np.array([[0, 1, 0, 0], [0, 0, 1j, 0], [0, 0, 0, -1], [1, 0, 0, 0]], dtype=complex),
    ),
    "cg_diag": (1, ["x"], lambda x: np.diag([cmath.exp(1j * x), cmath.exp(-2j * x)])),
    "cg_two": (
        1,
        ["gamma", "alpha"],
        lambda g, a: np.array(
            [
                [math.cos(g), -math.sin(g) * cmath.exp(-1j * a)],
                [math.sin(g) * cmath.exp(1j * a), math.cos(g)],
            ]
        ),
    ),
    "cg_3q": (
        3,
        ["b", "a"],
        lambda b, a: np.diag(
            [cmath.exp(1j * (k * a + (7 - k) * b)) for k in range(8)]
        )[[0, 2, 1, 3, 4, 7, 5, 6]],
    ),
    "cg_theta": (
        2,
        ["theta_0", "theta"],
        lambda t0, t: np.kron(ref.gate_matrix("RX", [t0]), ref.gate_matrix("RZ", [t])),
    ),
}


def custom_definition(name):
    import sympy
    from zquantum.core.circuits import CustomGateDefinition

    n, pnames, _ = CUSTOM[name]
    s = [sympy.Symbol(p) for p in pnames]
    exp, I, cos, sin = sympy.exp, sympy.I, sympy.cos, sympy.sin
    if name == "cg_u1":
        m = sympy.Matrix([[0, I], [1, 0]])
    elif name == "cg_perm2":
        m = sympy.Matrix([[0, 1, 0, 0], [0, 0, 1j, 0], [0, 0, 0, -1], [1, 0, 0, 0]])
    elif name == "cg_diag":
        m = sympy.Matrix([[exp(I * s[0]), 0], [0, exp(-2 * I * s[0])]])
    elif name == "cg_two":
        g, a = s
        m = sympy.Matrix([[cos(g), -sin(g) * exp(-I * a)], [sin(g) * exp(I * a), cos(g)]])
    elif name == "cg_3q":
        b, a = s
        m = sympy.diag(*[exp(I * (k * a + (7 - k) * b)) for k in range(8)])
        m = m[[0, 2, 1, 3, 4, 7, 5, 6], :]
    elif name == "cg_theta":
        t0, t = s
        rx = sympy.Matrix([[cos(t0 / 2), -I * sin(t0 / 2)], [-I * sin(t0 / 2), cos(t0 / 2)]])
        rz = sympy.Matrix([[exp(-I * t / 2), 0], [0, exp(I * t / 2)]])
        m = sympy.Matrix(4, 4, lambda r, c: rx[r // 2, c // 2] * rz[r % 2, c % 2])
    return CustomGateDefinition(name, m, tuple(s))


# ---------------------------------------------------------------- strategies


@st.composite
def params(draw, symbolic, names):
    if symbolic == "none":
        return draw(expr.angles)
    k = draw(st.integers(0, 5))
    if symbolic == "mixed" and k < 2:
        return draw(expr.angles)
    if k < 4:
        return ["sym", draw(st.sampled_from(names))]
    return draw(expr.exprs(names, max_leaves=3))


def base_gates(max_q, symbolic="none", names=expr.NAMES, custom=True, u3=True):
    opts = []
    by = [g for g in ref.N_QUBITS if ref.N_QUBITS[g] <= max_q and (u3 or g != "U3")]
    const = [g for g in by if ref.N_PARAMS[g] == 0]
    par = [g for g in by if ref.N_PARAMS[g] == 1]
    p = params(symbolic, names)
    if symbolic != "only":
        opts.append(st.sampled_from(const).map(lambda g: {"g": g, "p": []}))
    opts.append(st.tuples(st.sampled_from(par), p).map(lambda t: {"g": t[0], "p": [t[1]]}))
    if u3:
        # the U3 matrix is slow to build symbolically, so it gets smaller parameters
        pu = p if symbolic == "none" else st.one_of(
            expr.angles, st.sampled_from(names).map(lambda s: ["sym", s])
        )
        opts.append(st.tuples(pu, pu, pu).map(lambda t: {"g": "U3", "p": list(t)}))
    if custom:
        cs = [c for c in CUSTOM if CUSTOM[c][0] <= max_q]
        if symbolic == "only":
            cs = [c for c in cs if CUSTOM[c][1]]
        opts.append(
            st.sampled_from(cs).flatmap(
                lambda c: st.tuples(*[p] * len(CUSTOM[c][1])).map(
                    lambda t: {"custom": c, "p": list(t)}
                )
            )
        )
    return st.one_of(opts)


@st.composite
def gates(draw, max_q, symbolic="none", names=expr.NAMES, custom=True, wrap=2, u3=True):
    g = draw(base_gates(max_q, symbolic, names, custom, u3))
    nq = gate_qubits(g)
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3][: 5 + wrap]))):
        if draw(st.booleans()):
            g = {"dag": g}
        elif nq < max_q:
            k = draw(st.integers(1, max_q - nq))
            g = {"ctrl": k, "of": g}
            nq += k
    return g


@st.composite
def operations(draw, n, symbolic="none", names=expr.NAMES, custom=True, wrap=2, u3=True, max_gate=4):
    g = draw(gates(min(n, max_gate), symbolic, names, custom, wrap, u3))
    k = gate_qubits(g)
    qs = draw(st.permutations(list(range(n))))[:k]
    return [g, list(qs)]


@st.composite
def circuits(
    draw, max_n=4, max_ops=6, min_ops=1, symbolic="none", names=expr.NAMES, custom=True, wrap=2,
    u3=True, min_n=1, pad=True, phases=False,
):
    n = draw(st.integers(min_n, max_n))
    one = operations(n, symbolic, names, custom, wrap, u3)
    if phases:
        ph = st.lists(params(symbolic, names), min_size=2**n, max_size=2**n).map(
            lambda p: {"phases": p}
        )
        one = st.one_of(one, one, one, ph)
    ops = draw(st.lists(one, min_size=min_ops, max_size=max_ops))
    if any(isinstance(o, dict) for o in ops):
        size = n
    else:
        size = draw(st.sampled_from([n, n, None] if pad else [None]))
    return {"ops": ops, "n": size}


# ---------------------------------------------------------------- construction


def build_param(p):
    if isinstance(p, list):
        return expr.to_sympy(p)
    return p


def build_gate(g):
    import zquantum.core.circuits as zc

    if "dag" in g:
        return build_gate(g["dag"]).dagger
    if "ctrl" in g:
        return build_gate(g["of"]).controlled(g["ctrl"])
    ps = [build_param(p) for p in g["p"]]
    if "custom" in g:
        return custom_definition(g["custom"])(*ps)
    gr = getattr(zc, g["g"])
    return gr(*ps) if ref.N_PARAMS[g["g"]] else gr


def build_op(o):
    from zquantum.core.circuits import MultiPhaseOperation

    if isinstance(o, dict):
        return MultiPhaseOperation(tuple(build_param(p) for p in o["phases"]))
    return build_gate(o[0])(*o[1])


def build_circuit(c):
    from zquantum.core.circuits import Circuit

    return Circuit([build_op(o) for o in c["ops"]], n_qubits=c["n"])


# ---------------------------------------------------------------- reference semantics


def gate_qubits(g):
    if "dag" in g:
        return gate_qubits(g["dag"])
    if "ctrl" in g:
        return g["ctrl"] + gate_qubits(g["of"])
    if "custom" in g:
        return CUSTOM[g["custom"]][0]
    return ref.N_QUBITS[g["g"]]


def gate_params(g):
    while "p" not in g:
        g = g["dag"] if "dag" in g else g["of"]
    return g["p"]


def param_value(p, env):
    return expr.value(p, env) if isinstance(p, list) else p


def ref_gate(g, env=None):
    if "dag" in g:
        return ref_gate(g["dag"], env).conj().T
    if "ctrl" in g:
        return ref.controlled(ref_gate(g["of"], env), g["ctrl"])
    ps = [param_value(p, env) for p in g["p"]]
    if "custom" in g:
        return CUSTOM[g["custom"]][2](*ps)
    return ref.gate_matrix(g["g"], ps)


def circuit_n(c):
    if c["n"]:
        return c["n"]
    m = 0
    for o in c["ops"]:
        if isinstance(o, dict):
            m = max(m, int(math.log2(len(o["phases"]))))
        else:
            m = max([m] + [q + 1 for q in o[1]])
    return m


def ref_apply(ops, vec, n, env=None):
    for o in ops:
        if isinstance(o, dict):
            vec = vec * np.exp(1j * np.array([param_value(p, env) for p in o["phases"]]))
        else:
            vec = ref.apply_matrix(ref_gate(o[0], env), o[1], vec, n)
    return vec


def ref_unitary(c, env=None, n=None):
    n = n or circuit_n(c)
    cols = []
    for k in range(2**n):
        e = np.zeros(2**n, dtype=complex)
        e[k] = 1
        cols.append(ref_apply(c["ops"], e, n, env))
    return np.array(cols).T


def op_params(o):
    return o["phases"] if isinstance(o, dict) else gate_params(o[0])


def circuit_symbols(c):
    out = set()
    for o in c["ops"]:
        for p in op_params(o):
            if isinstance(p, list):
                out |= expr.symbols(p)
    return out


def envs(names):
    """Assignments of generic values in (-4, 4), derived from one drawn integer."""

    def make(k):
        out = {}
        for i, s in enumerate(names):
            v = math.sin(12.9898 * (k + 1) + 78.233 * (i + 1)) * 43758.5453
            out[s] = round((v - math.floor(v)) * 8 - 4, 5)
        return out

    return st.integers(0, 10**6).map(make)


def numeric(matrix, env=None):
    """sympy or numpy matrix -> complex numpy array, with symbols substituted by env values."""
    import sympy

    if isinstance(matrix, sympy.MatrixBase):
        if env:
            sub = {s: env[str(s)] for s in matrix.free_symbols}
            if sub:
                matrix = matrix.evalf(20, subs=sub)
        return np.array([[complex(x) for x in row] for row in matrix.tolist()], dtype=complex)
    a = np.asarray(matrix)
    return a.astype(complex)


def flat_ops_text(c):
    return [str(o) for o in c["ops"]]


# ---------------------------------------------------------------- large circuits from a seed


def big_params(rs, count, symbolic, names):
    out = []
    for _ in range(count):
        if symbolic == "none" or (symbolic == "mixed" and rs.randint(3) == 0):
            out.append([0.0, math.pi, -math.pi / 2, 0.5][rs.randint(4)] if rs.randint(4) == 0 else round(float(rs.uniform(-7, 7)), 4))
            continue
        s = ["sym", names[rs.randint(len(names))]]
        k = rs.randint(5)
        t = ["sym", names[rs.randint(len(names))]]
        out.append([s, ["neg", s], ["add", s, t], ["mul", ["rat", int(rs.randint(1, 6)), int(rs.randint(1, 6))], s], ["sub", ["mul", s, t], ["num", 0.25]]][k])
    return out


def big_gate(rs, max_q, symbolic="none", names=expr.NAMES, custom=True, wrap=True, u3=True, max_ctrl=3):
    pool = [(1, {"g": g}, ref.N_PARAMS[g]) for g in ref.N_QUBITS if ref.N_QUBITS[g] <= max_q and (u3 or g != "U3")]
    if custom:
        pool += [(1, {"custom": c}, len(CUSTOM[c][1])) for c in CUSTOM if CUSTOM[c][0] <= max_q]
    _, g, k = pool[rs.randint(len(pool))]
    g = dict(g, p=big_params(rs, k, symbolic, names))
    if wrap:
        for _ in range([0, 0, 0, 1, 1, 2][rs.randint(6)]):
            room = min(max_ctrl, max_q - gate_qubits(g))
            if room > 0 and rs.randint(2):
                g = {"ctrl": int(rs.randint(1, room + 1)), "of": g}
            else:
                g = {"dag": g}
    return g


def big_ops(seed, n, count, max_gate=3, span=None, shared=0, **kw):
    """`count` operations on n qubits.  `span` bounds the distance of the qubits of one operation;
    `shared` of ten operations repeat the gate of an earlier one."""
    rs = np.random.RandomState(seed)
    ops = []
    for _ in range(count):
        if ops and rs.randint(10) < shared:
            g = ops[rs.randint(len(ops))][0]
        else:
            g = big_gate(rs, min(n, max_gate), **kw)
        w = min(n, max(span or n, gate_qubits(g)))
        base = rs.randint(n - w + 1)
        ops.append([g, [int(base + q) for q in rs.permutation(w)[: gate_qubits(g)]]])
    return ops
