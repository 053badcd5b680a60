"""C01: circuit unitary = ordered product of embedded gate matrices."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import fail, label, raises, require, sub

ASSUMPTIONS = [
    "gate parameters are real; qubit indices inside one operation are distinct (documented use)",
    "numeric comparison at relative tolerance 1e-8",
]


def has_wrap(c):
    return any(isinstance(o, list) and ("dag" in o[0] or "ctrl" in o[0]) for o in c["ops"])


def nt_circuit(c):
    """>=2 operations, at least one multi-qubit operation."""
    return len(c["ops"]) >= 2 and any(isinstance(o, list) and len(o[1]) >= 2 for o in c["ops"])


def classify(c):
    n = gen.circuit_n(c)
    for o in c["ops"]:
        if isinstance(o, list):
            q = o[1]
            if len(q) > 1 and q != sorted(q):
                label("unordered qubits")
            if len(q) > 1 and max(q) - min(q) >= len(q):
                label("non-adjacent qubits")
            if "ctrl" in o[0]:
                label("controlled")
            if "dag" in o[0]:
                label("dagger")
            if "custom" in o[0]:
                label("custom")
    used = {q for o in c["ops"] if isinstance(o, list) for q in o[1]}
    if len(used) < n:
        label("idle qubit")


@sub(
    lambda: gen.circuits(max_n=5, max_ops=6),
    quick=300,
    thorough=12000,
    shards=4,
    rule="at least two operations, one of them on two or more qubits",
    nt=nt_circuit,
)
def numeric_unitary(c):
    classify(c)
    circ = gen.build_circuit(c)
    n = gen.circuit_n(c)
    require(circ.n_qubits == n, f"n_qubits {circ.n_qubits}, expected {n}")
    u = gen.numeric(circ.to_unitary())
    want = gen.ref_unitary(c)
    require(ref.close(u, want), "unitary differs from the ordered product of embedded gates")


@sub(
    lambda: gen.circuits(max_n=7, min_n=5, max_ops=3),
    quick=24,
    thorough=400,
    rule="at least two operations, one of them on two or more qubits",
    nt=nt_circuit,
)
def wide_unitary(c):
    classify(c)
    circ = gen.build_circuit(c)
    u = gen.numeric(circ.to_unitary())
    require(ref.close(u, gen.ref_unitary(c)), "unitary differs on a wide register")


@sub(
    lambda: st.tuples(
        gen.circuits(max_n=3, max_ops=4, symbolic="mixed", u3=False), gen.envs(expr.NAMES)
    ).map(lambda t: {"c": t[0], "env": t[1]}),
    quick=160,
    thorough=4000,
    shards=4,
    rule="at least two operations and at least one free symbol",
    nt=lambda x: len(x["c"]["ops"]) >= 2 and bool(gen.circuit_symbols(x["c"])),
)
def symbolic_unitary(x):
    c, env = x["c"], x["env"]
    circ = gen.build_circuit(c)
    u = circ.to_unitary()
    got = gen.numeric(u, env)
    require(ref.close(got, gen.ref_unitary(c, env), 1e-7), "symbolic unitary, evaluated, differs")


@st.composite
def op_and_state(draw):
    n = draw(st.integers(1, 5))
    ops = draw(st.lists(gen.operations(n), min_size=1, max_size=4))
    amp = st.tuples(st.floats(-1, 1), st.floats(-1, 1)).map(list)
    vec = draw(st.lists(amp, min_size=2**n, max_size=2**n))
    return {"n": n, "ops": ops, "vec": vec}


@sub(
    op_and_state,
    quick=300,
    thorough=6000,
    rule="state with at least two non-zero amplitudes",
    nt=lambda x: sum(1 for a in x["vec"] if a != [0.0, 0.0]) >= 2,
)
def apply_to_state(x):
    """Operations applied one after another, and their lifted matrices, act like the unitary."""
    n = x["n"]
    vec = np.array([complex(a, b) for a, b in x["vec"]])
    keep = vec.copy()
    cur = vec
    for o in x["ops"]:
        op = gen.build_op(o)
        want = gen.ref_apply([o], cur, n)
        got = np.asarray(op.apply(cur), dtype=complex)
        require(ref.close(got, want), f"apply differs for {o}")
        lift = gen.numeric(op.lifted_matrix(n))
        require(ref.close(lift @ cur, want), f"lifted matrix differs for {o}")
        cur = want
    require(np.array_equal(vec, keep), "apply changed its argument")


@st.composite
def gate_cases(draw):
    g = draw(st.sampled_from(sorted(ref.N_QUBITS)))
    big = st.one_of(
        expr.angles,
        st.integers(-16, 16).map(lambda k: k * math.pi / 4),
        st.floats(-1000, 1000),
    )
    p = [draw(big) for _ in range(ref.N_PARAMS[g])]
    sym = draw(st.booleans())
    return {"g": g, "p": p, "sym": sym}


@sub(
    gate_cases,
    quick=400,
    thorough=6000,
    rule="a parametrized gate with a non-zero parameter",
    nt=lambda x: any(p != 0 for p in x["p"]),
    examples=[{"g": g, "p": [], "sym": False} for g in ref.N_QUBITS if ref.N_PARAMS[g] == 0]
    + [
        {"g": g, "p": [0.3, -1.1, 2.5][: ref.N_PARAMS[g]], "sym": s}
        for g in ref.N_QUBITS
        if ref.N_PARAMS[g]
        for s in (True, False)
    ],
)
def builtin_matrices(x):
    import sympy
    import zquantum.core.circuits as zc

    g = getattr(zc, x["g"])
    by_name = zc.builtin_gate_by_name(x["g"])
    env = None
    if x["p"]:
        if x["sym"]:
            names = ["p", "q", "r"][: len(x["p"])]
            args = [sympy.Symbol(s) for s in names]
            env = dict(zip(names, x["p"]))
        else:
            args = x["p"]
        g = g(*args)
        by_name = by_name(*args)
    require(g.name == x["g"], "gate name")
    require(g.num_qubits == ref.N_QUBITS[x["g"]], "gate qubit count")
    m = gen.numeric(g.matrix, env)
    want = ref.gate_matrix(x["g"], x["p"])
    require(ref.close(m, want, 1e-8), f"matrix of {x['g']} differs from its definition", m, want)
    require(ref.close(m @ m.conj().T, np.eye(len(m)), 1e-8), "gate matrix not unitary")
    require(by_name == g, "lookup by name gives another gate")


@st.composite
def phase_cases(draw):
    n = draw(st.integers(1, 4))
    ph = draw(st.lists(expr.angles, min_size=2**n, max_size=2**n))
    amp = st.tuples(st.floats(-1, 1), st.floats(-1, 1)).map(list)
    vec = draw(st.lists(amp, min_size=2**n, max_size=2**n))
    wrong = draw(st.sampled_from([0, 0, 1, -1]))
    return {"n": n, "ph": ph, "vec": vec, "wrong": wrong}


@sub(
    phase_cases,
    quick=200,
    thorough=3000,
    rule="at least two different phases",
    nt=lambda x: len(set(x["ph"])) > 1,
)
def phase_operation(x):
    from zquantum.core.circuits import MultiPhaseOperation

    op = MultiPhaseOperation(tuple(x["ph"]))
    vec = np.array([complex(a, b) for a, b in x["vec"]])
    if x["wrong"]:
        bad = np.ones(2 ** (x["n"] + x["wrong"])) if x["n"] + x["wrong"] >= 0 else np.ones(1)
        raises(ValueError, lambda: op.apply(bad), "phase operation on a vector of another length")
    got = np.asarray(op.apply(vec), dtype=complex)
    want = vec * np.exp(1j * np.array(x["ph"]))
    require(ref.close(got, want), "phase operation differs")
    require(tuple(op.qubit_indices) == tuple(range(x["n"])), "qubit indices")


@sub(
    st.integers(1, 6),
    quick=6,
    thorough=6,
    shards=1,
    rule="every register size 1..6",
    examples=[1, 2, 3, 4, 5, 6],
)
def empty_circuit(n):
    from zquantum.core.circuits import Circuit

    c = Circuit([], n_qubits=n)
    require(c.n_qubits == n, "size of an empty circuit")
    u = gen.numeric(c.to_unitary())
    require(ref.close(u, np.eye(2**n)), "an empty circuit is not the identity")


@sub(
    lambda: st.fixed_dictionaries({"n": st.sampled_from([1, 2, 3, 3, 4]), "count": st.sampled_from([8, 13, 20, 33, 50]), "seed": st.integers(0, 10**6), "shared": st.sampled_from([0, 3, 8])}),
    quick=60,
    thorough=1500,
    shards=3,
    rule="every case: eight operations or more",
)
def long_circuits(x):
    """Many operations, some of them with the very same gate object; applied, multiplied, and in two halves."""
    import zquantum.core.circuits as zc

    n = x["n"]
    ops = gen.big_ops(x["seed"], n, x["count"], shared=x["shared"])
    made = {}
    real = []
    for o in ops:
        g = made.setdefault(id(o[0]), gen.build_gate(o[0]))
        real.append(g(*o[1]))
    c = zc.Circuit(real, n_qubits=n)
    want = gen.ref_unitary({"ops": ops, "n": n})
    got = gen.numeric(c.to_unitary())
    require(ref.close(got, want, 1e-7), "unitary of a long circuit differs")
    require(ref.close(gen.numeric(c.to_unitary()), want, 1e-7), "asked again, the unitary differs")
    vec = np.random.RandomState(x["seed"]).normal(size=(2, 2**n))
    vec = vec[0] + 1j * vec[1]
    cur = vec
    for o in c.operations:
        cur = o.apply(cur)
    require(ref.close(np.asarray(cur, dtype=complex), want @ vec, 1e-7), "operations of a long circuit applied one after another differ from its unitary")
    k = x["count"] // 2
    a, b = zc.Circuit(real[:k], n_qubits=n), zc.Circuit(real[k:], n_qubits=n)
    require(ref.close(gen.numeric(b.to_unitary()) @ gen.numeric(a.to_unitary()), want, 1e-7), "the product of the halves' unitaries differs")


@sub(
    lambda: st.fixed_dictionaries({"n": st.sampled_from([8, 9, 10]), "count": st.integers(1, 3), "seed": st.integers(0, 10**6), "span": st.sampled_from([3, 5, 6])}),
    quick=24,
    thorough=300,
    shards=3,
    rule="every case: eight qubits or more",
)
def many_qubits(x):
    """Operations on far qubits of a large register, applied to a random state."""
    n = x["n"]
    vec = np.random.RandomState(x["seed"]).normal(size=(2, 2**n))
    vec = vec[0] + 1j * vec[1]
    for o in gen.big_ops(x["seed"], n, x["count"], max_gate=4, span=x["span"], wrap=True):
        got = np.asarray(gen.build_op(o).apply(vec), dtype=complex)
        want = gen.ref_apply([o], vec, n)
        require(ref.close(got, want, 1e-8), f"apply on {n} qubits differs for {o}")
        vec = want


def random_unitary(seed, k):
    rs = np.random.RandomState(seed)
    a = rs.normal(size=(2, 2**k, 2**k))
    q, r = np.linalg.qr(a[0] + 1j * a[1])
    return q * (np.diag(r) / abs(np.diag(r)))


@sub(
    st.tuples(st.integers(0, 10**6), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=2, max_size=4), st.booleans()),
    quick=60,
    thorough=1500,
    rule="two different definitions",
    nt=lambda x: len({d for d, _ in x[1]}) > 1,
)
def homonyms(x):
    """Gates defined by the user share one name: each one keeps its own matrix."""
    import sympy
    import zquantum.core.circuits as zc

    seed, ops, wrapped = x
    mats = [random_unitary(seed + i, 1) for i in range(3)]
    gates = [zc.CustomGateDefinition("U", sympy.Matrix(u.tolist()), ())() for u in mats]
    n = 3
    c = zc.Circuit([(gates[d].controlled(1) if wrapped else gates[d])(*([(q + 1) % n, q] if wrapped else [q])) for d, q in ops], n_qubits=n)
    want = np.eye(2**n)
    for d, q in ops:
        m = np.kron(np.diag([1, 0]), np.eye(2)) + np.kron(np.diag([0, 1]), mats[d]) if wrapped else mats[d]
        want = ref.embed(m, [(q + 1) % n, q] if wrapped else [q], n) @ want
    require(ref.close(gen.numeric(c.to_unitary()), want), "gates with one name and different matrices", ops)
    state = np.eye(2**n)[0] + 0j
    for o in c.operations:
        state = o.apply(state)
    require(ref.close(np.asarray(state, dtype=complex), want[:, 0]), "gates with one name applied to a state", ops)
    for i, g in enumerate(gates):
        require(ref.close(gen.numeric(g.matrix), mats[i]), "matrix of the gate", i)


@st.composite
def layouts(draw):
    k = draw(st.sampled_from([2, 3, 3, 4, 4]))
    block = k + draw(st.sampled_from([0, 0, 0, 1, 2]))
    low, high = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    qs = [low + q for q in draw(st.permutations(list(range(block))))[:k]]
    if draw(st.booleans()) and k > 2:
        # the ends in place, the inner qubits in some order
        inner = draw(st.permutations(sorted(qs)[1:-1]))
        qs = [min(qs)] + list(inner) + [max(qs)]
    return {"k": k, "q": qs, "n": min(8, low + block + high), "seed": draw(st.integers(0, 10**6))}


@sub(
    layouts,
    quick=120,
    thorough=2500,
    shards=4,
    rule="the qubits are not in ascending order",
    nt=lambda x: x["q"] != sorted(x["q"]),
    examples=[{"k": 4, "q": list(p), "n": 4, "seed": 1} for p in itertools.permutations(range(4))]
    + [{"k": 3, "q": [1 + q for q in p], "n": 5, "seed": 2} for p in itertools.permutations(range(3))],
)
def qubit_orders(x):
    """A gate with a dense random matrix on qubits in every order, next to each other or with gaps."""
    import sympy
    import zquantum.core.circuits as zc

    u = random_unitary(x["seed"], x["k"])
    g = zc.CustomGateDefinition("dense", sympy.Matrix(u.tolist()), ())()
    n = x["n"]
    vec = random_unitary(x["seed"] + 1, n)[:, 0] if n < 5 else np.random.RandomState(x["seed"]).normal(size=2**n) + 0j
    want = ref.apply_matrix(u, x["q"], vec, n)
    require(ref.close(np.asarray(g(*x["q"]).apply(vec), dtype=complex), want), f"a gate on qubits {x['q']} of {n} acts differently")
    if n <= 5:
        m = gen.numeric(zc.Circuit([g(*x["q"])], n_qubits=n).to_unitary())
        require(ref.close(m @ vec, want), f"unitary of a gate on qubits {x['q']} of {n} differs")
