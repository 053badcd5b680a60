"""C03: binding parameters."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import label, require, sub

ASSUMPTIONS = ["symbols are created by name without assumptions (but for those of the sub-check on symbols of one name); values are real numbers or real expressions"]

NAMES = ["a", "b", "c", "theta", "theta_0", "theta_10", "gamma", "alpha", "x"]


def values(names):
    return st.one_of(
        expr.angles,
        st.integers(-3, 3),
        st.sampled_from(names).map(lambda s: ["sym", s]),
        st.sampled_from(names).map(lambda s: ["sym", s]),
        expr.exprs(names, max_leaves=2),
    )


@st.composite
def maps(draw, names):
    ks = draw(st.lists(st.sampled_from(names + ["unused_1", "unused_2"]), unique=True, max_size=4))
    return [[k, draw(values(names))] for k in ks]


def sym_map(m):
    import sympy

    return {sympy.Symbol(k): gen.build_param(v) for k, v in m}


def new_env(m, env):
    out = dict(env)
    for k, v in m:
        out[k] = gen.param_value(v, env)
    return out


def value_of(p, env):
    """Numeric value of a real parameter object."""
    import sympy

    if isinstance(p, sympy.Basic):
        return complex(p.evalf(20, subs={s: env[str(s)] for s in p.free_symbols}))
    return complex(p)


def expected_params(ops, env):
    return [[gen.param_value(p, env) for p in gen.op_params(o)] for o in ops]


def check_params(circ, ops, env, what, tol=1e-8):
    require(len(circ.operations) == len(ops), f"{what}: number of operations")
    want = expected_params(ops, env)
    for op, w, o in zip(circ.operations, want, ops):
        got = [value_of(p, env_full(env)) for p in op.params]
        require(len(got) == len(w), f"{what}: number of parameters of {o}")
        for g, v in zip(got, w):
            require(abs(g - v) <= tol * max(1, abs(v)), f"{what}: parameter of {o} is {g}, expected {v}")


def env_full(env):
    return env


@st.composite
def bind_cases(draw, max_n=3, max_ops=5, phases=True):
    c = draw(gen.circuits(max_n=max_n, max_ops=max_ops, min_ops=draw(st.sampled_from([1, 2])), symbolic=draw(st.sampled_from(["mixed", "only"])), names=NAMES, u3=False, phases=phases))
    used = sorted(gen.circuit_symbols(c))
    m = draw(maps(NAMES))
    if used:
        for k in draw(st.lists(st.sampled_from(used), unique=True, min_size=1, max_size=3)):
            m = [x for x in m if x[0] != k] + [[k, draw(values(NAMES))]]
    if draw(st.booleans()):
        a, b = draw(st.permutations((used + [k for k in NAMES if k not in used])[: max(4, len(used))]))[:2]
        m = [x for x in m if x[0] not in (a, b)] + [[a, ["sym", b]], [b, ["sym", a]]]
    order = draw(st.permutations(list(range(len(m)))))
    return {"c": c, "m": m, "order": list(order), "env": draw(gen.envs(NAMES))}


def nt_bind(x):
    return bool(gen.circuit_symbols(x["c"]) & {k for k, _ in x["m"]})


def ordered_groups(ops_objects):
    import sympy

    groups = []
    seen = set()
    for op in ops_objects:
        s = set()
        for p in op.params:
            if isinstance(p, sympy.Basic):
                s |= p.free_symbols
        new = s - seen
        seen |= new
        groups.append(new)
    return groups


def check_free_symbols(circ, what):
    got = list(circ.free_symbols)
    require(len(got) == len(set(got)), f"{what}: duplicates in free symbols")
    i = 0
    for g in ordered_groups(circ.operations):
        require(set(got[i : i + len(g)]) == g, f"{what}: free symbols {got} not in order of first use")
        i += len(g)
    require(i == len(got), f"{what}: free symbols {got} have extra entries")
    for op in circ.operations:
        import sympy

        want = set()
        for p in op.params:
            if isinstance(p, sympy.Basic):
                want |= p.free_symbols
        fs = list(op.free_symbols)
        require(set(fs) == want and len(fs) == len(want), f"{what}: free symbols of an operation")
        require(fs == sorted(fs, key=str), f"{what}: the symbols of one operation are not in the order of their names", fs)


def free_names_expected(ops, m):
    """Names that can be free after binding (upper bound: symbols may cancel)."""
    bound = dict((k, v) for k, v in m)
    out = set()
    for o in ops:
        for p in gen.op_params(o):
            if isinstance(p, list):
                for s in expr.symbols(p):
                    if s in bound:
                        v = bound[s]
                        out |= expr.symbols(v) if isinstance(v, list) else set()
                    else:
                        out.add(s)
    return out


@sub(
    lambda: bind_cases(),
    quick=260,
    thorough=6000,
    shards=4,
    rule="the map binds at least one symbol of the circuit",
    nt=nt_bind,
)
def bind_params(x):
    c, m, env = x["c"], x["m"], x["env"]
    circ = gen.build_circuit(c)
    check_free_symbols(circ, "before")
    before = repr(circ)
    n = circ.n_qubits
    mm = sym_map(m)
    bound = circ.bind(mm)
    env2 = new_env(m, env)
    check_params_env(bound, c["ops"], env, env2)
    require(bound.n_qubits == n, "binding changed the register")
    for o, op in zip(c["ops"], bound.operations):
        if isinstance(o, list):
            require(list(op.qubit_indices) == o[1], "binding changed qubits")
    require(repr(circ) == before and len(circ.operations) == len(c["ops"]), "binding changed the original")
    check_free_symbols(bound, "after")
    names = {str(s) for s in bound.free_symbols}
    require(names <= free_names_expected(c["ops"], m), f"unexpected free symbols {names}")
    # another order of the same assignments
    m2 = [m[i] for i in x["order"]]
    bound2 = circ.bind(sym_map(m2))
    check_params_env(bound2, c["ops"], env, env2)
    if any(isinstance(v, list) for _, v in m):
        label("symbol or expression values")


def check_params_env(bound, ops, env, env2):
    """Parameters of the bound circuit at env must equal the original parameters at env2."""
    want = expected_params(ops, env2)
    require(len(bound.operations) == len(ops), "number of operations changed")
    for op, w, o in zip(bound.operations, want, ops):
        got = [value_of(p, env) for p in op.params]
        require(len(got) == len(w), f"number of parameters of {o}")
        for g, v in zip(got, w):
            require(abs(g - v) <= 1e-7 * max(1, abs(v)), f"parameter of {o} is {g}, expected {v}")


@sub(
    lambda: bind_cases(max_n=3, max_ops=3, phases=False),
    quick=70,
    thorough=2500,
    shards=4,
    rule="the map binds at least one symbol of the circuit",
    nt=nt_bind,
)
def bind_unitary(x):
    c, m, env = x["c"], x["m"], x["env"]
    circ = gen.build_circuit(c)
    got = gen.numeric(circ.bind(sym_map(m)).to_unitary(), env)
    want = gen.ref_unitary(c, new_env(m, env))
    require(ref.close(got, want, 1e-7), "unitary of the bound circuit differs")


@st.composite
def gate_bind(draw):
    g = draw(gen.gates(3, "only", names=NAMES, u3=True, wrap=2))
    k = draw(st.integers(0, 2))
    if k and gen.gate_qubits(g) + k <= 4:
        g = {"ctrl": k, "of": g}
    return {"g": g, "m": draw(maps(NAMES)), "env": draw(gen.envs(NAMES)), "new": draw(st.lists(expr.angles, min_size=3, max_size=3))}


@sub(
    gate_bind,
    quick=220,
    thorough=5000,
    shards=4,
    rule="a wrapped gate (control or dagger) or a custom gate",
    nt=lambda x: "g" not in x["g"],
)
def bind_gate(x):
    """Binding a single gate under any nesting, and replacing its parameters."""
    g = gen.build_gate(x["g"])
    b = g.bind(sym_map(x["m"]))
    want = gen.ref_gate(x["g"], new_env(x["m"], x["env"]))
    require(b.num_qubits == g.num_qubits, "binding changed the qubit count")
    got = gen.numeric(b.matrix, x["env"])
    require(ref.close(got, want, 1e-7), "matrix of the bound gate differs")
    k = len(g.params)
    new = x["new"][:k]
    r = g.replace_params(tuple(new))
    require(tuple(r.params) == tuple(new), "replace_params gives other parameters")

    def swap(s):
        if "p" in s:
            return {**s, "p": new}
        return {"dag": swap(s["dag"])} if "dag" in s else {"ctrl": s["ctrl"], "of": swap(s["of"])}

    require(ref.close(gen.numeric(r.matrix), gen.ref_gate(swap(x["g"])), 1e-8), "matrix after replace_params differs")
    require(len(r.free_symbols) == 0, "free symbols after replacing all parameters by numbers")
    for have, p in ((g, gen.ref_gate(x["g"], x["env"])), (r, gen.ref_gate(swap(x["g"])))):
        again = have.replace_params(tuple(have.params))
        require(again == have and again.num_qubits == have.num_qubits, "replacing parameters by the same ones gives another gate")
        require(ref.close(gen.numeric(again.matrix, x["env"]), p, 1e-7), "matrix after replacing parameters by the same ones differs")


@st.composite
def split_cases(draw):
    sy = draw(st.sampled_from(["mixed", "only"]))
    c = draw(gen.circuits(max_n=3, max_ops=4, min_ops=1, symbolic=sy, names=NAMES, u3=False, phases=True))
    vals = draw(gen.envs(NAMES))
    parts = draw(st.lists(st.integers(0, 3), min_size=len(NAMES), max_size=len(NAMES)))
    return {"c": c, "env": vals, "parts": parts}


@sub(
    split_cases,
    quick=160,
    thorough=4000,
    shards=3,
    rule="the circuit's symbols are bound in at least two steps",
    nt=lambda x: len({p for k, p in zip(NAMES, x["parts"]) if k in gen.circuit_symbols(x["c"])}) > 1,
)
def repeated_binding(x):
    """Binding numbers in any number of steps, in any order, equals binding them at once."""
    import sympy

    circ = gen.build_circuit(x["c"])
    cur = circ
    left = set(circ.free_symbols)
    for k in range(4):
        part = {sympy.Symbol(s): x["env"][s] for s, p in zip(NAMES, x["parts"]) if p == k}
        cur = cur.bind(part)
        left = {s for s in left if s not in part}
        require(set(cur.free_symbols) <= left, "bound symbols are still free")
    require(not list(cur.free_symbols), "symbols are free after binding all")
    check_params_env(cur, x["c"]["ops"], {}, x["env"])
    once = circ.bind({sympy.Symbol(s): v for s, v in x["env"].items()})
    check_params_env(once, x["c"]["ops"], {}, x["env"])
    if all(isinstance(o, list) for o in x["c"]["ops"]):
        require(once == cur, "circuits bound in one and in several steps are not equal")
    # binding nothing or unknown symbols changes nothing
    same = circ.bind({sympy.Symbol("nowhere"): 1.5})
    require(repr(same) == repr(circ), "binding an unknown symbol changed the circuit")
    require(list(same.free_symbols) == list(circ.free_symbols), "binding an unknown symbol changed free symbols")


MANY = [f"theta_{i}" for i in range(24)] + [f"g{i}" for i in range(6)] + ["x", "gamma", "alpha", "a", "b"]


@sub(
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([2, 5, 12]),
            "count": st.sampled_from([10, 18, 30, 45]),
            "seed": st.integers(0, 10**6),
            "shared": st.sampled_from([0, 2, 6]),
            "share": st.sampled_from([0.2, 0.6, 1.0]),
            "values": st.sampled_from(["numbers", "mixed", "shift", "swap"]),
        }
    ),
    quick=60,
    thorough=1500,
    shards=3,
    rule="every case: ten operations or more",
)
def long_binding(x):
    """Circuits of many operations over many symbols, which share gate objects."""
    import zquantum.core.circuits as zc

    rs = np.random.RandomState(x["seed"] + 1)
    ops = gen.big_ops(x["seed"], x["n"], x["count"], shared=x["shared"], symbolic="mixed", names=MANY, u3=True)
    made = {}
    real = [made.setdefault(id(o[0]), gen.build_gate(o[0]))(*o[1]) for o in ops]
    circ = zc.Circuit(real, n_qubits=x["n"] + 1)
    env = {k: round(float(rs.uniform(-3, 3)), 4) for k in MANY}
    m = []
    for i, k in enumerate(MANY):
        if rs.rand() > x["share"]:
            continue
        v = round(float(rs.uniform(-3, 3)), 4)
        other = ["sym", MANY[(i + 1) % len(MANY)] if x["values"] == "shift" else MANY[len(MANY) - 1 - i]]
        if x["values"] in ("shift", "swap"):
            v = other
        elif x["values"] == "mixed":
            v = [v, other, ["add", ["sym", k], ["num", 0.5]], ["mul", other, ["sym", MANY[0]]]][rs.randint(4)]
        m.append([k, v])
    before = repr(circ)
    check_free_symbols(circ, "before")
    for o, op in zip(ops, circ.operations):
        names = set()
        for p in gen.op_params(o):
            names |= expr.symbols(p) if isinstance(p, list) else set()
        require({str(s) for s in op.free_symbols} <= names, "free symbols of an operation", op, names)
    bound = circ.bind(sym_map(m))
    require(bound.n_qubits == x["n"] + 1, "binding changed the register")
    require([tuple(o.qubit_indices) for o in bound.operations] == [tuple(o[1]) for o in ops], "binding changed qubits")
    require([(o.gate.name, o.gate.num_qubits) for o in bound.operations] == [(o.gate.name, o.gate.num_qubits) for o in circ.operations], "binding changed gates")
    check_params_env(bound, ops, env, new_env(m, env))
    check_free_symbols(bound, "after")
    require(repr(circ) == before, "binding changed the original")
    left = {str(s) for s in bound.free_symbols}
    require(left <= free_names_expected(ops, m), f"unexpected free symbols {left}")
    done = bound.bind(sym_map([[k, v] for k, v in env.items()]))
    require(not done.free_symbols, "symbols are free after binding all")
    check_params_env(done, ops, {}, new_env(m, env))


@sub(
    lambda: st.fixed_dictionaries({"n": st.sampled_from([3, 4, 5]), "seed": st.integers(0, 10**6), "steps": st.integers(1, 3)}),
    quick=40,
    thorough=600,
    rule="every case: eight phases or more",
)
def many_phases(x):
    from zquantum.core.circuits import MultiPhaseOperation

    rs = np.random.RandomState(x["seed"])
    names = MANY[:12]
    ps = gen.big_params(rs, 2 ** x["n"], "mixed", names)
    op = MultiPhaseOperation(tuple(gen.build_param(p) for p in ps))
    want_free = set()
    for p in op.params:
        want_free |= getattr(p, "free_symbols", set())
    require(set(op.free_symbols) == want_free and len(list(op.free_symbols)) == len(want_free), "free symbols of a phase operation")
    env = {k: round(float(rs.uniform(-3, 3)), 4) for k in names}
    cur = op
    groups = [names[i :: x["steps"]] for i in range(x["steps"])]
    for g in groups:
        cur = cur.bind(sym_map([[k, env[k]] for k in g]))
    want = np.array([gen.param_value(p, env) for p in ps], dtype=float)
    require(len(cur.params) == len(ps) and np.allclose([complex(p) for p in cur.params], want, atol=1e-8), "bound phases differ")
    vec = rs.normal(size=2 ** x["n"]) + 0j
    require(ref.close(np.asarray(cur.apply(vec), dtype=complex), vec * np.exp(1j * want)), "bound phases act differently")


@sub(
    lambda: st.fixed_dictionaries({"seed": st.integers(0, 10**6), "scale": st.sampled_from([1, 1000, 10**6]), "k": st.integers(1, 3), "kind": st.sampled_from(["gate", "controlled", "phases"]), "given": st.sampled_from(["float", "numpy", "sympy"])}),
    quick=80,
    thorough=1500,
    rule="every case: values with fifteen digits in a linear expression",
)
def precise_values(x):
    """Values with all their digits, which count when they are multiplied by large numbers."""
    import sympy

    import zquantum.core.circuits as zc

    rs = np.random.RandomState(x["seed"])
    names = ["a", "b", "theta", "x"][: x["k"] + 1]
    syms = [sympy.Symbol(k) for k in names]
    vals = [float(v) for v in rs.uniform(-3, 3, size=len(names))]
    kind = {"float": float, "numpy": np.float64, "sympy": sympy.Float}[x["given"]]
    table = {s: kind(v) for s, v in zip(syms, vals)}
    params, want = [], []
    for _ in range(4):
        cs = [int(c) for c in rs.randint(-9, 10, size=len(names)) * x["scale"]]
        cs[0] = cs[0] or x["scale"]
        params.append(sum(c * s for c, s in zip(cs, syms)))
        want.append(sum(c * v for c, v in zip(cs, vals)))
    if x["kind"] == "phases":
        got = zc.MultiPhaseOperation(tuple(params)).bind(table).params
    else:
        gates = [zc.RX(p) for p in params]
        if x["kind"] == "controlled":
            gates = [g.controlled(2).dagger for g in gates]
        got = [g.bind(table).params[0] for g in gates]
    for g, w in zip(got, want):
        require(abs(complex(g) - w) <= 1e-12 * 40 * x["scale"], "a bound value lost digits", g, w)


@sub(
    lambda: st.fixed_dictionaries({"seed": st.integers(0, 10**6), "a": st.floats(-3, 3), "b": st.floats(-3, 3), "bind": st.sampled_from(["first", "second", "both"])}),
    quick=40,
    thorough=400,
    rule="every case: two symbols of one name",
)
def homonyms(x):
    """Symbols of one name with different assumptions are different symbols."""
    import sympy

    import zquantum.core.circuits as zc

    s, t = sympy.Symbol("x"), sympy.Symbol("x", real=True)
    rs = np.random.RandomState(x["seed"])
    pool = [(s, zc.RX(s)), (t, zc.RX(t)), (s, zc.RZ(s).controlled(1)), (t, zc.PHASE(t).dagger)]
    chosen = [pool[i] for i in rs.permutation(4)[: rs.randint(2, 5)]]
    circ = zc.Circuit([g(*range(g.num_qubits)) for _, g in chosen])
    order = list(dict.fromkeys(sym for sym, _ in chosen))
    require(circ.free_symbols == order, "free symbols of one name", circ.free_symbols, order)
    values = {s: x["a"], t: x["b"]}
    table = {k: v for k, v in values.items() if x["bind"] == "both" or k == {"first": s, "second": t}[x["bind"]]}
    bound = circ.bind(table)
    for op, (sym, _) in zip(bound.operations, chosen):
        if sym in table:
            require(abs(float(op.params[0]) - table[sym]) < 1e-12, "a symbol got another symbol's value", op, table)
        else:
            require(list(op.free_symbols) == [sym], "a symbol without a value did not stay free", op)
    require(bound.free_symbols == [sym for sym in order if sym not in table], "free symbols after binding")
