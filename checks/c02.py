"""C02: dagger and control laws, equality of gates."""
import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import fail, label, require, sub

ASSUMPTIONS = ["real gate parameters; at most 5 qubits per gate; numeric tolerance 1e-8"]

MAXQ = 5


@st.composite
def chains(draw, symbolic="none"):
    g = draw(gen.base_gates(3, symbolic, u3=symbolic == "none"))
    nq = gen.gate_qubits(g)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        if nq < MAXQ and draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(1, min(2, MAXQ - nq)))
            nq += k
            steps.append(k)
        else:
            steps.append(0)
    return {"g": g, "steps": steps, "env": draw(gen.envs(expr.NAMES)) if symbolic != "none" else None}


def run_chain(x):
    env = x["env"]
    g = gen.build_gate(x["g"])
    base_params = g.params
    want = gen.ref_gate(x["g"], env)
    nq = gen.gate_qubits(x["g"])
    m = gen.numeric(g.matrix, env)
    require(ref.close(m, want), "base gate matrix differs")
    for i, s in enumerate(x["steps"]):
        before = g
        if s:
            g = g.controlled(s)
            want = ref.controlled(want, s)
            nq += s
        else:
            g = g.dagger
            want = want.conj().T
        got = gen.numeric(g.matrix, env)
        require(got.shape == (2**nq, 2**nq), f"step {i}: matrix shape {got.shape}")
        require(ref.close(got, want), f"step {i}: matrix differs from the law", got, want)
        require(g.num_qubits == nq, f"step {i}: num_qubits {g.num_qubits}, expected {nq}")
        require(tuple(g.params) == tuple(base_params), f"step {i}: params changed")
        require(
            list(map(str, g.free_symbols)) == list(map(str, before.free_symbols)),
            f"step {i}: free symbols changed",
        )
        op = g(*range(nq))
        require(op.qubit_indices == tuple(range(nq)) and op.params == g.params, "operation attributes")
    # dagger of dagger
    dd = gen.numeric(g.dagger.dagger.matrix, env)
    require(ref.close(dd, want), "dagger of dagger has another matrix")
    require(g.dagger.dagger == g, "dagger of dagger is not equal to the gate")


def nt_chain(x):
    return 0 in x["steps"] and any(x["steps"])


@sub(lambda: chains(), quick=260, thorough=10000, shards=3, rule="the chain has a dagger and a control", nt=nt_chain)
def nesting(x):
    run_chain(x)


@sub(
    lambda: chains(symbolic="only"),
    quick=120,
    thorough=3000,
    shards=3,
    rule="the chain has a dagger and a control",
    nt=nt_chain,
)
def symbolic_nesting(x):
    run_chain(x)


# ------------------------------------------------------------ controlled action on basis states


@st.composite
def control_cases(draw):
    g = draw(gen.gates(2, wrap=1))
    k = draw(st.integers(1, 3))
    nq = gen.gate_qubits(g) + k
    n = draw(st.integers(nq, 5)) if nq < 5 else nq
    qs = draw(st.permutations(list(range(n))))[:nq]
    state = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    if draw(st.booleans()):
        for q in qs[:k]:
            state[q] = 1
    return {"g": g, "k": k, "q": list(qs), "n": n, "state": state}


@sub(
    control_cases,
    quick=250,
    thorough=6000,
    rule="every control is 1 in the initial basis state",
    nt=lambda x: all(x["state"][q] for q in x["q"][: x["k"]]),
)
def control_semantics(x):
    n, k, q = x["n"], x["k"], x["q"]
    op = gen.build_gate(x["g"]).controlled(k)(*q)
    idx = int("".join(map(str, x["state"])), 2)
    vec = np.zeros(2**n, dtype=complex)
    vec[idx] = 1
    got = np.asarray(op.apply(vec), dtype=complex)
    if all(x["state"][c] for c in q[:k]):
        label("controls on")
        want = ref.apply_matrix(gen.ref_gate(x["g"]), q[k:], vec, n)
    else:
        want = vec
    require(ref.close(got, want), "a controlled gate acts differently", got, want)


# ------------------------------------------------------------ equality


def perturb(draw, g):
    g = dict(g)
    if "dag" in g:
        if draw(st.integers(0, 3)) == 0:
            return g["dag"]
        g["dag"] = perturb(draw, g["dag"])
        return g
    if "ctrl" in g:
        c = draw(st.integers(0, 3))
        if c == 0 and gen.gate_qubits(g) < MAXQ:
            g["ctrl"] += 1
            return g
        if c == 1:
            return g["of"]
        g["of"] = perturb(draw, g["of"])
        return g
    if g["p"] and draw(st.integers(0, 3)):
        p = list(g["p"])
        i = draw(st.integers(0, len(p) - 1))
        if isinstance(p[i], list):
            p[i] = draw(st.sampled_from([["add", p[i], ["num", 0.25]], ["neg", p[i]], ["sym", "zeta"]]))
        else:
            p[i] = p[i] + draw(st.sampled_from([1e-3, -1e-3, 5e-3, -0.5, 1.0, 2.0]))
        g["p"] = p
        return g
    if "g" in g and draw(st.integers(0, 3)):
        same = [x for x in ref.N_QUBITS if ref.N_PARAMS[x] == len(g["p"]) and ref.N_QUBITS[x] == ref.N_QUBITS[g["g"]]]
        g["g"] = draw(st.sampled_from(same))
        return g
    return {"dag": g}


def scale_up(g, k):
    """Numeric parameters moved by k."""
    if "dag" in g:
        return {"dag": scale_up(g["dag"], k)}
    if "ctrl" in g:
        return {"ctrl": g["ctrl"], "of": scale_up(g["of"], k)}
    return {**g, "p": [p if isinstance(p, list) else p + k for p in g["p"]]}


@st.composite
def pairs(draw):
    sym = draw(st.sampled_from(["none", "none", "mixed"]))
    a = draw(gen.gates(3, sym, u3=sym == "none"))
    far = draw(st.sampled_from([0, 0, 0, 100.0, 1000.0, -5000.0]))
    if far:
        a = scale_up(a, far)
    kind = draw(st.sampled_from(["same", "near", "near", "other"]))
    if kind == "same":
        b = a
    elif kind == "near":
        b = perturb(draw, a)
    else:
        b = draw(gen.gates(3, sym, u3=sym == "none"))
    env = draw(gen.envs(expr.NAMES + ["zeta"]))
    qa = draw(st.permutations(list(range(MAXQ + 1))))
    qb = qa if draw(st.booleans()) else draw(st.permutations(list(range(MAXQ + 1))))
    return {"a": a, "b": b, "env": env, "qa": list(qa), "qb": list(qb)}


@sub(
    pairs,
    quick=450,
    thorough=8000,
    shards=3,
    rule="the two gates were described differently",
    nt=lambda x: x["a"] != x["b"],
)
def equality(x):
    a, b = gen.build_gate(x["a"]), gen.build_gate(x["b"])
    ma, mb = gen.ref_gate(x["a"], x["env"]), gen.ref_gate(x["b"], x["env"])
    eq = a == b
    require(isinstance(eq, (bool, np.bool_)), "== does not give a truth value")
    require((b == a) == eq and (a != b) == (not eq), "== is not symmetric or != disagrees")
    if x["a"] == x["b"]:
        require(eq, "two gates built the same way are not equal")
    same = ma.shape == mb.shape and bool(np.max(np.abs(ma - mb)) < 1e-5)
    if eq:
        label("equal")
        require(same, "equal gates have different matrices")
    qa, qb = x["qa"][: gen.gate_qubits(x["a"])], x["qb"][: gen.gate_qubits(x["b"])]
    oa, ob = a(*qa), b(*qb)
    require((oa == ob) == (bool(eq) and qa == qb), "equality of operations does not follow gate and qubits")


@st.composite
def zoos(draw):
    wrap = st.lists(st.sampled_from(["dag", "dag", 1, 1, 2]), max_size=3)
    return {"p": [draw(expr.angles) for _ in range(3)], "wraps": [[], ["dag"]] + [draw(wrap) for _ in range(draw(st.integers(1, 3)))]}


@sub(zoos, quick=25, thorough=600, rule="a wrapping of two or more steps", nt=lambda x: any(len(w) >= 2 for w in x["wraps"]))
def every_pair_of_gates(x):
    """Every built-in gate in every drawn wrapping, each compared with each other one."""
    zoo = []
    for g in ref.N_QUBITS:
        for w in x["wraps"]:
            d = {"g": g, "p": x["p"][: ref.N_PARAMS[g]]}
            for k in w:
                d = {"dag": d} if k == "dag" else {"ctrl": k, "of": d}
            if gen.gate_qubits(d) <= 4 and d not in [e for e, _, _ in zoo]:
                zoo.append((d, gen.build_gate(d), gen.ref_gate(d, {})))
    for i, (_, a, ma) in enumerate(zoo):
        require(a == a, "a gate differs from itself")
        for _, b, mb in zoo[:i]:
            eq = a == b
            require(eq == (b == a) and eq != (a != b), "== is not symmetric or != disagrees", a, b)
            require(not eq or ma.shape == mb.shape and np.max(np.abs(ma - mb)) < 1e-5, "equal gates have different matrices", a, b)


@st.composite
def def_pairs(draw):
    """Two custom definitions that share a name; the second is a changed copy of the first."""
    n = draw(st.integers(1, 2))
    d = 2**n
    perm = draw(st.permutations(list(range(d))))
    ph = [draw(st.sampled_from([0.0, 0.5, 1.0, -1.25, 3.0])) for _ in range(d)]
    perm2 = draw(st.sampled_from([0, 0, 1])) and draw(st.permutations(list(range(d)))) or perm
    ph2 = list(ph)
    if draw(st.booleans()):
        i = draw(st.integers(0, d - 1))
        ph2[i] += draw(st.sampled_from([1e-3, 0.7]))
    names = draw(st.sampled_from([["x", "y"], ["y", "x"]]))
    names2 = draw(st.sampled_from([names, names, list(reversed(names))]))
    return {
        "perm": [list(perm), list(perm2)],
        "ph": [ph, ph2],
        "names": [names, names2],
        "gname": ["G", draw(st.sampled_from(["G", "G", "G2"]))],
        "args": [draw(expr.angles), draw(expr.angles)],
    }


@sub(
    def_pairs,
    quick=120,
    thorough=3000,
    rule="the two definitions differ",
    nt=lambda x: any(v[0] != v[1] for k, v in x.items() if k != "args"),
)
def custom_definitions(x):
    """Custom definitions: equal exactly when name, matrix and parameter order agree; instances too."""
    import sympy
    from zquantum.core.circuits import CustomGateDefinition

    defs, mats = [], []
    for i in range(2):
        perm, ph, names = x["perm"][i], x["ph"][i], x["names"][i]
        d = len(perm)
        m = sympy.zeros(d, d)
        s = [sympy.Symbol("x"), sympy.Symbol("y")]
        for r in range(d):
            m[r, perm[r]] = sympy.exp(sympy.I * (s[0] + 2 * r * s[1])) * sympy.exp(sympy.I * ph[r])
        defs.append(CustomGateDefinition(x["gname"][i], m, tuple(sympy.Symbol(k) for k in names)))
        env = dict(zip(names, x["args"]))
        w = np.zeros((d, d), dtype=complex)
        for r in range(d):
            w[r, perm[r]] = np.exp(1j * (env["x"] + 2 * r * env["y"] + ph[r]))
        mats.append(w)
    same = all(x[k][0] == x[k][1] for k in ("perm", "ph", "names", "gname"))
    require((defs[0] == defs[1]) == same, f"definitions compare {not same}, expected {same}")
    gates = [d(*x["args"]) for d in defs]
    for g, w in zip(gates, mats):
        require(ref.close(gen.numeric(g.matrix), w), "custom gate matrix differs from its definition")
        require(g.num_qubits == int(np.log2(len(w))), "custom gate qubit count")
    if gates[0] == gates[1]:
        require(ref.close(mats[0], mats[1], 1e-6), "equal custom gates have different matrices")
    if same:
        require(gates[0] == gates[1], "same custom gates are not equal")


@sub(
    lambda: st.fixed_dictionaries({"seed": st.integers(0, 10**6), "q": st.integers(1, 2), "steps": st.lists(st.sampled_from([0, 0, 1, 2, 3]), min_size=2, max_size=7)}).filter(lambda x: sum(x["steps"]) <= 6),
    quick=60,
    thorough=1500,
    shards=3,
    rule="four controls or more",
    nt=lambda x: sum(x["steps"]) >= 4,
)
def many_controls(x):
    g = gen.big_gate(np.random.RandomState(x["seed"]), x["q"], wrap=False)
    run_chain({"g": g, "steps": x["steps"], "env": None})
