"""C04: circuit serialization round trips."""
import io
import json
import os

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import excluded, label, require, scratch, sub

ASSUMPTIONS = [
    "symbol names are identifiers or indexed names x[3], other than mathematical constants/functions used in the expression",
    "custom gate names differ from built-in names; equality is the library's (absolute tolerance 1e-8 on parameters)",
]

# names that mean something to the expression parser, to Python or to the ordering
NAMES = [
    "a", "theta", "theta_0", "theta_10", "gamma", "beta", "zeta", "lambda_1", "S", "I", "N", "O", "Q",
    "E", "C", "re", "x_1", "_u", "alpha", "x[0]", "x[1]", "x[10]", "w[2]", "Symbol", "print", "lambda",
    "is", "x", "w", "θ", "test", "im", "gate", "H", "RX",
]


def roundtrip_dict(c):
    from zquantum.core.circuits import circuit_from_dict, to_dict

    d = to_dict(c)
    text = json.dumps(d)
    return circuit_from_dict(json.loads(text)), d, text


def same_circuit(a, b, env, what, unitary=True):
    require(type(a) is type(b), f"{what}: type")
    require(b.n_qubits == a.n_qubits, f"{what}: register size {b.n_qubits}, expected {a.n_qubits}")
    require(len(a.operations) == len(b.operations), f"{what}: number of operations")
    exact = not any(inexact(p) for o in a.operations for p in o.params)
    if not exact:
        excluded("F04-float-coefficients")
    require(not exact or a == b, f"{what}: not equal", a, b)
    for o, p in zip(a.operations, b.operations):
        require(tuple(o.qubit_indices) == tuple(p.qubit_indices), f"{what}: qubits")
        require(len(o.params) == len(p.params), f"{what}: number of parameters")
        require(o.gate.name == p.gate.name and o.gate.num_qubits == p.gate.num_qubits, f"{what}: gate")
        require(set(o.free_symbols) == set(p.free_symbols), f"{what}: free symbols of {o}")
        for x, y in zip(o.params, p.params):
            vx, vy = val(x, env), val(y, env)
            tol = 1e-13 if isinstance(x, float) else 1e-8
            require(abs(vx - vy) <= tol * max(1, abs(vx)), f"{what}: parameter {x} became {y}")
    da, db = a.collect_custom_gate_definitions(), b.collect_custom_gate_definitions()
    require(da == db, f"{what}: custom definitions", da, db)


def inexact(p):
    """A symbolic parameter with a number that needs more than the 15 digits sympy prints
    (known finding F04-float-coefficients: it is read back rounded, so == fails)."""
    import sympy

    return (
        isinstance(p, sympy.Basic)
        and (bool(p.free_symbols) or abs(p) > 1e5)
        and any(sympy.Float(str(f)) != f for f in p.atoms(sympy.Float))
    )


def val(p, env):
    import sympy

    if isinstance(p, sympy.Basic):
        return complex(p.evalf(20, subs={s: env[str(s)] for s in p.free_symbols}))
    return complex(p)


def unitary_ok(b, spec, env, what):
    got = gen.numeric(b.to_unitary(), env)
    require(ref.close(got, gen.ref_unitary(spec, env), 1e-7), f"{what}: unitary differs")


@st.composite
def names(draw):
    return draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=4))


@st.composite
def cases(draw, max_n=3, max_ops=5, n_circ=None, force_sym=False):
    nm = draw(names())
    env = draw(gen.envs(nm))
    k = 1 if n_circ is None else draw(st.integers(0, n_circ))
    cs = []
    for _ in range(k):
        sy = "only" if force_sym else draw(st.sampled_from(["mixed", "mixed", "none"]))
        c = draw(gen.circuits(max_n=max_n, max_ops=max_ops, min_ops=0, symbolic=sy, names=nm))
        if c["n"] is not None and draw(st.booleans()):
            c["n"] += draw(st.integers(0, 2))
        cs.append(c)
    return {"cs": cs, "env": env}


def gate_tags(g):
    t = set()
    while "p" not in g:
        t.add("wrap")
        g = g["dag"] if "dag" in g else g["of"]
    if "custom" in g:
        t.add("custom")
    if any(isinstance(p, list) for p in g["p"]):
        t.add("sym")
    return t


def nt(x):
    tags = set()
    for c in x["cs"]:
        for o in c["ops"]:
            tags |= gate_tags(o[0])
    return len(tags) >= 2


RULE = "at least two of: custom gate, wrapped gate, symbolic parameter"


@sub(lambda: cases(), quick=300, thorough=8000, shards=4, rule=RULE, nt=nt)
def circuit_dict(x):
    c = gen.build_circuit(x["cs"][0])
    r, d, text = roundtrip_dict(c)
    same_circuit(c, r, x["env"], "dict")
    d2 = json.dumps(__import__("zquantum.core.circuits", fromlist=["to_dict"]).to_dict(c))
    require(d2 == text, "serializing twice gives different text")
    r2, _, _ = roundtrip_dict(r)
    same_circuit(c, r2, x["env"], "second round trip")
    for t in {t for o in x["cs"][0]["ops"] for t in gate_tags(o[0])}:
        label(t)


@sub(lambda: cases(max_n=2, max_ops=3), quick=60, thorough=2000, shards=3, rule=RULE, nt=nt)
def unitary_after(x):
    spec = x["cs"][0]
    if not spec["ops"]:
        return
    c = gen.build_circuit(spec)
    r, _, _ = roundtrip_dict(c)
    if r.n_qubits <= 4:
        unitary_ok(r, spec, x["env"], "after reading back")
    # bind what was read back
    import sympy

    b = r.bind({sympy.Symbol(k): v for k, v in x["env"].items()})
    want = [gen.param_value(p, x["env"]) for o in spec["ops"] for p in gen.op_params(o)]
    got = [complex(p) for o in b.operations for p in o.params]
    require(np.allclose(got, want, atol=1e-7), "binding after reading back gives other parameters", got, want)


@sub(lambda: cases(n_circ=3, max_ops=3), quick=120, thorough=3000, shards=3, rule=RULE + "; over the whole list", nt=nt)
def files_and_lists(x):
    from zquantum.core.circuits import (
        load_circuit,
        load_circuitset,
        save_circuit,
        save_circuitset,
        circuitset_from_dict,
        to_dict,
    )

    cs = [gen.build_circuit(c) for c in x["cs"]]
    with scratch():
        save_circuitset(cs, "set.json")
        back = load_circuitset("set.json")
        with open("set.json") as f:
            back2 = load_circuitset(f)
            back3 = circuitset_from_dict(json.loads(open("set.json").read()))
        for b in (back, back2, back3):
            require(isinstance(b, list) and len(b) == len(cs), "circuit set length")
            for c, r in zip(cs, b):
                same_circuit(c, r, x["env"], "circuit set")
        for i, c in enumerate(cs):
            save_circuit(c, f"c{i}.json")
            same_circuit(c, load_circuit(f"c{i}.json"), x["env"], "file")
            buf = io.StringIO()
            with open("o.json", "w") as f:
                save_circuit(c, f)
            with open("o.json") as f:
                same_circuit(c, load_circuit(f), x["env"], "file object")


# ---- custom definitions and shared use


@st.composite
def several(draw):
    # one name may be contained in another, or be the name of a built-in gate in another case
    names = draw(st.lists(st.sampled_from(["U", "AU", "UA", "U1", "U11", "UU", "u", "AU1", "1U", "A", "x", "Controlled", "dagger"]), min_size=2, max_size=5, unique=True))
    use = draw(st.lists(st.tuples(st.integers(0, len(names) - 1), st.integers(0, 2), st.booleans(), st.integers(0, 2)), min_size=1, max_size=6))
    return {"names": names, "angles": [0.25 + 0.5 * i for i in range(len(names))], "uses": use, "parametric": draw(st.booleans())}


@sub(several, quick=150, thorough=3000, shards=2, rule="at least two definitions are used", nt=lambda x: len({u[0] for u in x["uses"]}) > 1)
def several_definitions(x):
    """Circuits with several custom gates: each is read back with its own definition."""
    import sympy
    from zquantum.core.circuits import Circuit, CustomGateDefinition

    p = sympy.Symbol("p")
    defs = []
    for name, a in zip(x["names"], x["angles"]):
        a = sympy.Float(a) * (p if x["parametric"] else 1)
        defs.append(CustomGateDefinition(name, sympy.Matrix([[sympy.cos(a), -sympy.sin(a)], [sympy.sin(a), sympy.cos(a)]]), (p,) if x["parametric"] else ()))
    ops = []
    for d, q, dag, ctrl in x["uses"]:
        g = defs[d](*([0.5 * q + 0.125] if x["parametric"] else []))
        g = g.controlled(ctrl) if ctrl else g
        g = g.dagger if dag else g
        ops.append(g(*range(q, q + g.num_qubits)))
    c = Circuit(ops)
    r, _, _ = roundtrip_dict(c)
    require(r == c, "a circuit with several custom gates differs after reading back", c, r)
    for o, (d, q, dag, ctrl) in zip(r.operations, x["uses"]):
        a = x["angles"][d] * ((0.5 * q + 0.125) if x["parametric"] else 1)
        w = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]], dtype=complex)
        w = ref.controlled(w, ctrl) if ctrl else w
        require(ref.close(gen.numeric(o.gate.matrix), w.conj().T if dag else w, 1e-7), "a custom gate is read back with another matrix", o)
    require([d.gate_name for d in r.collect_custom_gate_definitions()] == sorted({x["names"][u[0]] for u in x["uses"]}), "other definitions")


@st.composite
def def_cases(draw):
    nq = draw(st.integers(1, 2))
    d = 2**nq
    # I and E are printed like the constants that the matrix itself uses
    pnames = draw(st.lists(st.sampled_from([k for k in NAMES if k not in "IE"]), unique=True, min_size=0, max_size=3))
    perm = draw(st.permutations(list(range(d))))
    coef = [
        [draw(st.sampled_from([0, 1, -1, 2, 0.5])) for _ in pnames] + [draw(st.sampled_from([0, 1, 0.25]))]
        for _ in range(d)
    ]
    form = draw(st.sampled_from(["exp", "cossin"]))
    uses = []
    anames = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=1, max_size=3))
    for _ in range(draw(st.integers(1, 3))):
        args = [
            draw(st.one_of(expr.angles, st.sampled_from(anames).map(lambda s: ["sym", s]), expr.exprs(anames, 2)))
            for _ in pnames
        ]
        uses.append({"args": args, "dag": draw(st.booleans()), "ctrl": draw(st.integers(0, 1))})
    return {
        "perm": list(perm), "names": pnames, "coef": coef, "form": form, "uses": uses,
        "env": draw(gen.envs(sorted(set(NAMES)))), "gname": draw(st.sampled_from(["G", "my_gate", "gate 7", "U_ü"])),
    }


@sub(
    def_cases,
    quick=120,
    thorough=3000,
    shards=3,
    rule="the definition has parameters and is used at least twice",
    nt=lambda x: bool(x["names"]) and len(x["uses"]) > 1,
)
def custom_definitions(x):
    import sympy
    from zquantum.core.circuits import Circuit, CustomGateDefinition, to_dict
    from zquantum.core.circuits._serde import custom_gate_def_from_dict

    d = len(x["perm"])
    s = [sympy.Symbol(k) for k in x["names"]]
    m = sympy.zeros(d, d)
    for r in range(d):
        e = sum((c * q for c, q in zip(x["coef"][r], s)), sympy.Integer(0)) + x["coef"][r][-1]
        m[r, x["perm"][r]] = sympy.exp(sympy.I * e) if x["form"] == "exp" else sympy.cos(e) + sympy.I * sympy.sin(e)
    de = CustomGateDefinition(x["gname"], m, tuple(s))
    back = custom_gate_def_from_dict(json.loads(json.dumps(to_dict(de))))
    require(back == de, "custom gate definition differs after reading back", de, back)
    require(back.gate_name == de.gate_name and tuple(back.params_ordering) == tuple(s), "name or parameter order")
    ops, refs = [], []
    env = x["env"]
    nq = int(np.log2(d))
    for u in x["uses"]:
        g = de(*[gen.build_param(a) for a in u["args"]])
        vals = [gen.param_value(a, env) for a in u["args"]]
        w = np.zeros((d, d), dtype=complex)
        for r in range(d):
            c = x["coef"][r]
            w[r, x["perm"][r]] = np.exp(1j * (sum(p * q for p, q in zip(c, vals)) + c[-1]))
        if u["ctrl"]:
            g, w = g.controlled(1), ref.controlled(w, 1)
        if u["dag"]:
            g, w = g.dagger, w.conj().T
        ops.append(g(*range(g.num_qubits)))
        refs.append(w)
    c = Circuit(ops)
    r, _, _ = roundtrip_dict(c)
    same_circuit(c, r, env, "shared custom gate")
    require(list(r.collect_custom_gate_definitions()) == [de], "definitions in the circuit read back")
    for o, w in zip(r.operations, refs):
        require(ref.close(gen.numeric(o.gate.matrix, env), w, 1e-7), "custom gate matrix differs after reading back")


@sub(
    lambda: st.tuples(expr.exprs(NAMES, 6), gen.envs(NAMES)).map(lambda t: {"e": t[0], "env": t[1]}),
    quick=600,
    thorough=15000,
    rule="the expression has at least two symbols",
    nt=lambda x: len(expr.symbols(x["e"])) > 1,
)
def expressions(x):
    """Parameter expressions survive their textual form."""
    import sympy
    from zquantum.core.circuits import RX
    from zquantum.core.circuits._serde import _gate_from_dict

    e = gen.build_param(x["e"])
    g = RX(e)
    from zquantum.core.circuits import to_dict

    r = _gate_from_dict(json.loads(json.dumps(to_dict(g))), [])
    if not isinstance(e, sympy.Basic):
        return
    if abs(val(e, x["env"])) > 1e6:
        return
    require(set(r.free_symbols) == set(g.free_symbols), f"free symbols of {e}: {r.free_symbols}")
    a, b = val(e, x["env"]), val(r.params[0], x["env"])
    require(abs(a - b) <= 1e-8 * max(1, abs(a)), f"{e} became {r.params[0]}")


@st.composite
def clashes(draw):
    a = draw(expr.angles)
    return {"delta": draw(st.sampled_from([0, 0.5, 1e-3])), "a": a, "dag": draw(st.booleans()), "ctrl": draw(st.booleans())}


@sub(clashes, quick=40, thorough=400, rule="the two definitions differ", nt=lambda x: x["delta"] != 0)
def name_clash(x):
    """Different definitions under one name cannot be serialized faithfully: they must be refused."""
    import sympy
    from zquantum.core.circuits import Circuit, CustomGateDefinition, to_dict
    from pbt.core import raises

    mk = lambda v: CustomGateDefinition("G", sympy.Matrix([[1, 0], [0, sympy.exp(sympy.I * v)]]), ())
    g1, g2 = mk(sympy.Float(x["a"]))(), mk(sympy.Float(x["a"] + x["delta"]))()
    if x["dag"]:
        g2 = g2.dagger
    if x["ctrl"]:
        g2 = g2.controlled(1)
    c = Circuit([g1(0), g2(*range(g2.num_qubits))])
    if x["delta"]:
        raises(ValueError, lambda: to_dict(c), "two definitions with one name")
    else:
        r, _, _ = roundtrip_dict(c)
        require(r == c, "round trip of equal definitions")


MANY = [f"theta_{i}" for i in range(20)] + ["x[0]", "x[1]", "x[10]", "x[11]", "x[2]", "lambda", "beta", "S", "N", "a"]


@sub(
    lambda: st.fixed_dictionaries(
        {
            "n": st.sampled_from([4, 11, 25, 130]),
            "count": st.sampled_from([12, 25, 60, 110]),
            "seed": st.integers(0, 10**6),
            "shared": st.sampled_from([0, 4]),
            "symbolic": st.sampled_from(["none", "mixed", "only"]),
            "extra": st.sampled_from([0, 1, 90]),
            "sets": st.sampled_from([0, 0, 3, 12]),
        }
    ),
    quick=40,
    thorough=1000,
    shards=4,
    rule="every case: twelve operations or more",
)
def large_circuits(x):
    """Many qubits and operations, gates with many controls, many symbols, and sets of many circuits."""
    import zquantum.core.circuits as zc

    ops = gen.big_ops(x["seed"], x["n"], x["count"], max_gate=6, shared=x["shared"], symbolic=x["symbolic"], names=MANY, max_ctrl=5)
    c = zc.Circuit([gen.build_op(o) for o in ops], n_qubits=x["n"] + x["extra"])
    rs = np.random.RandomState(x["seed"] + 1)
    env = {k: round(float(rs.uniform(-3, 3)), 4) for k in MANY}
    r, _, _ = roundtrip_dict(c)
    same_circuit(c, r, env, "large circuit")
    for o, op in zip(ops, r.operations):
        g = o[0]
        require(op.gate.num_qubits == gen.gate_qubits(g), "a gate has another number of qubits after reading back", op)
        while "p" not in g:
            g = g["dag"] if "dag" in g else g["of"]
        require(list(op.qubit_indices) == o[1], "qubits after reading back")
        got = [val(p, env) for p in op.params]
        want = [gen.param_value(p, env) for p in g["p"]]
        require(len(got) == len(want) and np.allclose(got, want, atol=1e-7), "parameters after reading back", got, want)
    if x["sets"]:
        k = x["sets"]
        parts = [zc.Circuit(c.operations[i::k], n_qubits=c.n_qubits + i) for i in range(k)]
        with scratch():
            zc.save_circuitset(parts, "s.json")
            back = zc.load_circuitset("s.json")
        require(len(back) == k, "length of a circuit set")
        for a, b in zip(parts, back):
            same_circuit(a, b, env, "large circuit set")


@sub(
    lambda: st.fixed_dictionaries(
        {
            "gate": st.sampled_from(["RX", "U3", "cg_two", "cg_theta", "CPHASE"]),
            "k": st.sampled_from([3, 6, 9, 12, 20]),
            "form": st.sampled_from(["sum", "products", "nested"]),
            "wrap": st.sampled_from(["", "dag", "ctrl"]),
            "seed": st.integers(0, 10**6),
        }
    ),
    quick=48,
    thorough=1000,
    shards=4,
    rule="nine symbols or more in one gate",
    nt=lambda x: x["k"] >= 9,
)
def many_symbols(x):
    """One gate whose parameters have many symbols, whatever these are called."""
    import sympy
    import zquantum.core.circuits as zc

    rs = np.random.RandomState(x["seed"])
    pool = [k for k in NAMES if k not in ("x", "w")]
    ns = [pool[i] for i in rs.permutation(len(pool))[: x["k"]]]
    s = [sympy.Symbol(k) for k in ns]
    count = {"RX": 1, "CPHASE": 1, "U3": 3, "cg_two": 2, "cg_theta": 2}[x["gate"]]
    groups = [s[i::count] for i in range(count)]
    ps = []
    for g in groups:
        c = [int(v) or 7 for v in rs.randint(-5, 6, size=len(g))]
        if x["form"] == "sum":
            e = sum((a * b for a, b in zip(c, g)), sympy.Integer(0))
        elif x["form"] == "products":
            e = sum((g[i] * g[i - 1] for i in range(len(g))), sympy.Integer(1)) / 3
        else:
            e = sympy.Integer(0)
            for a, b in zip(c, g):
                e = sympy.cos(e + b) * sympy.Rational(a, 4) + b
        ps.append(e)
    g = gen.custom_definition(x["gate"])(*ps) if x["gate"].startswith("cg") else getattr(zc, x["gate"])(*ps)
    g = g.dagger if x["wrap"] == "dag" else g.controlled(2) if x["wrap"] == "ctrl" else g
    c = zc.Circuit([g(*range(g.num_qubits))])
    r, _, _ = roundtrip_dict(c)
    same_circuit(c, r, {k: round(float(rs.uniform(-3, 3)), 3) for k in ns}, "many symbols")
