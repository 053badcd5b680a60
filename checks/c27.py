"""C27: gate decompositions preserve the circuit's action."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import excluded, label, require, sub

TECHNIQUE = "property-based testing (Hypothesis): generated circuits and rule lists against numpy unitaries, and generated rewriting systems against a model"
ASSUMPTIONS = [
    "up to 4 qubits; symbolic parameters are compared at generic assignments",
    "additional gate rules written for the check (X, SWAP, CZ, RX, RZ, ...) are right up to a global phase",
]

F27 = "F27-controlled-u3-phase"


def strip(g):
    """(kind, ...): whether the gate is U3 or a controlled U3 after double daggers and nested controls are merged."""
    ctrl, dag = 0, 0
    while "p" not in g:
        if "dag" in g:
            dag, g = dag + 1, g["dag"]
        else:
            ctrl, g = ctrl + g["ctrl"], g["of"]
    return g, ctrl, dag % 2


def is_u3(o):
    if isinstance(o, dict):
        return False
    g, _, dag = strip(o[0])
    return g.get("g") == "U3" and not dag


def u3_circuits(symbolic):
    """Circuits in which U3, plain, controlled and wrapped, is frequent."""

    @st.composite
    def make(draw):
        n = draw(st.integers(1, 3 if symbolic != "none" else 4))
        p = gen.params(symbolic, ["theta", "phi", "a"])
        if symbolic != "none":
            symbol = st.sampled_from(["theta", "phi", "a"]).map(lambda s: ["sym", s])
            p = st.integers(0, 3).flatmap(lambda k: expr.angles if k == 3 else symbol)
        special = st.sampled_from([0.0, math.pi, -math.pi, math.pi / 2, 2 * math.pi, 4 * math.pi])
        p0 = p
        p = st.integers(0, 3).flatmap(lambda k: special if k == 3 else p0)
        ops = []
        for _ in range(draw(st.integers(1, 4 if symbolic == "none" else 3))):
            if draw(st.integers(0, 3)) == 0:
                ops.append(draw(gen.operations(n, symbolic, ["theta", "phi", "a"])))
                continue
            g = {"g": "U3", "p": [draw(p) for _ in range(3)]}
            if draw(st.integers(0, 4)) == 0:
                g["p"][2] = -g["p"][1] if not isinstance(g["p"][1], list) else ["neg", g["p"][1]]
            k = 1
            for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
                if draw(st.integers(0, 3)) == 0:
                    g = {"dag": g}
                    if draw(st.booleans()):
                        g = {"dag": g}
                elif k < n:
                    c = draw(st.integers(1, n - k))
                    g = {"ctrl": c, "of": g}
                    k += c
            ops.append([g, list(draw(st.permutations(list(range(n)))))[: gen.gate_qubits(g)]])
        if draw(st.integers(0, 6)) == 0:
            ops.insert(draw(st.integers(0, len(ops))), {"phases": [draw(expr.angles) for _ in range(2**n)]})
            return {"ops": ops, "n": n}
        return {"ops": ops, "n": draw(st.sampled_from([n, None, n + 1]))}

    return make()


def without_phase(c, env):
    """The circuit with every controlled U3 replaced by its controlled rotations: what finding F27 gives."""
    ops, changed = [], False
    for o in c["ops"]:
        if is_u3(o) and strip(o[0])[1]:
            g, k, _ = strip(o[0])
            theta, phi, lam = g["p"]
            s = gen.param_value(phi, env) + gen.param_value(lam, env)
            if abs(np.exp(0.5j * s) - 1) > 1e-9:
                changed = True
                for name, p in (("RZ", lam), ("RY", theta), ("RZ", phi)):
                    ops.append([{"ctrl": k, "of": {"g": name, "p": [p]}}, o[1]])
                continue
        ops.append(o)
    return {"ops": ops, "n": gen.circuit_n(c)}, changed


def unitary_of(circuit, env):
    """Unitary of a library circuit, operation by operation."""
    n = circuit.n_qubits
    u = np.eye(2**n, dtype=complex)
    for op in circuit.operations:
        if not hasattr(op, "gate"):
            u = np.diag(np.exp(1j * np.array([complex(x).real for x in op.params]))) @ u
            continue
        m = gen.numeric(op.gate.matrix, env)
        u = np.array([ref.apply_matrix(m, list(op.qubit_indices), col, n) for col in u.T]).T
    return u


def check_u3(c, env):
    from zquantum.core.circuits import ControlledGate
    from zquantum.core.decompositions import U3GateToRotation, decompose_zquantum_circuit

    circuit = gen.build_circuit(c)
    n = circuit.n_qubits
    before = list(circuit.operations)
    out = decompose_zquantum_circuit(circuit, [U3GateToRotation()])
    require(list(circuit.operations) == before == list(gen.build_circuit(c).operations) and circuit.n_qubits == n, "the input circuit was changed")
    require(out.n_qubits == n, "the result is on another register", n, out.n_qubits)
    for op in out.operations:
        g = getattr(op, "gate", None)
        require(g is None or not (g.name == "U3" or isinstance(g, ControlledGate) and g.wrapped_gate.name == "U3"), "a U3 was left", str(op))
    # each operation on its own gives its part of the result: order is kept, other operations are untouched
    parts = []
    from zquantum.core.circuits import Circuit

    for o, op in zip(c["ops"], before):
        part = list(decompose_zquantum_circuit(Circuit([op], n_qubits=n), [U3GateToRotation()]).operations)
        if not is_u3(o):
            require(part == [op], "an operation no rule applies to was changed", str(op), [str(x) for x in part])
        parts += part
    require(parts == list(out.operations), "the result is not the operations' decompositions in order", [str(x) for x in parts], [str(x) for x in out.operations])
    want = gen.ref_unitary({"ops": c["ops"], "n": n}, env, n)
    got = unitary_of(out, env)
    if ref.equal_up_to_phase(got, want):
        label("same unitary")
        return
    alternative, changed = without_phase({"ops": c["ops"], "n": n}, env)
    require(changed, "another unitary", [str(x) for x in out.operations])
    excluded(F27)
    require(ref.equal_up_to_phase(got, gen.ref_unitary(alternative, env, n)), "another unitary, and not by the known missing phase of a controlled U3", [str(x) for x in out.operations])


@sub(
    u3_circuits("none"),
    quick=300,
    thorough=4000,
    rule="the circuit has a U3 or controlled U3 with an angle that is not 0",
    nt=lambda c: any(is_u3(o) and any(strip(o[0])[0]["p"]) for o in c["ops"]),
    examples=[
        {"ops": [[{"g": "U3", "p": [0.1, 0.2, 0.3]}, [1]]], "n": 3},
        {"ops": [[{"ctrl": 1, "of": {"g": "U3", "p": [0.4, 1.0, -1.0]}}, [2, 0]]], "n": None},
        {"ops": [{"phases": [0.1, 0.2]}, [{"g": "U3", "p": [0.1, 0.2, 0.3]}, [0]]], "n": 1},
        {"ops": [[{"ctrl": 1, "of": {"g": "U3", "p": [0.4, 1.0, 0.5]}}, [0, 1]]], "n": 2},
    ],
)
def u3(c):
    """Circuits with numeric U3 gates, plain, controlled and wrapped."""
    check_u3(c, {})


@sub(
    st.tuples(u3_circuits("mixed"), gen.envs(["theta", "phi", "a"])),
    quick=100,
    thorough=1200,
    shards=2,
    rule="a U3 or controlled U3 has a symbol",
    nt=lambda c: any(is_u3(o) and any(isinstance(p, list) for p in strip(o[0])[0]["p"]) for o in c[0]["ops"]),
)
def symbolic_u3(c):
    """Circuits with symbolic U3 gates, compared at an assignment."""
    check_u3(*c)


# --- lists of gate rules ---------------------------------------------------------------------

RULES = ["u3", "x", "swap", "cz", "rx", "rz", "h", "i", "cnot", "rx_rot", "swap"]


def make_rule(name):
    """Rules for the library's gates; each is right up to a global phase."""
    import sympy  # noqa: F401

    from zquantum.core import circuits as zc
    from zquantum.core.decompositions import U3GateToRotation

    if name == "u3":
        return U3GateToRotation()
    table = {
        "x": ("X", lambda q, p: [zc.H(*q), zc.Z(*q), zc.H(*q)]),
        "swap": ("SWAP", lambda q, p: (g for g in [zc.CNOT(*q), zc.CNOT(q[1], q[0]), zc.CNOT(*q)])),
        "cz": ("CZ", lambda q, p: (zc.H(q[1]), zc.CNOT(*q), zc.H(q[1]))),
        "cnot": ("CNOT", lambda q, p: [zc.H(q[1]), zc.CZ(*q), zc.H(q[1])]),
        "rx": ("RX", lambda q, p: iter([zc.U3(p[0], -math.pi / 2, math.pi / 2)(*q)])),
        "rx_rot": ("RX", lambda q, p: [zc.H(*q), zc.RZ(p[0])(*q), zc.H(*q)]),
        "rz": ("RZ", lambda q, p: [zc.PHASE(p[0])(*q)]),
        "h": ("H", lambda q, p: [zc.Z(*q), zc.RY(math.pi / 2)(*q)]),
        "i": ("I", lambda q, p: []),
    }
    gate_name, prod = table[name]

    class Rule:
        def predicate(self, operation):
            return getattr(getattr(operation, "gate", None), "name", None) == gate_name

        def production(self, operation):
            require(self.predicate(operation), "a rule was asked to decompose an operation it does not apply to", str(operation))
            return prod(operation.qubit_indices, operation.params)

    rule = Rule()
    rule.gate_name = gate_name
    return rule


@st.composite
def rule_cases(draw):
    n = draw(st.integers(2, 3))
    gates = st.sampled_from(["X", "SWAP", "CZ", "RX", "RX", "RZ", "H", "I", "CNOT", "U3", "T"])

    def op(g):
        k = 2 if g in ("SWAP", "CZ", "CNOT") else 1
        p = [draw(expr.angles) for _ in range({"RX": 1, "RZ": 1, "U3": 3}.get(g, 0))]
        return [{"g": g, "p": p}, list(draw(st.permutations(list(range(n)))))[:k]]

    ops = [op(draw(gates)) for _ in range(draw(st.sampled_from([1, 3, 4, 6])))]
    if draw(st.integers(0, 4)) == 0:
        ops.append(draw(gen.operations(n, wrap=2, u3=False)))
    return {"c": {"ops": ops, "n": draw(st.sampled_from([n, n + 1, None]))}, "rules": draw(st.lists(st.sampled_from(RULES), min_size=draw(st.sampled_from([0, 2, 2, 3])), max_size=5))}


@sub(
    rule_cases(),
    quick=250,
    thorough=3000,
    rule="two rules or more, and some rule changed the circuit",
    nt=lambda c: len(c["rules"]) >= 2 and any(not isinstance(o, dict) and o[0].get("g", "").lower() in c["rules"] for o in c["c"]["ops"]),
    examples=[
        {"c": {"ops": [[{"g": "RX", "p": [0.3]}, [0]]], "n": 2}, "rules": ["rx", "u3"]},
        {"c": {"ops": [[{"g": "RX", "p": [0.3]}, [0]]], "n": 2}, "rules": ["u3", "rx"]},
        {"c": {"ops": [[{"g": "SWAP", "p": []}, [1, 0]]], "n": None}, "rules": ["swap", "cnot", "cz"]},
        {"c": {"ops": [[{"g": "I", "p": []}, [1]]], "n": None}, "rules": ["i"]},
    ],
)
def rule_lists(c):
    """Lists of gate rules: same register and unitary; a list acts as its rules one after another."""
    from zquantum.core.decompositions import decompose_zquantum_circuit

    circuit = gen.build_circuit(c["c"])
    one_each = {r: make_rule(r) for r in c["rules"]}
    rules = [one_each[r] for r in c["rules"]]
    before = list(circuit.operations)
    out = decompose_zquantum_circuit(circuit, rules)
    require(list(circuit.operations) == before, "the input circuit was changed")
    require(len(rules) == len(c["rules"]), "the list of rules was changed")
    require(out.n_qubits == circuit.n_qubits, "the result is on another register", circuit.n_qubits, out.n_qubits)
    n = circuit.n_qubits
    want = gen.ref_unitary({"ops": c["c"]["ops"], "n": n}, {}, n)
    require(ref.equal_up_to_phase(unitary_of(out, {}), want), "another unitary", [str(o) for o in out.operations])
    # model: one pass per rule, in order
    model = before
    for rule in rules:
        model = [x for op in model for x in (list(rule.production(op)) if rule.predicate(op) else [op])]
    require(list(out.operations) == model, "not the result of applying the rules in order", [str(o) for o in model], [str(o) for o in out.operations])
    if rules:
        require(not any(rules[-1].predicate(o) for o in out.operations), "the last rule still applies to the result")
    else:
        require(out == circuit, "no rules changed the circuit")
    stepwise = circuit
    for rule in rules:
        stepwise = decompose_zquantum_circuit(stepwise, (rule,))
    require(stepwise == out, "rules one at a time give another circuit")


# --- the driver on arbitrary operations ------------------------------------------------------

SYMBOLS = "abcdef"


@st.composite
def systems(draw):
    rule = st.dictionaries(st.sampled_from(SYMBOLS), st.text(SYMBOLS, max_size=3), min_size=1, max_size=3)
    rules = draw(st.lists(rule, max_size=5))
    form = st.sampled_from(["list", "tuple", "iterator", "reversed"])
    order = draw(st.one_of(st.none(), st.lists(st.integers(0, len(rules) - 1), max_size=7))) if rules else None
    return {"ops": draw(st.text(SYMBOLS, max_size=6)), "rules": [[r, draw(form)] for r in rules], "lazy": draw(st.booleans()), "order": order}


@sub(
    systems(),
    quick=400,
    thorough=4000,
    rule="two rules or more, the first of which applies",
    nt=lambda c: len(c["rules"]) >= 2 and any(o in c["rules"][0][0] for o in c["ops"]),
    examples=[
        {"ops": "ab", "rules": [[{"a": "bb"}, "list"], [{"b": "ca"}, "iterator"], [{"a": ""}, "tuple"]], "lazy": True},
        {"ops": "a", "rules": [[{"a": "ab"}, "reversed"], [{"a": "ab"}, "reversed"]], "lazy": False},
    ],
)
def driver(c):
    """The rule driver on arbitrary operations: one pass per rule, in order."""
    from zquantum.core.decompositions import decompose_operations

    class Rule:
        def __init__(self, table, form):
            self.table, self.form = table, form

        def predicate(self, operation):
            return operation in self.table

        def production(self, operation):
            require(operation in self.table, "a rule was asked to decompose an operation it does not apply to", operation)
            out = list(self.table[operation])
            return {"list": lambda: out, "tuple": lambda: tuple(out), "iterator": lambda: iter(out), "reversed": lambda: reversed(out[::-1])}[self.form]()

    rules = [Rule(t, f) for t, f in c["rules"]]
    order = c.get("order")
    if order is not None:
        # some rules several times
        rules = [rules[i] for i in order]
    model = list(c["ops"])
    for t in [r.table for r in rules]:
        model = [x for op in model for x in t.get(op, op)]
    for rs in (rules, tuple(rules)):
        got = decompose_operations(iter(c["ops"]) if c["lazy"] else list(c["ops"]), rs)
        require(list(got) == model, "not the result of applying the rules in order", model, list(got))
