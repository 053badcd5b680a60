"""C05: combining and generating circuits."""
import json
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import expr, gen, ref
from pbt.core import label, raises, require, sub

TECHNIQUE = "property-based testing (Hypothesis), model-based: a list-of-operations model follows a generated sequence of circuit-building steps"
ASSUMPTIONS = ["only gate operations are appended (appending wavefunction operations is not offered)"]


# ------------------------------------------------------------ sequences of building steps


@st.composite
def histories(draw):
    start = draw(gen.circuits(max_n=3, max_ops=3, min_ops=0))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["op", "circ", "circ", "layer", "gateto", "ancilla", "rcirc", "self"]))
        if k == "op":
            o = draw(gen.operations(4, max_gate=2, wrap=1))
            steps.append(["op", o])
        elif k in ("circ", "rcirc"):
            c = draw(gen.circuits(max_n=3, max_ops=3, min_ops=0))
            steps.append([k, c])
        elif k == "ancilla":
            steps.append([k, draw(st.integers(0, 2))])
        elif k == "self":
            steps.append([k])
        else:
            name = draw(st.sampled_from(["X", "H", "T", "RX", "RY", "PHASE", "U3", "custom"]))
            n = draw(st.integers(1, 4)) if k == "layer" else None
            qs = None
            if k == "gateto":
                qs = draw(st.lists(st.integers(0, 4), min_size=1, max_size=4))
                if draw(st.booleans()):
                    qs = list(dict.fromkeys(qs))
            count = n or len(set(qs))
            np_ = {"RX": 1, "RY": 1, "PHASE": 1, "U3": 3}.get(name, 0)
            if np_ and qs is not None and len(set(qs)) != len(qs):
                # with duplicates it is not specified which parameter belongs to which qubit
                qs = list(dict.fromkeys(qs))
                count = len(qs)
            p = [[draw(expr.angles) for _ in range(np_)] for _ in range(count)] if np_ else None
            arr = draw(st.booleans())
            steps.append([k, name, n if k == "layer" else qs, p, arr])
    return {"start": start, "steps": steps}


def model_n(ops, n):
    return max([n or 0] + [q + 1 for o in ops for q in o[1]])


@sub(
    histories,
    quick=260,
    thorough=6000,
    shards=4,
    rule="at least three steps, one of them a circuit concatenation or a layer",
    nt=lambda x: len(x["steps"]) >= 3 and any(s[0] in ("circ", "rcirc", "layer", "gateto") for s in x["steps"]),
)
def building(x):
    import zquantum.core.circuits as zc

    c = gen.build_circuit(x["start"])
    ops = list(x["start"]["ops"])
    n = model_n(ops, x["start"]["n"])
    for i, s in enumerate(x["steps"]):
        prev, prev_text = c, repr(c)
        k = s[0]
        label(k)
        other = other_text = None
        if len(ops) > 40:
            break
        if k == "op":
            c = c + gen.build_op(s[1])
            ops = ops + [s[1]]
            n = model_n([s[1]], n)
        elif k in ("circ", "rcirc"):
            other = gen.build_circuit(s[1])
            other_text = repr(other)
            c = c + other if k == "circ" else other + c
            ops = ops + s[1]["ops"] if k == "circ" else s[1]["ops"] + ops
            n = max(n, model_n(s[1]["ops"], s[1]["n"]))
        elif k == "self":
            c = c + c
            ops = ops + ops
        elif k == "ancilla":
            c = zc.add_ancilla_register(c, s[1])
            ops = ops + [[{"g": "I", "p": []}, [n + j]] for j in range(s[1])]
            n += s[1]
        else:
            spec = {"custom": "cg_u1", "p": []} if s[1] == "custom" else {"g": s[1], "p": []}
            factory = gen.custom_definition("cg_u1")() if s[1] == "custom" else getattr(zc, s[1])
            p = s[3]
            if p is not None and s[4]:
                p = np.array(p)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if k == "layer":
                    layer = zc.create_layer_of_gates(s[2], factory, p)
                    require(layer.n_qubits == s[2], f"layer register {layer.n_qubits}")
                    new = [[dict(spec, p=(s[3][q] if s[3] else [])), [q]] for q in range(s[2])]
                    compare(layer, new, s[2], "layer")
                    c = c + layer
                    n = max(n, s[2])
                else:
                    c = zc.apply_gate_to_qubits(c, s[2], factory, p)
                    uniq = list(dict.fromkeys(s[2]))
                    if len(uniq) != len(s[2]):
                        require(len(w) > 0, "duplicates ignored without a warning")
                    new = [[dict(spec, p=(s[3][j] if s[3] else [])), [q]] for j, q in enumerate(uniq)]
                    # the order among distinct qubits of one application is not promised
                    got_q = [tuple(o.qubit_indices) for o in c.operations[len(ops) :]]
                    require(sorted(got_q) == sorted((q,) for q in uniq), f"gate applied to {got_q}, expected {uniq}")
                    new = [next(o for o in new if o[1][0] == q[0]) for q in got_q]
                    n = model_n(new, n)
            ops = ops + new
        compare(c, ops, n, f"step {i} ({k})")
        require(repr(prev) == prev_text, f"step {i} ({k}) changed its input")
        if other is not None:
            require(repr(other) == other_text, f"step {i} ({k}) changed the right operand")


def compare(c, ops, n, what):
    require(c.n_qubits == n, f"{what}: {c.n_qubits} qubits, expected {n}")
    require(len(c.operations) == len(ops), f"{what}: {len(c.operations)} operations, expected {len(ops)}")
    for o, spec in zip(c.operations, ops):
        want = gen.build_op(spec)
        require(
            o == want or (o.qubit_indices == want.qubit_indices and str(o) == str(want)),
            f"{what}: operation {o}, expected {want}",
        )


@st.composite
def two_circuits(draw):
    a = draw(gen.circuits(max_n=3, max_ops=3, min_ops=0))
    b = draw(gen.circuits(max_n=4, max_ops=3, min_ops=0))
    return {"a": a, "b": b}


@sub(
    two_circuits,
    quick=160,
    thorough=4000,
    shards=3,
    rule="both circuits have operations and their registers differ",
    nt=lambda x: bool(x["a"]["ops"]) and bool(x["b"]["ops"]) and gen.circuit_n(x["a"]) != gen.circuit_n(x["b"]),
)
def concatenation_unitary(x):
    a, b = gen.build_circuit(x["a"]), gen.build_circuit(x["b"])
    n = max(gen.circuit_n(x["a"]), gen.circuit_n(x["b"]))
    c = a + b
    require(c.n_qubits == n, "register of the concatenation")
    if n == 0:
        return
    ua = gen.ref_unitary(x["a"], n=n)
    ub = gen.ref_unitary(x["b"], n=n)
    require(ref.close(gen.numeric(c.to_unitary()), ub @ ua), "unitary of a + b is not U_b U_a")


# ------------------------------------------------------------ splitting


@st.composite
def splits(draw):
    c = draw(gen.circuits(max_n=4, max_ops=9, min_ops=0, phases=draw(st.booleans())))
    bits = draw(st.lists(st.booleans(), min_size=len(c["ops"]), max_size=len(c["ops"])))
    kind = draw(st.sampled_from(["bits", "name", "qubits"]))
    return {"c": c, "bits": bits, "kind": kind}


@sub(
    splits,
    quick=220,
    thorough=5000,
    rule="the predicate takes both values",
    nt=lambda x: x["kind"] != "bits" or len(set(x["bits"])) == 2,
)
def splitting(x):
    from zquantum.core.circuits import split_circuit

    c = gen.build_circuit(x["c"])
    text = repr(c)
    by_id = {id(o): b for o, b in zip(c.operations, x["bits"])}
    pred = {
        "bits": lambda o: by_id[id(o)],
        "name": lambda o: hasattr(o, "gate") and o.gate.name in ("X", "RX", "Control", "T", "CNOT"),
        "qubits": lambda o: len(o.qubit_indices) > 1,
    }[x["kind"]]
    values = [pred(o) for o in c.operations]
    # the result is a lazy iterable: consume it both at once and step by step
    for consume in (list, lambda it: [p for p in it]):
        parts = consume(split_circuit(c, pred))
        flat = [o for _, p in parts for o in p.operations]
        require(len(flat) == len(c.operations), "operations lost or duplicated")
        require(all(a is b or a == b for a, b in zip(flat, c.operations)), "operations reordered")
        i = 0
        for v, p in parts:
            require(p.n_qubits == c.n_qubits, "register of a part")
            require(len(p.operations) > 0, "empty part")
            for o in p.operations:
                require(v == values[i], "predicate value of a part")
                i += 1
        for (a, _), (b, _) in zip(parts, parts[1:]):
            require(a != b, "neighbouring parts have the same predicate value")
    require(repr(c) == text, "splitting changed the circuit")


# ------------------------------------------------------------ registers


@st.composite
def sizes(draw):
    n = draw(st.one_of(st.integers(-3, 6), st.sampled_from([1.5, 2.0, 3.0, -1.0, 2.25])))
    ops = draw(st.lists(gen.operations(4, max_gate=2), max_size=3))
    return {"n": n, "ops": ops}


@sub(sizes, quick=120, thorough=1500, rule="an explicit size is given", nt=lambda x: x["n"] not in (0, None))
def register_size(x):
    from zquantum.core.circuits import Circuit, to_dict

    ops = [gen.build_op(o) for o in x["ops"]]
    n = x["n"]
    if n < 0 or n != int(n):
        raises(ValueError, lambda: Circuit(ops, n_qubits=n), f"size {n}")
        return
    c = Circuit(iter(ops), n_qubits=n)
    want = int(n) if n else max([0] + [q + 1 for o in x["ops"] for q in o[1]])
    require(c.n_qubits == want, f"register {c.n_qubits}, expected {want}")
    d = Circuit(ops, n_qubits=n)
    require(c == d, "same circuits differ")
    require(c != Circuit(ops, n_qubits=want + 1), "circuits with different registers are equal")
    if len(ops) > 1 and ops[0] != ops[1]:
        require(c != Circuit([ops[1], ops[0], *ops[2:]], n_qubits=n), "reordered circuits are equal")
    require(c != Circuit(ops[:-1], n_qubits=want) if ops and want else True, "shorter circuit is equal")
    require(list(c.operations) == ops, "operations differ from those given")
    for size in (float(n), np.int64(n), np.float64(n)):
        e = Circuit(ops, n_qubits=size)
        require(e == c and repr(e) == repr(c) and type(e.n_qubits) is int, "a size given as another type of number", size, e)
        require(json.dumps(to_dict(e)) == json.dumps(to_dict(c)), "a size given as another type of number is written otherwise", size)
        if not c.free_symbols and want > max([0] + [q for o in x["ops"] for q in o[1]]):
            require(ref.close(np.array(e.to_unitary(), dtype=complex), np.array(c.to_unitary(), dtype=complex)), "a size given as another type of number: unitary", size)
    given = list(ops)
    d = Circuit(given, n_qubits=n)
    given.append(gen.build_op([{"g": "X", "p": []}, [0]]))
    given[:1] = []
    require(list(d.operations) == ops and d == c, "the circuit changed with the list it was made from")


@sub(
    lambda: st.fixed_dictionaries(
        {
            "sizes": st.lists(st.sampled_from([0, 1, 3, 12, 30, 64]), min_size=2, max_size=8),
            "n": st.sampled_from([2, 7, 12, 120]),
            "extra": st.lists(st.sampled_from([0, 0, 1, 15]), min_size=8, max_size=8),
            "seed": st.integers(0, 10**6),
            "assoc": st.booleans(),
        }
    ),
    quick=60,
    thorough=1500,
    shards=2,
    rule="thirty operations or more in all",
    nt=lambda x: sum(x["sizes"]) >= 30,
)
def long_building(x):
    """Sums of many long circuits on registers of different sizes, from either end, gate by gate, and split again."""
    import zquantum.core.circuits as zc

    all_ops, parts, size = [], [], 0
    for i, k in enumerate(x["sizes"]):
        n = max(2, x["n"] - i)
        ops = gen.big_ops(x["seed"] + i, n, k, shared=3)
        all_ops += ops
        n += x["extra"][i]
        size = max(size, n)
        parts.append(zc.Circuit([gen.build_op(o) for o in ops], n_qubits=n))
    if x["assoc"]:
        c = parts[0]
        for p in parts[1:]:
            c = c + p
    else:
        c = parts[-1]
        for p in parts[-2::-1]:
            c = p + c
    compare(c, all_ops, size, "sum of circuits")
    d = zc.Circuit(n_qubits=size)
    for o in c.operations:
        d = d + o
    compare(d, all_ops, size, "sum of operations")
    require(c == d, "the same circuit built in two ways is not equal")
    pieces = list(zc.split_circuit(c, lambda o: len(o.qubit_indices) % 2 == 1)) if hasattr(zc, "split_circuit") else []
    if not pieces:
        from zquantum.core.circuits._circuit import split_circuit

        pieces = list(split_circuit(c, lambda o: len(o.qubit_indices) % 2 == 1))
    back = []
    for i, (flag, p) in enumerate(pieces):
        require(p.n_qubits == size, "register of a piece")
        require(len(p.operations) > 0 and all((len(o.qubit_indices) % 2 == 1) == flag for o in p.operations), "a piece has another value of the predicate")
        require(i == 0 or pieces[i - 1][0] != flag, "neighbouring pieces have the same value")
        back += list(p.operations)
    require(back == list(c.operations), "pieces do not make up the circuit")
    big = zc.add_ancilla_register(c, 11)
    compare(big, all_ops + [[{"g": "I", "p": []}, [size + j]] for j in range(11)], size + 11, "ancilla register")
    layer = zc.create_layer_of_gates(size, zc.RY, np.arange(size).reshape(-1, 1) / 8)
    compare(layer, [[{"g": "RY", "p": [q / 8]}, [q]] for q in range(size)], size, "a wide layer")
