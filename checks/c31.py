"""C31: workflow steps write what the library functions compute."""
import copy
import itertools
import json
import os
import random
import sys
import types

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import excluded, label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated inputs in every accepted form (file, JSON text, object) given to each step in a scratch directory; outputs loaded and compared with the library functions or own values, inputs compared with what they were"
ASSUMPTIONS = [
    "backends are the library's simulators with fixed seeds; optimizers are the library's mock optimizer",
    "circuits of up to 3 qubits, operators on up to 4 qubits or modes, graphs of up to 12 nodes",
]
F31 = "F31-expectation-values-n-samples"
SIM = {"module_name": "zquantum.core.symbolic_simulator", "function_name": "SymbolicSimulator"}
EST = "zquantum.core.estimation"


def files():
    out = {}
    for f in os.listdir("."):
        with open(f, "rb") as s:
            out[f] = s.read()
    return out


def run(step, outputs, *args, **kwargs):
    """Runs a step; the files it writes are exactly `outputs`, inputs stay as they are."""
    before = files()
    lists = {k: list(v) for k, v in kwargs.items() if isinstance(v, list)}
    operators = {k: copy.deepcopy(v.terms) for k, v in kwargs.items() if hasattr(v, "terms") and isinstance(v.terms, dict)}
    step(*args, **kwargs)
    after = files()
    for f, data in before.items():
        require(f in after and (f in outputs or after[f] == data), "a step altered its input file", step.__name__, f)
    new = sorted(set(after) - set(before))
    require(set(new) <= set(outputs) and set(outputs) <= set(after), "a step wrote other files", step.__name__, new)
    for k, v in lists.items():
        require(len(kwargs[k]) == len(v) and all(a is b for a, b in zip(kwargs[k], v)), "a step changed a list it was given", step.__name__, k)
    for k, v in operators.items():
        require(kwargs[k].terms == v, "a step changed an operator it was given", step.__name__, k)


def same_circuits(a, b):
    """Equal circuits; floating-point numbers within symbolic parameters are saved to 15 digits (see F04)."""
    from zquantum.core.circuits import Circuit, circuit_from_dict, to_dict

    def same(o, p):
        return o == p or circuit_from_dict(to_dict(Circuit([o]))) == circuit_from_dict(to_dict(Circuit([p])))

    return len(a) == len(b) and all(x == y or (x.n_qubits == y.n_qubits and len(x.operations) == len(y.operations) and all(map(same, x.operations, y.operations))) for x, y in zip(a, b)) and all(x.n_qubits == y.n_qubits for x, y in zip(a, b))



seeds = st.one_of(st.integers(0, 10**6), st.sampled_from([0, 1]))

# --- circuits -----------------------------------------------------------------------------------------


@sub(
    st.fixed_dictionaries({
        "circuits": st.lists(gen.circuits(max_n=3, max_ops=4, symbolic="mixed"), max_size=3), "set": st.lists(gen.circuits(max_n=3, max_ops=3), max_size=3),
        "files": st.lists(st.booleans(), min_size=3, max_size=3), "form": st.sampled_from(["file", "object", "none"]), "ancilla": st.integers(0, 4),
    }),
    quick=70, thorough=700, rule="at least 3 circuits", nt=lambda d: len(d["circuits"]) + len(d["set"]) > 2,
)
def circuit_files(d):
    from steps import circuit as steps
    from zquantum.core import circuits as lib

    single = [gen.build_circuit(c) for c in d["circuits"]]
    group = [gen.build_circuit(c) for c in d["set"]]
    with scratch():
        forms = []
        for i, c in enumerate(single):
            lib.save_circuit(c, f"c{i}.json")
            forms.append(f"c{i}.json" if d["files"][i] else c)
        lib.save_circuitset(group, "set.json")
        if d["form"] == "none":
            group = []
            run(steps.batch_circuits, ["circuit-set.json"], forms)
        else:
            given = "set.json" if d["form"] == "file" else list(group)
            run(steps.batch_circuits, ["circuit-set.json"], circuits=forms, circuit_set=given)
        require(same_circuits(lib.load_circuitset("circuit-set.json"), group + single), "batched circuits differ or are in another order")
        group = [gen.build_circuit(c) for c in d["set"]]
        for given in ("set.json", list(group)):
            run(steps.concatenate_circuits, ["result-circuit.json"], circuit_set=given)
            got = lib.load_circuit("result-circuit.json")
            n = max([c.n_qubits for c in group], default=0)
            require(list(got.operations) == [o for c in group for o in c.operations] and got.n_qubits == n, "the concatenated circuit differs", got, n)
        for i, c in enumerate(single):
            for given in (f"c{i}.json", c):
                run(steps.add_ancilla_register_to_circuit, ["extended-circuit.json"], number_of_ancilla_qubits=d["ancilla"], circuit=given)
                got, want = lib.load_circuit("extended-circuit.json"), lib.add_ancilla_register(c, d["ancilla"])
                require(same_circuits([got], [want]) and got.n_qubits == c.n_qubits + d["ancilla"], "the circuit with ancilla qubits differs")


@sub(
    st.tuples(gen.circuits(max_n=3, max_ops=5, symbolic="only"), st.lists(st.integers(-40, 40), min_size=12, max_size=12), st.booleans(), st.integers(-1, 1)),
    quick=40, thorough=700, rule="at least 2 symbols", nt=lambda c: len(gen.circuit_symbols(c[0])) > 1,
)
def parametrized(case):
    from steps import circuit as steps
    from zquantum.core import circuits as lib
    from zquantum.core.serialization import save_array

    desc, values, as_file, extra = case
    circuit = gen.build_circuit(desc)
    names = [str(s) for s in circuit.free_symbols]
    values = [v / 8 for v in values[: len(names)]]
    with scratch():
        lib.save_circuit(circuit, "c.json")
        save_array(np.array(values), "p.json")
        run(steps.evaluate_parametrized_circuit, ["evaluated-circuit.json"], parametrized_circuit="c.json" if as_file else circuit, parameters="p.json" if not as_file or extra else np.array(values))
        got = lib.load_circuit("evaluated-circuit.json")
        want = circuit.bind({s: v for s, v in zip(circuit.free_symbols, values)})
        require(not got.free_symbols and got.n_qubits == circuit.n_qubits, "the evaluated circuit has free parameters", got.free_symbols)
        require(ref.close(gen.numeric(got.to_unitary()), gen.numeric(want.to_unitary()), 1e-7), "the evaluated circuit differs")
        require(ref.close(gen.numeric(got.to_unitary()), gen.ref_unitary(desc, {**{n: 0.5 for n in gen.circuit_symbols(desc)}, **dict(zip(names, values))}, got.n_qubits), 1e-7), "the evaluated circuit acts otherwise")
        if extra:
            raises(ValueError, lambda: steps.evaluate_parametrized_circuit("c.json", np.array(values + [0.5])), "another number of parameters is accepted")


@sub(
    st.fixed_dictionaries({"layers": st.integers(0, 5), "n": st.integers(1, 3), "seed": st.one_of(st.none(), seeds), "low": st.integers(-8, 8), "width": st.integers(0, 12), "text": st.booleans(), "params": st.sampled_from(["file", "list", "array", None]), "second": st.integers(0, 5), "gates": st.integers(0, 12), "defaults": st.booleans()}),
    quick=80, thorough=800, rule="a random seed and an ansatz with layers", nt=lambda d: d["layers"] and d["seed"] is not None,
)
def ansatz_steps(d):
    from steps import circuit as steps
    from zquantum.core import circuits as lib
    from zquantum.core.interfaces.mock_objects import MockAnsatz
    from zquantum.core.serialization import load_array, save_array

    specs = {"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": d["layers"], "problem_size": d["n"]}
    keep = dict(specs)
    given = json.dumps(specs) if d["text"] else specs
    low, high = d["low"] / 4, (d["low"] + d["width"]) / 4
    limits = {} if d["defaults"] else {"min_value": low, "max_value": high}
    if d["defaults"]:
        low, high = -np.pi / 2, np.pi / 2
    with scratch():
        run(steps.generate_random_ansatz_params, ["params.json"], ansatz_specs=given, seed=d["seed"], **limits)
        params = load_array("params.json")
        require(params.shape == (d["layers"],) and np.all(params >= low) and np.all(params <= high), "random parameters outside their limits or of another number", params)
        if d["seed"] is not None:
            run(steps.generate_random_ansatz_params, ["params.json"], number_of_parameters=d["layers"], seed=d["seed"], **limits)
            require(np.array_equal(load_array("params.json"), params), "the same seed gives other parameters")
            np.random.seed(d["seed"])
            require(np.array_equal(np.random.uniform(low, high, d["layers"]), params), "the parameters are not the seeded uniform ones")
        raises(AssertionError, lambda: steps.generate_random_ansatz_params(), "neither an ansatz nor a number of parameters is accepted")
        raises(AssertionError, lambda: steps.generate_random_ansatz_params(given, 3), "both an ansatz and a number of parameters are accepted")
        more = np.arange(d["second"]) / 8 + 0.5
        save_array(more, "more.json")
        run(steps.combine_ansatz_params, ["combined-params.json"], "params.json", "more.json")
        require(np.array_equal(load_array("combined-params.json"), np.concatenate([params, more])), "combined parameters differ")
        ansatz = MockAnsatz(d["layers"], d["n"])
        if d["params"] is None:
            run(steps.build_ansatz_circuit, ["circuit.json"], ansatz_specs=given)
            want = ansatz.parametrized_circuit
        else:
            form = {"file": "params.json", "list": params.tolist(), "array": params}[d["params"]]
            run(steps.build_ansatz_circuit, ["circuit.json"], ansatz_specs=given, params=form)
            want = ansatz.get_executable_circuit(params)
        require(same_circuits([lib.load_circuit("circuit.json")], [want]), "the circuit of the ansatz differs")
        require(specs == keep, "the step changed the specification it was given", specs)
        if d["gates"] and d["seed"] is not None:
            run(steps.create_random_circuit, ["circuit.json"], d["n"] + 1, d["gates"], seed=d["seed"])
            want = lib.create_random_circuit(d["n"] + 1, d["gates"], rng=np.random.default_rng(d["seed"]))
            got = lib.load_circuit("circuit.json")
            require(same_circuits([got], [want]) and len(got.operations) == d["gates"], "the random circuit differs")


@sub(
    st.fixed_dictionaries({"x": st.integers(1, 6), "y": st.one_of(st.none(), st.integers(1, 5)), "kind": st.sampled_from(["nearest-neighbor", "sycamore", None, "other"]), "ints": st.fixed_dictionaries({"low": st.integers(-9, 9), "high": st.one_of(st.none(), st.integers(10, 30)), "size": st.one_of(st.none(), st.integers(0, 8), st.integers(9, 70)), "endpoint": st.booleans()}), "seed": st.one_of(st.none(), seeds)}),
    quick=80, thorough=600, rule="a two-dimensional layout", nt=lambda d: d["y"],
)
def layouts_and_lists(d):
    from steps import circuit as steps
    from steps.utils import generate_random_list_of_integers
    from zquantum.core.circuits import layouts
    from zquantum.core.utils import load_list

    kwargs = {"x_dimension": d["x"]}
    if d["y"] is not None:
        kwargs["y_dimension"] = d["y"]
    if d["kind"]:
        kwargs["layer_type"] = d["kind"]
    with scratch():
        try:
            connectivity, layers = layouts.build_circuit_layers_and_connectivity(*[kwargs.get(k, v) for k, v in (("x_dimension", 0), ("y_dimension", None), ("layer_type", "nearest-neighbor"))])
        except Exception as e:
            label("rejected")
            raises(type(e), lambda: steps.build_circuit_layers_and_connectivity(**kwargs), "the step accepts what the library rejects")
        else:
            run(steps.build_circuit_layers_and_connectivity, ["circuit-layers.json", "circuit-connectivity.json"], **kwargs)
            pairs = lambda x: [tuple(e) for e in x]
            require([pairs(l) for l in layouts.load_circuit_layers("circuit-layers.json").layers] == [pairs(l) for l in layers.layers], "other layers")
            require(pairs(layouts.load_circuit_connectivity("circuit-connectivity.json").connectivity) == pairs(connectivity.connectivity), "another connectivity")
        ints = {k: v for k, v in d["ints"].items() if v is not None}
        if "high" not in ints and ints["low"] <= 0:
            return
        if ints.get("size") is None:
            ints["size"] = 3
        run(generate_random_list_of_integers, ["integers.json"], seed=d["seed"], **ints)
        got = load_list("integers.json")
        lo, hi = (ints["low"], ints["high"]) if "high" in ints else (0, ints["low"])
        require(len(got) == ints["size"] and all(isinstance(x, int) and lo <= x < hi + ints["endpoint"] for x in got), "integers outside their limits", got)
        if d["seed"] is not None:
            require(got == np.random.default_rng(d["seed"]).integers(**ints).tolist(), "other random integers", got)


# --- operators ----------------------------------------------------------------------------------------


def interaction(n, seed, hermitian=True, complex_=False):
    from zquantum.core.openfermion import InteractionOperator

    r = np.random.RandomState(seed)
    one, two = np.round(r.uniform(-1, 1, (n,) * 2), 3), np.round(r.uniform(-1, 1, (n,) * 4), 3)
    if seed % 3 == 0:
        one[np.abs(one) < 0.5] = 0
        two[np.abs(two) < 0.8] = 0
    if complex_:
        one, two = one + 1j * np.round(r.uniform(-1, 1, (n,) * 2), 3), two + 1j * np.round(r.uniform(-1, 1, (n,) * 4), 3)
    if hermitian:
        one, two = one + one.conj().T, two + two.conj().transpose(3, 2, 1, 0)
    return InteractionOperator(round(r.uniform(-1, 1), 3), one, two)


def same_interaction(a, b, tol=1e-9):
    return abs(a.constant - b.constant) < tol and a.one_body_tensor.shape == b.one_body_tensor.shape and np.allclose(a.one_body_tensor, b.one_body_tensor, atol=tol) and np.allclose(a.two_body_tensor, b.two_body_tensor, atol=tol)


@sub(
    st.fixed_dictionaries({"a": ops.operators("qubit", n=3, max_terms=4), "b": ops.operators("qubit", n=3, max_terms=4), "eps": st.integers(-1, 9).map(lambda k: k / 8), "forms": st.lists(st.booleans(), min_size=2, max_size=2), "n": st.one_of(st.integers(1, 5), st.integers(6, 80)), "default": st.booleans(), "xyzc": st.lists(st.integers(-12, 12).map(lambda k: k / 4), min_size=4, max_size=4)}),
    quick=80, thorough=800, rule="two operators with terms", nt=lambda d: d["a"]["terms"] and d["b"]["terms"],
)
def operator_steps(d):
    from steps import operators as steps
    from zquantum.core.openfermion import load_qubit_operator, save_qubit_operator

    a, b = ops.build(d["a"]), ops.build(d["b"])
    n = max(3, ops.width(d["a"]), ops.width(d["b"]))
    with scratch():
        save_qubit_operator(a, "a.json")
        save_qubit_operator(b, "b.json")
        given = ["a.json" if d["forms"][0] else a, "b.json" if d["forms"][1] else b]
        eps = 0.5 if d["default"] else d["eps"]
        kwargs = {} if d["default"] else {"epsilon": eps}
        if not 0 <= eps <= 1:
            raises(ValueError, lambda: steps.interpolate_qubit_operators(*given, **kwargs), "an interpolation parameter outside [0, 1] is accepted")
        else:
            run(steps.interpolate_qubit_operators, ["qubit-operator.json"], reference_qubit_operator=given[0], target_qubit_operator=given[1], **kwargs)
            got = load_qubit_operator("qubit-operator.json")
            want = eps * ops.matrix(d["b"], n) + (1 - eps) * ops.matrix(d["a"], n)
            require(np.allclose(ops.obj_matrix(got, n), want, atol=1e-7), "the interpolated operator differs")
        run(steps.get_local_zero_state_operator, ["qubit-operator.json"], d["n"])
        got = load_qubit_operator("qubit-operator.json")
        if d["n"] < 6:
            diag = [1 - sum(1 - 2 * x for x in ref.bits(i, d["n"])) / d["n"] for i in range(2 ** d["n"])]
            require(np.allclose(ops.obj_matrix(got, d["n"], "qubit"), np.diag(diag), atol=1e-9), "the local zero state operator differs")
        want = {(): 1.0, **{((q, "Z"),): -1 / d["n"] for q in range(d["n"])}}
        require(set(got.terms) == set(want) and all(abs(complex(got.terms[t]) - c) < 1e-12 for t, c in want.items()), "other terms of the local zero state operator", d["n"], len(got.terms))
        run(steps.create_one_qubit_operator, ["qubit_operator.json"], *d["xyzc"])
        x, y, z, c = d["xyzc"]
        got = load_qubit_operator("qubit_operator.json")
        require(np.allclose(ops.obj_matrix(got, 1), [[c + z, x - 1j * y], [x + 1j * y, c - z]], atol=1e-9), "the one-qubit operator differs")
        np.random.seed(d["n"])
        random.seed(d["n"])
        run(steps.create_random_qubitop, ["qubit-operator.json"], d["n"], 3)
        got = load_qubit_operator("qubit-operator.json")
        require(len(got.terms) <= 3 and all(q < d["n"] for t in got.terms for q, _ in t), "a random operator of another size", got)


@sub(
    st.fixed_dictionaries({"op": ops.operators("qubit", n=3, max_terms=5), "a": st.lists(ops.operators("qubit", n=3, max_terms=3), max_size=3), "b": st.lists(ops.operators("qubit", n=3, max_terms=3), max_size=3), "forms": st.lists(st.booleans(), min_size=3, max_size=3), "sort": st.booleans()}),
    quick=60, thorough=600, rule="lists of operators", nt=lambda d: len(d["a"]) + len(d["b"]) > 1,
)
def operator_lists(d):
    from steps import operators as steps
    from zquantum.core.hamiltonian import group_comeasureable_terms_greedy
    from zquantum.core.openfermion import load_qubit_operator_set, save_qubit_operator, save_qubit_operator_set

    a, b = [ops.build(o) for o in d["a"]], [ops.build(o) for o in d["b"]]
    op = ops.build(d["op"])
    same = lambda x, y: len(x) == len(y) and all(p == q for p, q in zip(x, y))
    with scratch():
        save_qubit_operator_set(a, "a.json")
        save_qubit_operator_set(b, "b.json")
        save_qubit_operator(op, "op.json")
        f = d["forms"]
        run(steps.concatenate_qubit_operator_lists, ["concatenated-qubit-operators.json"], qubit_operator_list_A="a.json" if f[0] else a, qubit_operator_list_B="b.json" if f[1] else b)
        require(same(load_qubit_operator_set("concatenated-qubit-operators.json"), a + b), "concatenated operators differ or are in another order")
        run(steps.group_comeasureable_terms_greedy, ["grouped-operator.json"], qubit_operator="op.json" if f[2] else op, sort_terms=d["sort"])
        got = load_qubit_operator_set("grouped-operator.json")
        require(same(got, group_comeasureable_terms_greedy(op, d["sort"])), "other groups of terms")


@sub(
    st.fixed_dictionaries({"n": st.sampled_from([2, 4, 4]), "complex": st.booleans(), "seed": seeds, "form": st.booleans(), "order": st.permutations([0, 1, 2, 3]), "core": st.integers(0, 2), "active": st.one_of(st.none(), st.integers(1, 2)), "particles": st.one_of(st.none(), st.integers(0, 3)), "transformation": st.sampled_from(["Jordan-Wigner", "Bravyi-Kitaev", "other"]), "explicit": st.booleans()}),
    quick=60, thorough=600, rule="4 modes", nt=lambda d: d["n"] == 4,
)
def interaction_steps(d):
    from steps import operators as steps
    from steps.transforms import transform_interaction_operator
    from zquantum.core import hamiltonian
    from zquantum.core import openfermion as of

    n = d["n"]
    op = interaction(n, d["seed"], complex_=d["complex"])
    label("complex" if d["complex"] else "real")
    if d["order"]:
        order = [p for p in d["order"] if p < n]
    with scratch():
        of.save_interaction_operator(op, "i.json")
        given = "i.json" if d["form"] else op
        load = of.load_interaction_operator
        run(steps.get_fermion_number_operator, ["number-operator.json"], n, d["particles"])
        require(same_interaction(load("number-operator.json"), of.get_fermion_number_operator(n, d["particles"])), "another number operator")
        run(steps.get_diagonal_component, ["diagonal-operator.json", "remainder-operator.json"], interaction_operator=given)
        diag, rest = of.get_diagonal_component(op)
        require(same_interaction(load("diagonal-operator.json"), diag) and same_interaction(load("remainder-operator.json"), rest), "another diagonal component")
        run(steps.reorder_fermionic_modes, ["reordered-operator.json"], "i.json", ordering=list(order))
        require(same_interaction(load("reordered-operator.json"), hamiltonian.reorder_fermionic_modes(op, order)), "another reordered operator")
        core, active = min(d["core"], n // 2 - 1), d["active"]
        if active is not None:
            active = min(active, n // 2 - core)
        kwargs = {k: v for k, v in (("n_active", active), ("n_core", core)) if v or d["explicit"]}
        run(steps.remove_inactive_orbitals, ["frozen-operator.json"], "i.json", **kwargs)
        require(same_interaction(load("frozen-operator.json"), of.remove_inactive_orbitals(op, active, core)), "another operator without inactive orbitals")
        if d["transformation"] == "other":
            raises(RuntimeError, lambda: transform_interaction_operator("other", given), "an unknown transformation is accepted")
        else:
            # also with coefficients of very different sizes
            small = of.InteractionOperator(op.constant, op.one_body_tensor * 10.0 ** -(d["seed"] % 5), op.two_body_tensor * 10.0 ** -(d["seed"] // 5 % 5))
            of.save_interaction_operator(small, "small.json")
            run(transform_interaction_operator, ["transformed-operator.json", "timing.json"], transformation=d["transformation"], input_operator="small.json" if d["form"] else small)
            want = of.jordan_wigner(small) if d["transformation"] == "Jordan-Wigner" else of.bravyi_kitaev(of.get_fermion_operator(small))
            got = of.load_qubit_operator("transformed-operator.json")
            require(np.allclose(ops.obj_matrix(got, n), ops.obj_matrix(want, n), atol=1e-7), "another transformed operator")
            with open("timing.json") as f:
                require(json.load(f)["walltime"] >= 0, "negative time")
        if n == 4:
            run(steps.get_one_qubit_hydrogen_hamiltonian, ["qubit-operator.json"], interaction_operator=given)
            got = of.load_qubit_operator("qubit-operator.json")
            h = op.constant * np.eye(16, dtype=complex)
            for p, q in itertools.product(range(4), repeat=2):
                h += op.one_body_tensor[p, q] * ref.fermion_term_matrix(((p, 1), (q, 0)), 4)
            for p, q, r, s in itertools.product(range(4), repeat=4):
                if op.two_body_tensor[p, q, r, s]:
                    h += op.two_body_tensor[p, q, r, s] * ref.fermion_term_matrix(((p, 1), (q, 1), (r, 0), (s, 0)), 4)
            vac = np.zeros(16)
            vac[0] = 1
            # |00> -> a†1 a†0 |vac>, |1> -> a†3 a†2 |vac>
            states = [ref.fermion_term_matrix(t, 4) @ vac for t in (((1, 1), (0, 1)), ((3, 1), (2, 1)))]
            want = np.array([[a.conj() @ h @ b for b in states] for a in states])
            require(np.allclose(ops.obj_matrix(got, 1), want, atol=1e-7), "the one-qubit hydrogen Hamiltonian differs", want)


# --- measurements ---------------------------------------------------------------------------------------


@st.composite
def backends(draw):
    specs = dict(SIM)
    specs["seed"] = draw(seeds)
    track = draw(st.sampled_from([None, None, False, True]))
    if track is not None:
        specs["track_measurements"] = track
        if draw(st.booleans()):
            specs["raw_data_file_name"] = "tracked.json"
        if draw(st.booleans()):
            specs["record_bitstrings"] = draw(st.booleans())
    return {"specs": specs, "text": draw(st.booleans()), "connectivity": draw(st.booleans()), "noise": draw(st.booleans())}


def backend_args(b):
    """Keyword arguments describing the backend, and the file with tracked data if there is one."""
    from zquantum.core.circuits import layouts
    from zquantum.core.utils import save_noise_model

    out = {"backend_specs": json.dumps(b["specs"]) if b["text"] else dict(b["specs"])}
    if b["connectivity"]:
        layouts.save_circuit_connectivity(layouts.CircuitConnectivity([(0, 1), (1, 2)]), "conn.json")
        out["device_connectivity"] = "conn.json"
    if b["noise"]:
        save_noise_model({"p": 0.1}, "copy", "copy", "noise.json")
        out["noise_model"] = "noise.json"
    s = b["specs"]
    return out, s.get("raw_data_file_name", "raw_data.json") if s.get("track_measurements") else None


def tracked_ok(name, b, calls):
    with open(name) as f:
        data = json.load(f)["raw-data"]
    require(len(data) == calls, "another number of tracked measurements", len(data), calls)
    for entry in data:
        require(("bitstrings" in entry) == bool(b["specs"].get("record_bitstrings")), "bitstrings are recorded although not asked for, or the other way round", sorted(entry))


@sub(
    st.fixed_dictionaries({"circuits": st.lists(gen.circuits(max_n=3, max_ops=5), min_size=1, max_size=3), "backend": backends(), "shots": st.integers(1, 40), "dict": st.booleans()}),
    quick=40, thorough=600, rule="at least 2 circuits", nt=lambda d: len(d["circuits"]) > 1,
)
def measuring(d):
    from steps import measure as steps
    from zquantum.core import circuits as lib
    from zquantum.core.distribution import load_measurement_outcome_distribution
    from zquantum.core.measurement import Measurements
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.utils import load_list

    circuits = [gen.build_circuit(c) for c in d["circuits"]]
    circuits = [c if c.n_qubits else lib.Circuit([lib.I(0)]) for c in circuits]
    simulator = lambda: SymbolicSimulator(seed=d["backend"]["specs"]["seed"])
    tuples = lambda l: [tuple(x) for x in l]
    with scratch():
        args, tracked = backend_args(d["backend"])
        lib.save_circuit(circuits[0], "c.json")
        lib.save_circuitset(circuits, "set.json")
        outputs = ["measurements.json"] + ([tracked] if tracked else [])
        if tracked:
            label("tracked")
        run(steps.run_circuit_and_measure, outputs, circuit=lib.to_dict(circuits[0]) if d["dict"] else "c.json", n_samples=d["shots"], **copy.deepcopy(args))
        want = simulator().run_circuit_and_measure(circuits[0], d["shots"])
        require(tuples(Measurements.load_from_file("measurements.json").bitstrings) == tuples(want.bitstrings), "other measurements")
        if tracked:
            tracked_ok(tracked, d["backend"], 1)
        outputs[0] = "measurements-set.json"
        run(steps.run_circuitset_and_measure, outputs, circuitset="set.json", n_samples=d["shots"], **copy.deepcopy(args))
        sim = simulator()
        want = [sim.run_circuit_and_measure(c, d["shots"]).bitstrings for c in circuits]
        require([tuples(m) for m in load_list("measurements-set.json")] == [tuples(m) for m in want], "other sets of measurements")
        if tracked:
            tracked_ok(tracked, d["backend"], len(circuits))
        else:
            run(steps.get_bitstring_distribution, ["bitstring-distribution.json"], circuit="c.json", **copy.deepcopy(args))
            got = load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict
            n = circuits[0].n_qubits
            amp = gen.ref_unitary(d["circuits"][0], None, n)[:, 0] if gen.circuit_n(d["circuits"][0]) else np.array([1, 0])
            for i, a in enumerate(amp):
                p = got.get(ref.bits(i, n), 0.0)
                require(abs(p - abs(a) ** 2) < 1e-6, "another probability", ref.bits(i, n), p)
            # unlikely outcomes are kept
            angle = 10.0 ** -(1 + d["shots"] % 4)
            lib.save_circuit(lib.Circuit([lib.RX(2 * angle)(q) for q in range(2)]), "rare.json")
            run(steps.get_bitstring_distribution, ["bitstring-distribution.json"], circuit="rare.json", **copy.deepcopy(args))
            got = load_measurement_outcome_distribution("bitstring-distribution.json").distribution_dict
            for bits in itertools.product((0, 1), repeat=2):
                p = np.prod([np.sin(angle) ** 2 if b else np.cos(angle) ** 2 for b in bits])
                require(abs(got.get(bits, 0.0) - p) < 1e-4 * p + 1e-14, "another probability of an unlikely outcome", bits, got.get(bits), p)


@st.composite
def ansatz_problems(draw):
    n = draw(st.integers(1, 3))
    layers = draw(st.integers(1, 3))
    op = draw(ops.operators("qubit", n=n, max_terms=4, min_terms=1, real=True))
    return {
        "n": n, "layers": layers, "op": op, "values": [k / 8 for k in draw(st.lists(st.integers(-30, 30), min_size=layers, max_size=layers))],
        "method": draw(st.sampled_from(["exact", "averaging", "default"])), "shots": draw(st.integers(1, 60)), "text": draw(st.booleans()),
        "op_file": draw(st.booleans()), "backend": draw(backends()), "prior": draw(st.booleans()), "fixed": draw(st.integers(0, layers)),
        "precision": draw(st.sampled_from([None, None, 0.01])), "history": draw(st.sampled_from([None, True, False])), "list": draw(st.sampled_from(["file", "list", "array"])), "seed": draw(seeds),
    }


def estimation(d, prior):
    """Specifications of the estimation, and the objects they stand for."""
    from functools import partial

    from zquantum.core import estimation as est

    if d["method"] == "exact":
        return {"estimation_method_specs": {"module_name": EST, "function_name": "calculate_exact_expectation_values"}}, est.calculate_exact_expectation_values, []
    specs = [{"module_name": EST, "function_name": "group_individually"}, {"module_name": EST, "function_name": "perform_context_selection"}]
    if prior:
        specs.append({"module_name": EST, "function_name": "allocate_shots_proportionally", "total_n_shots": 50 * d["shots"]})
        last = partial(est.allocate_shots_proportionally, total_n_shots=50 * d["shots"])
    else:
        specs.append({"module_name": EST, "function_name": "allocate_shots_uniformly", "number_of_shots": d["shots"]})
        last = partial(est.allocate_shots_uniformly, number_of_shots=d["shots"])
    out = {"estimation_preprocessors_specs": specs}
    if d["method"] == "averaging":
        out["estimation_method_specs"] = {"module_name": EST, "function_name": "estimate_expectation_values_by_averaging"}
    return out, est.estimate_expectation_values_by_averaging, [est.group_individually, est.perform_context_selection, last]


def texts(specs, text):
    if not text:
        return copy.deepcopy(specs)
    return {k: [json.dumps(x) for x in v] if isinstance(v, list) else json.dumps(v) for k, v in specs.items()}


def is_real(op):
    """Products of factors on the same qubit may come out with imaginary coefficients."""
    return all(complex(c).imag == 0 for c in op.terms.values())


def pure_exact(d):
    """Exact estimation needs a simulator, which the tracking backend is not."""
    return not (d["method"] == "exact" and d["backend"]["specs"].get("track_measurements"))


@sub(ansatz_problems(), quick=50, thorough=500, rule="two terms or more", nt=lambda d: len(d["op"]["terms"]) > 1)
def cost_function_step(d):
    from functools import partial

    from steps import measure as steps
    from zquantum.core.cost_function import AnsatzBasedCostFunction
    from zquantum.core.interfaces.mock_objects import MockAnsatz
    from zquantum.core.measurement import ExpectationValues, save_expectation_values
    from zquantum.core.openfermion import save_qubit_operator
    from zquantum.core.serialization import save_array
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.utils import load_value_estimate

    op = ops.build(d["op"])
    if not pure_exact(d) or not op.terms or not is_real(op):
        return
    prior = d["prior"] and d["method"] != "exact" and sum(abs(complex(c)) for t, c in op.terms.items() if t) > 0.1
    specs, method, preprocessors = estimation(d, prior)
    with scratch():
        args, tracked = backend_args(d["backend"])
        save_array(np.array(d["values"]), "params.json")
        save_qubit_operator(op, "op.json")
        given = texts(specs, d["text"])
        values = None
        if prior:
            label("prior expectation values")
            values = ExpectationValues(np.array([0.25 + 0.5 * (i % 2) for i in range(len(op.terms))]))
            save_expectation_values(values, "prior.json")
            given["prior_expectation_values"] = "prior.json"
            preprocessors[-1] = partial(preprocessors[-1], prior_expectation_values=values)
        ansatz = {"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": d["layers"], "problem_size": d["n"]}
        cost = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
        # reading the operator from a file may order its terms otherwise
        from zquantum.core.openfermion import load_qubit_operator

        operator = load_qubit_operator("op.json") if d["op_file"] else op
        run(
            steps.evaluate_ansatz_based_cost_function, ["value_estimate.json"] + ([tracked] if tracked_written(d, operator, tracked) else []),
            ansatz_specs=json.dumps(ansatz) if d["text"] else ansatz, cost_function_specs=json.dumps(cost) if d["text"] else cost, ansatz_parameters="params.json",
            target_operator="op.json" if d["op_file"] else op, **given, **args,
        )
        want = AnsatzBasedCostFunction(operator, MockAnsatz(d["layers"], d["n"]), SymbolicSimulator(seed=d["backend"]["specs"]["seed"]), estimation_method=method, estimation_preprocessors=preprocessors)(np.array(d["values"]))
        got = load_value_estimate("value_estimate.json")
        require(abs(complex(got) - complex(want)) < 1e-9, "another value of the cost function", got, want)
        if d["method"] == "exact":
            state = gen_state(d)
            require(abs(complex(got) - state.conj() @ ops.obj_matrix(op, d["n"]) @ state) < 1e-6, "not the energy of the state", got)
        for key in ("estimator-specs", "estimation-tasks-transformations-specs"):
            raises(RuntimeError, lambda: steps.evaluate_ansatz_based_cost_function(ansatz, SIM, {**cost, key: {}}, "params.json", op), "estimation specifications within the ones of the cost function are accepted")


def tracked_written(d, operator, tracked):
    """Whether anything is measured, so that the tracking backend writes its file."""
    return tracked is not None and any(t for t in operator.terms)


def gen_state(d):
    total = sum(d["values"])
    one = np.array([np.cos(total / 2), -1j * np.sin(total / 2)])
    out = np.array([1.0])
    for _ in range(d["n"]):
        out = np.kron(out, one)
    return out


@sub(ansatz_problems(), quick=60, thorough=500, rule="two parameters or more", nt=lambda d: d["layers"] > 1)
def optimizing(d):
    from steps import optimize as steps
    from zquantum.core.circuits import save_circuit
    from zquantum.core.cost_function import AnsatzBasedCostFunction, get_ground_state_cost_function
    from zquantum.core.interfaces.mock_objects import MockAnsatz, MockOptimizer
    from zquantum.core.openfermion import load_qubit_operator, save_qubit_operator
    from zquantum.core.serialization import load_array, load_optimization_results, save_array
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    op = ops.build(d["op"])
    if not pure_exact(d) or not op.terms or not is_real(op):
        return
    specs, method, preprocessors = estimation(d, False)
    fixed, free = d["values"][: d["fixed"]], d["values"][d["fixed"]:]
    with scratch():
        args, tracked = backend_args({**d["backend"], "noise": False, "connectivity": False})
        save_array(np.array(free), "params.json")
        save_array(np.array(fixed), "fixed.json")
        save_qubit_operator(op, "op.json")
        ansatz = {"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockAnsatz", "number_of_layers": d["layers"], "problem_size": d["n"]}
        optimizer = {"module_name": "zquantum.core.interfaces.mock_objects", "function_name": "MockOptimizer"}
        circuit = MockAnsatz(d["layers"], d["n"]).parametrized_circuit
        save_circuit(circuit, "circuit.json")
        operator = load_qubit_operator("op.json") if d["op_file"] else op
        common = texts(specs, d["text"])
        common.update(args)
        common["target_operator"] = "op.json" if d["op_file"] else op
        common["initial_parameters"] = {"file": "params.json", "list": list(free), "array": np.array(free)}[d["list"]]
        if d["fixed"]:
            common["fixed_parameters"] = "fixed.json" if d["list"] == "file" else np.array(fixed)
        noise = {}
        if d["precision"]:
            noise = {"parameter_precision": d["precision"], "parameter_precision_seed": d["seed"]}
        common.update(noise)
        if d["history"] is not None:
            common["keep_history"] = d["history"]
        common["optimizer_specs"] = json.dumps(optimizer) if d["text"] else optimizer
        outputs = ["optimization-results.json", "optimized-parameters.json"] + ([tracked] if tracked_written(d, operator, tracked) else [])
        library = dict(estimation_method=method, estimation_preprocessors=preprocessors, fixed_parameters=np.array(fixed) if d["fixed"] else None, **noise)
        backend = lambda: SymbolicSimulator(seed=d["backend"]["specs"]["seed"])
        for which in ("circuit", "ansatz"):
            random.seed(d["seed"])
            if which == "circuit":
                run(steps.optimize_parametrized_circuit_for_ground_state_of_operator, outputs, parametrized_circuit="circuit.json" if d["op_file"] else circuit, **copy.deepcopy(common))
                cost = get_ground_state_cost_function(operator, circuit, backend(), **library)
                history = d["history"] is not False
            else:
                run(steps.optimize_ansatz_based_cost_function, outputs, ansatz_specs=json.dumps(ansatz) if d["text"] else ansatz, **copy.deepcopy(common))
                cost = AnsatzBasedCostFunction(operator, MockAnsatz(d["layers"], d["n"]), backend(), **library)
                history = bool(d["history"])
            random.seed(d["seed"])
            want = MockOptimizer().minimize(cost, np.array(free), history)
            got = load_optimization_results("optimization-results.json")
            require(np.allclose(got.opt_params, want.opt_params, atol=1e-12, rtol=0) and abs(complex(got.opt_value) - complex(want.opt_value)) < 1e-9, "another result of the optimization", which, got.opt_value, want.opt_value)
            require(np.array_equal(load_array("optimized-parameters.json"), got.opt_params), "other optimized parameters", which)
            require((got.nit, got.nfev) == (want.nit, want.nfev) and len(got.history) == len(want.history) == (1 if history else 0), "another history", which, len(got.history))
            if history:
                require(np.allclose(got.history[0].params, want.opt_params) and abs(complex(got.history[0].value) - complex(want.opt_value)) < 1e-9, "another entry of the history", which)
            if d["method"] == "exact" and not d["precision"]:
                state = gen_state({**d, "values": fixed + list(got.opt_params)})
                require(abs(complex(got.opt_value) - state.conj() @ ops.obj_matrix(op, d["n"]) @ state) < 1e-6, "not the energy of the state", which, got.opt_value)


class Wires:
    """Module whose functions record what the steps hand to them."""

    def __init__(self):
        self.log = []

    def module(self):
        from zquantum.core import estimation as est
        from zquantum.core.interfaces.mock_objects import MockAnsatz, MockOptimizer
        from zquantum.core.symbolic_simulator import SymbolicSimulator

        out = types.ModuleType("c31_wires")

        log = self.log

        class Backend(SymbolicSimulator):
            def __init__(self, tag, noise_model=None, device_connectivity=None):
                log.append(("backend", tag, noise_model, None if device_connectivity is None else [tuple(p) for p in device_connectivity.connectivity]))
                super().__init__(seed=7)

        def preprocessor(estimation_tasks, tag, prior_expectation_values=None):
            log.append(("preprocessor", tag, None if prior_expectation_values is None else np.array(prior_expectation_values.values).tolist()))
            return estimation_tasks

        def method(backend, estimation_tasks, tag):
            log.append(("method", tag))
            return est.calculate_exact_expectation_values(backend, estimation_tasks)

        class Optimizer(MockOptimizer):
            def __init__(self, tag):
                log.append(("optimizer", tag))
                super().__init__()

        class Ansatz(MockAnsatz):
            def __init__(self, cost_hamiltonian=None, thetas=None):
                log.append(("ansatz", None if cost_hamiltonian is None else str(cost_hamiltonian), None if thetas is None else np.array(thetas).tolist()))
                super().__init__(1, 2)

        out.Backend, out.preprocessor, out.method, out.Optimizer = Backend, preprocessor, method, Optimizer
        out.PlainAnsatz = out.QAOAFarhiAnsatz = out.XQAOAAnsatz = out.WarmStartQAOAAnsatz = Ansatz
        return out


@sub(
    st.fixed_dictionaries({
        "step": st.sampled_from(["circuit", "set", "distribution", "cost", "optimize ansatz", "optimize circuit"]), "noise": st.booleans(), "connectivity": st.booleans(), "text": st.booleans(),
        "tags": st.lists(st.integers(0, 9), max_size=4), "prior": st.booleans(), "method": st.booleans(), "ansatz": st.sampled_from(["PlainAnsatz", "QAOAFarhiAnsatz", "XQAOAAnsatz", "WarmStartQAOAAnsatz"]),
        "thetas": st.lists(st.integers(-9, 9).map(lambda k: k / 8), max_size=4), "coef": st.integers(1, 9), "op_file": st.booleans(), "pairs": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), max_size=3),
    }),
    quick=120, thorough=1200, rule="both noise and connectivity, or two preprocessors or more", nt=lambda d: (d["noise"] and d["connectivity"]) or len(d["tags"]) > 1,
)
def wiring(d):
    from steps import measure, optimize
    from zquantum.core import circuits as lib
    from zquantum.core.circuits import layouts
    from zquantum.core.interfaces.mock_objects import MockAnsatz
    from zquantum.core.measurement import ExpectationValues, save_expectation_values
    from zquantum.core.openfermion import QubitOperator, load_qubit_operator, save_qubit_operator
    from zquantum.core.serialization import save_array
    from zquantum.core.utils import save_list, save_noise_model

    wires = Wires()
    sys.modules["c31_wires"] = wires.module()
    spec = lambda name, **more: {"module_name": "c31_wires", "function_name": name, **more}
    given = lambda x: json.dumps(x) if d["text"] else x
    label(d["step"])
    try:
        with scratch():
            args = {"backend_specs": given(spec("Backend", tag=3))}
            measures = not d["step"].startswith("optimize")
            noise, pairs = {"p": 0.25, "q": [1, 2]}, [tuple(p) for p in d["pairs"]]
            if measures and d["noise"]:
                save_noise_model(noise, "copy", "copy", "noise.json")
                args["noise_model"] = "noise.json"
            if measures and d["connectivity"]:
                layouts.save_circuit_connectivity(layouts.CircuitConnectivity(pairs), "conn.json")
                args["device_connectivity"] = "conn.json"
            backend = ("backend", 3, noise if "noise_model" in args else None, pairs if "device_connectivity" in args else None)
            lib.save_circuit(lib.Circuit([lib.H(0), lib.CNOT(0, 1)]), "c.json")
            lib.save_circuitset([lib.Circuit([lib.H(0)]), lib.Circuit([lib.X(0)])], "set.json")
            if d["step"] == "circuit":
                run(measure.run_circuit_and_measure, ["measurements.json"], circuit="c.json", n_samples=3, **args)
                want = [backend]
            elif d["step"] == "set":
                run(measure.run_circuitset_and_measure, ["measurements-set.json"], circuitset="set.json", n_samples=3, **args)
                want = [backend]
            elif d["step"] == "distribution":
                run(measure.get_bitstring_distribution, ["bitstring-distribution.json"], circuit="c.json", **args)
                want = [backend]
            else:
                op = QubitOperator("Z0", d["coef"] / 4) + QubitOperator("X1", 0.5)
                save_qubit_operator(op, "op.json")
                target, loaded = ("op.json", load_qubit_operator("op.json")) if d["op_file"] else (op, op)
                values = [0.25, -0.5]
                if d["tags"]:
                    args["estimation_preprocessors_specs"] = [given(spec("preprocessor", tag=t)) for t in d["tags"]]
                # the method must not be the default one, which would sample
                args["estimation_method_specs"] = given(spec("method", tag=5))
                called = [("preprocessor", t, None) for t in d["tags"]] + [("method", 5)]
                ansatz = spec(d["ansatz"])
                if d["step"] == "cost":
                    if d["prior"]:
                        save_expectation_values(ExpectationValues(np.array(values)), "prior.json")
                        args["prior_expectation_values"] = "prior.json"
                        called = [(c[0], c[1], values) if c[0] == "preprocessor" else c for c in called]
                    save_array(np.array([0.5]), "p.json")
                    cost = {"module_name": "zquantum.core.cost_function", "function_name": "AnsatzBasedCostFunction"}
                    run(measure.evaluate_ansatz_based_cost_function, ["value_estimate.json"], ansatz_specs=given(ansatz), cost_function_specs=given(cost), ansatz_parameters="p.json", target_operator=target, **args)
                    # here only the ansatz of that very name gets the operator
                    built = ("ansatz", str(loaded) if d["ansatz"] == "QAOAFarhiAnsatz" else None, None)
                    want = [built, backend] + called
                else:
                    args["optimizer_specs"] = given(spec("Optimizer", tag=4))
                    outputs = ["optimization-results.json", "optimized-parameters.json"]
                    if d["step"] == "optimize ansatz":
                        if d["ansatz"] == "WarmStartQAOAAnsatz":
                            save_list(d["thetas"], "thetas.json")
                            args["thetas"] = "thetas.json"
                        run(optimize.optimize_ansatz_based_cost_function, outputs, ansatz_specs=given(ansatz), target_operator=target, initial_parameters=[0.5], **args)
                        built = [("ansatz", str(loaded) if "QAOA" in d["ansatz"] else None, d["thetas"] if d["ansatz"] == "WarmStartQAOAAnsatz" else None)]
                    else:
                        lib.save_circuit(MockAnsatz(1, 2).parametrized_circuit, "p.json")
                        run(optimize.optimize_parametrized_circuit_for_ground_state_of_operator, outputs, parametrized_circuit="p.json", target_operator=target, initial_parameters=[0.5], **args)
                        built = []
                    want = [("optimizer", 4)] + built + [backend] + called
                # one evaluation of the cost function or more
                per = len(called)
                want += called * ((len(wires.log) - len(want)) // per)
            order = lambda log: [x for x in log if x[0] in ("preprocessor", "method")]
            setup = lambda log: sorted((x for x in log if x[0] not in ("preprocessor", "method")), key=str)
            require(setup(wires.log) == setup(want), "the objects of the step get other arguments than it was given", wires.log, want)
            require(order(wires.log) == order(want), "the stages of the estimation are run in another order or with other arguments", wires.log, want)
    finally:
        sys.modules.pop("c31_wires", None)


# --- expectation values ----------------------------------------------------------------------------------


@sub(
    st.fixed_dictionaries({"op": ops.operators("ising", n=3, max_terms=4, min_terms=1, real=True), "bits": st.lists(st.lists(st.integers(0, 1), min_size=3, max_size=3), min_size=2, max_size=12), "forms": st.lists(st.booleans(), min_size=2, max_size=2), "bessel": st.sampled_from([None, True, False])}),
    quick=70, thorough=700, rule="two terms or more", nt=lambda d: len(d["op"]["terms"]) > 1,
)
def summed_values(d):
    from steps import measure as steps
    from zquantum.core.cost_function import sum_expectation_values
    from zquantum.core.measurement import Measurements
    from zquantum.core.openfermion import save_qubit_operator
    from zquantum.core.utils import load_value_estimate

    op = ops.build(d["op"])
    m = Measurements([tuple(b) for b in d["bits"]])
    with scratch():
        save_qubit_operator(op, "op.json")
        m.save("m.json")
        kwargs = {} if d["bessel"] is None else {"use_bessel_correction": d["bessel"]}
        run(steps.get_summed_expectation_values, ["value-estimate.json"], operator="op.json" if d["forms"][0] else op, measurements="m.json" if d["forms"][1] else m, **kwargs)
        got = load_value_estimate("value-estimate.json")
        want = sum(complex(c) * np.mean([(-1) ** sum(b[q] for q, _ in t) for b in d["bits"]]) for t, c in op.terms.items())
        require(abs(complex(got) - want) < 1e-9, "another sum of expectation values", got, want)
        lib = sum_expectation_values(m.get_expectation_values(op, use_bessel_correction=d["bessel"] is not False))
        a, b = got.precision, lib.precision
        require((a is None) == (b is None) and (a is None or abs(a - b) < 1e-9), "another precision", a, b)


@sub(
    st.fixed_dictionaries({"ops": st.lists(ops.operators("qubit", n=3, max_terms=3, min_terms=1, real=True), min_size=1, max_size=3), "seed": seeds, "forms": st.lists(st.booleans(), min_size=2, max_size=2), "with": st.booleans(), "sort": st.booleans(), "particles": st.integers(1, 2)}),
    quick=60, thorough=600, rule="two operators or more", nt=lambda d: len(d["ops"]) > 1,
)
def value_steps(d):
    from steps import evaluation, measure
    from zquantum.core import hamiltonian as ham
    from zquantum.core import openfermion as of
    from zquantum.core.measurement import ExpectationValues, load_expectation_values, save_expectation_values
    from zquantum.core.utils import load_nmeas_estimate, load_value_estimate

    operators = [ops.build(o) for o in d["ops"]]
    operators = [o for o in operators if o.terms and is_real(o)] or [of.QubitOperator("Z0")]
    count = sum(len(o.terms) for o in operators)
    r = np.random.RandomState(d["seed"])
    values = ExpectationValues(np.round(r.uniform(-1, 1, count), 3))
    same = lambda a, b: np.allclose(a.values, b.values, atol=1e-9) and len(a.values) == len(b.values)
    with scratch():
        of.save_qubit_operator_set(operators, "set.json")
        save_expectation_values(values, "v.json")
        run(evaluation.evaluate_qubit_operator_list, ["value-estimate.json"], qubit_operator_list="set.json" if d["forms"][0] else operators, expectation_values="v.json" if d["forms"][1] else values)
        got = load_value_estimate("value-estimate.json")
        coefs = [complex(c) for o in operators for c in o.terms.values()]
        require(abs(complex(got) - sum(c * v for c, v in zip(coefs, values.values))) < 1e-9, "another sum of expectation values", got)
        kwargs = {"expectation_values": "v.json"} if d["with"] else {}
        run(measure.grouped_hamiltonian_analysis, ["hamiltonian_analysis.json"], "set.json", **kwargs)
        k, n, frames = load_nmeas_estimate("hamiltonian_analysis.json")
        k2, n2, frames2 = ham.estimate_nmeas_for_frames(operators, values if d["with"] else None)
        require(abs(k - k2) < 1e-9 * max(1, abs(k2)) and n == n2 and np.allclose(frames, frames2), "another estimate of the measurements", k, k2)
        # density matrices of a Slater-like state of 4 modes
        rdm = of.hf_rdm(d["particles"], d["particles"] - d["seed"] % 2, 2)
        of.save_interaction_rdm(rdm, "rdm.json")
        # only operators with as many particles before as after: number operators and hops
        pick = [of.jordan_wigner(of.FermionOperator(((i, 1), (j, 0)), 1.0) + of.FermionOperator(((j, 1), (i, 0)), 1.0)) for i, j in r.randint(0, 4, (len(operators), 2)).tolist()]
        pick = [of.QubitOperator("Z1") if not p.terms else p for p in pick]
        # and sums of number operators whose terms are listed in any order of their weights
        weighted = of.QubitOperator()
        for m in r.permutation(4)[: r.randint(2, 5)].tolist():
            weighted += of.QubitOperator(f"Z{m}", round(float(r.uniform(0.1, 5)), 3) * (1 if r.randint(2) else -1))
        pick.insert(int(r.randint(0, len(pick) + 1)), weighted)
        of.save_qubit_operator(pick[d["seed"] // 2 % len(pick)], "q.json")
        of.save_qubit_operator_set(pick, "qs.json")
        run(measure.expectation_values_from_rdms, ["expectation_values.json"], "rdm.json", "q.json", **({"sort_terms": d["sort"]} if d["with"] else {}))
        sort = d["sort"] and d["with"]
        q, qs = of.load_qubit_operator("q.json"), of.load_qubit_operator_set("qs.json")
        require(same(load_expectation_values("expectation_values.json"), ham.get_expectation_values_from_rdms(rdm, q, sort_terms=sort)), "other expectation values of a density matrix")
        run(measure.expectation_values_from_rdms_for_qubitoperator_list, ["expectation_values.json"], "rdm.json", "qs.json", sort_terms=d["sort"])
        require(same(load_expectation_values("expectation_values.json"), ham.get_expectation_values_from_rdms_for_qubitoperator_list(rdm, qs, sort_terms=d["sort"])), "other expectation values of density matrices")


@sub(
    st.fixed_dictionaries({"seed": seeds, "n": st.sampled_from([2, 3, 4]), "k": st.integers(1, 3), "forms": st.lists(st.booleans(), min_size=2, max_size=2)}),
    quick=25, thorough=300, rule="more than one particle", nt=lambda d: d["k"] > 1,
)
def ground_states(d):
    from steps import evaluation
    from zquantum.core import openfermion as of
    from zquantum.core.measurement import load_wavefunction
    from zquantum.core.utils import load_value_estimate

    n, k = d["n"], min(d["k"], d["n"])
    op = of.jordan_wigner(interaction(n, d["seed"])) + of.QubitOperator(((n - 1, "Z"),), 0.25)
    h = ops.obj_matrix(op, n)
    sector = [i for i in range(2**n) if bin(i).count("1") == k]
    energy, vecs = np.linalg.eigh(h[np.ix_(sector, sector)])
    if of.count_qubits(op) < n:
        return
    with scratch():
        of.save_qubit_operator(op, "op.json")
        run(evaluation.jw_get_ground_state_at_particle_number, ["ground-state.json", "value-estimate.json"], particle_number=k, qubit_operator="op.json" if d["forms"][0] else op)
        got = load_value_estimate("value-estimate.json")
        require(abs(complex(got) - energy[0]) < 1e-6, "another ground state energy", got, energy[0])
        psi = np.array(load_wavefunction("ground-state.json").amplitudes, dtype=complex).ravel()
        require(abs(np.linalg.norm(psi) - 1) < 1e-6 and abs(psi.conj() @ h @ psi - energy[0]) < 1e-6, "not the ground state")
        require(np.allclose([psi[i] for i in range(2**n) if i not in sector], 0, atol=1e-7), "a state of other particle numbers")
        if len(sector) > 1 and energy[1] - energy[0] < 1e-3:
            label("degenerate")
            return
        run(evaluation.get_ground_state_rdm_from_qubit_operator, ["rdms.json"], qubit_operator="op.json" if d["forms"][1] else op, n_particles=k)
        rdm = of.load_interaction_rdm("rdms.json")
        for p, q in itertools.product(range(n), repeat=2):
            want = psi.conj() @ ref.fermion_term_matrix(((p, 1), (q, 0)), n) @ psi
            require(abs(rdm.one_body_tensor[p, q] - want) < 1e-6, "another element of the density matrix", p, q)


@sub(
    st.fixed_dictionaries({"circuit": gen.circuits(max_n=2, max_ops=3), "op": ops.operators("ising", n=2, max_terms=3, min_terms=1, real=True), "form": st.sampled_from(["file", "object", "dict"]), "backend": backends()}),
    quick=20, thorough=60, rule="always", nt=lambda d: True,
)
def measured_values(d):
    from steps import evaluation
    from zquantum.core import circuits as lib
    from zquantum.core import openfermion as of

    c, op = gen.build_circuit(d["circuit"]), ops.build(d["op"])
    with scratch():
        lib.save_circuit(c, "c.json")
        of.save_qubit_operator(op, "op.json")
        specs = d["backend"]["specs"]
        given = {"file": ("c.json", "op.json"), "object": (c, op), "dict": (lib.to_dict(c), of.convert_qubitop_to_dict(op))}[d["form"]]
        try:
            evaluation.get_expectation_values_for_qubit_operator(json.dumps(specs) if d["backend"]["text"] else specs, *given)
        except AttributeError as e:
            require("n_samples" in str(e), "the step fails otherwise", str(e))
            excluded(F31)
        else:
            from zquantum.core.measurement import load_expectation_values

            require(len(load_expectation_values("expectation-values.json").values) == len(op.terms), "another number of expectation values")


# --- graphs ------------------------------------------------------------------------------------------------


@st.composite
def graph_cases(draw):
    kind = draw(st.sampled_from(["erdos", "regular", "complete", "caveman", "ladder", "barbell", "specs"]))
    args = {
        "erdos": lambda: {"number_of_nodes": draw(st.integers(0, 10)), "edge_probability": draw(st.sampled_from([0, 0.3, 0.7, 1.0]))},
        "regular": lambda: dict(zip(("number_of_nodes", "degree"), draw(st.sampled_from([(4, 3), (6, 2), (8, 3), (5, 2), (10, 4)])))),
        "complete": lambda: {"number_of_nodes": draw(st.integers(0, 8))},
        "caveman": lambda: {"number_of_cliques": draw(st.integers(1, 3)), "size_of_cliques": draw(st.integers(2, 4))},
        "ladder": lambda: {"length_of_ladder": draw(st.integers(1, 6))},
        "barbell": lambda: {"number_of_vertices_complete_graph": draw(st.integers(2, 6))},
        "specs": lambda: {"type_graph": draw(st.sampled_from(["erdos_renyi", "regular", "complete"])), "num_nodes": 6, "probability": 0.5, "degree": 3},
    }[kind]()
    sampler = draw(st.sampled_from([None, {"function_name": "constant_sampler", "value": 2.5}, {"function_name": "uniform_sampler"}, {"function_name": "uniform_sampler", "min_value": -2, "max_value": 3}, {"function_name": "choice_sampler", "values": [1, -1, 4]}, {"function_name": "normal_sampler", "mean": 1.0, "std": 0.5}]))
    return {"kind": kind, "args": args, "sampler": sampler, "text": draw(st.booleans()), "seed": draw(st.one_of(st.none(), seeds, seeds))}


@sub(graph_cases(), quick=120, thorough=1200, rule="a seed and a sampler of weights", nt=lambda d: d["sampler"] and d["seed"] is not None)
def graph_steps(d):
    from steps import graph as steps
    from zquantum.core import graph as lib

    kind, args, seed = d["kind"], d["args"], d["seed"]
    same = lambda a, b: dict(a.nodes(data=True)) == dict(b.nodes(data=True)) and {frozenset(e[:2]): e[2] for e in a.edges(data=True)} == {frozenset(e[:2]): e[2] for e in b.edges(data=True)}
    with scratch():
        if kind == "specs":
            random.seed(7)
            np.random.seed(7)
            run(steps.generate_graph_from_specs, ["graph.json"], json.dumps(args))
            got = lib.load_graph("graph.json")
            require(len(got) == 6, "another number of nodes")
            if args["type_graph"] == "complete":
                require(got.number_of_edges() == 15, "another number of edges")
            if args["type_graph"] == "regular":
                require(all(k == 3 for _, k in got.degree), "other degrees")
            return
        sampler, specs = lib.constant_sampler(1), None
        if d["sampler"]:
            s = dict(d["sampler"])
            specs = {"module_name": "zquantum.core.graph", **s}
            try:
                sampler = getattr(lib, s.pop("function_name"))(**s)
            except TypeError:
                label("sampler with other parameters")
                return
        kwargs = {} if specs is None else {"sampler_specs": json.dumps(specs) if d["text"] else specs}
        if seed is not None:
            kwargs["seed"] = seed
        step = {"erdos": steps.generate_random_graph_erdos_renyi, "regular": steps.generate_random_regular_graph, "complete": steps.generate_complete_graph, "caveman": steps.generate_caveman_graph, "ladder": steps.generate_ladder_graph, "barbell": steps.generate_barbell_graph}[kind]
        make = {"erdos": lib.generate_random_graph_erdos_renyi, "regular": lib.generate_random_regular_graph, "complete": lambda n, *a: lib.generate_random_graph_erdos_renyi(n, 1.0, *a), "caveman": lib.generate_caveman_graph, "ladder": lib.generate_ladder_graph, "barbell": lib.generate_barbell_graph}[kind]
        random.seed(11)
        np.random.seed(11)
        run(step, ["graph.json"], **args, **kwargs)
        got = lib.load_graph("graph.json")
        random.seed(11)
        np.random.seed(11)
        want = make(*args.values(), sampler, seed)
        if seed is not None or kind not in ("erdos", "regular"):
            if seed is not None or specs is None or specs["function_name"] == "constant_sampler":
                require(same(got, want), "the graph of the step differs from the one of the library", kind)
        require(set(got.nodes) == set(want.nodes), "other nodes", kind)
        for bad in (5, [1]):
            raises(ValueError, lambda: step(*args.values(), bad), "an invalid sampler specification is accepted")
