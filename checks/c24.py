"""C24: measurement tracking is transparent and complete."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "model-based testing (Hypothesis): generated histories of runs through a tracker, against an untracked twin backend and a model of the tracking file"
ASSUMPTIONS = [
    "the inner backend is a deterministic stand-in, the symbolic simulator with a seed, or a batching stand-in; nothing else writes the tracking file",
    "numbers of samples are Python integers, and circuits consist of gates (circuits with multi-phase operations cannot be written)",
]

CALLS = ["run", "run", "set", "set", "outcomes", "bitstrings", "fail", "direct", "record", "other"]


@st.composite
def histories(draw, shots=(1, 2, 3, 7, 20), max_ops=4, many=12):
    pool = [draw(gen.circuits(max_n=draw(st.sampled_from([2, 3, 3, 6])), max_ops=max_ops, min_ops=0, min_n=1, wrap=1)) for _ in range(draw(st.integers(1, 3)))]
    for c in pool:
        c["n"] = max(gen.circuit_n(c), 1)
    k = len(pool)
    step = st.tuples(
        st.sampled_from(CALLS),
        st.lists(st.tuples(st.integers(0, k - 1), st.sampled_from(shots)), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=draw(st.sampled_from([3, 3, many]))),
        st.booleans(),
    )
    return {
        "pool": pool,
        "backend": draw(st.sampled_from(["stub", "stub", "repeating", "simulator", "batching"])),
        "record": draw(st.sampled_from([None, True, False])),
        "steps": draw(st.lists(step, min_size=draw(st.sampled_from([1, 3, 5])), max_size=draw(st.sampled_from([8, 8, 8, 30])))),
    }


def make_backend(kind, log):
    """A deterministic backend of the given kind that logs what it is asked to run."""
    from zquantum.core.interfaces.backend import QuantumBackend
    from zquantum.core.measurement import Measurements
    from zquantum.core.symbolic_simulator import SymbolicSimulator

    def sample(circuit, n, i):
        r = np.random.default_rng(1000 * len(circuit.operations) + 10 * n + i)
        return Measurements([tuple(int(b) for b in row) for row in r.integers(0, 2, size=(n, circuit.n_qubits))])

    class Stub(QuantumBackend):
        def run_circuit_and_measure(self, circuit, n_samples, **kw):
            super().run_circuit_and_measure(circuit, n_samples)
            log.append((circuit, n_samples))
            return sample(circuit, n_samples, len(log))

    class Repeating(Stub):
        """Gives the same measurements object whenever it is asked for the same."""

        def run_circuit_and_measure(self, circuit, n_samples, **kw):
            key = (id(circuit), n_samples)
            if key not in known:
                known[key] = super().run_circuit_and_measure(circuit, n_samples)
            else:
                QuantumBackend.run_circuit_and_measure(self, circuit, n_samples)
                log.append((circuit, n_samples))
            return known[key]

    known = {}

    class Batching(Stub):
        supports_batching = True
        batch_size = 2

        def run_circuitset_and_measure(self, circuits, n_samples):
            super().run_circuitset_and_measure(circuits, n_samples)
            out = []
            for c, n in zip(circuits, n_samples):
                if n < 1:
                    raise ValueError("samples")
                log.append((c, n, "batch"))
                out.append(sample(c, n, len(log)))
            return out

    class Simulator(SymbolicSimulator):
        def run_circuit_and_measure(self, circuit, n_samples, *a):
            log.append((circuit, n_samples))
            if n_samples < 1:
                raise ValueError("samples")
            return super().run_circuit_and_measure(circuit, n_samples, *a)

    if kind == "simulator":
        return Simulator(seed=7)
    return {"stub": Stub, "repeating": Repeating, "batching": Batching}[kind]()


def counted(b):
    return b.number_of_circuits_run, b.number_of_jobs_run


def nt(case):
    acts = [s for s in case["steps"] if s[0] in ("run", "set", "outcomes", "bitstrings") and s[1]]
    return len(acts) >= 2 and len({a for a, _, _ in acts}) >= 2


@sub(histories(), quick=320, thorough=15000, rule="two or more kinds of successful calls", nt=nt)
def tracking(case):
    from zquantum.core.circuits import circuit_from_dict, to_dict
    from zquantum.core.trackers import MeasurementTrackingBackend

    pool = [gen.build_circuit(c) for c in case["pool"]]
    before = [(list(c.operations), c.n_qubits) for c in pool]
    log, twin_log = [], []
    inner, twin = make_backend(case["backend"], log), make_backend(case["backend"], twin_log)
    label(f"backend {case['backend']}")
    with scratch() as d:
        path = os.path.join(d, "tracked.json")
        kw = {} if case["record"] is None else {"record_bitstrings": case["record"]}
        tracker = MeasurementTrackingBackend(inner, path, **kw)
        other = MeasurementTrackingBackend(inner, os.path.join(d, "other.json"))
        recording = bool(case["record"])
        want, others, written = [], [], False

        def compare(a, b):
            if isinstance(a, list):
                return len(a) == len(b) and all(compare(x, y) for x, y in zip(a, b))
            if hasattr(a, "bitstrings"):
                return type(a) is type(b) and a.bitstrings == b.bitstrings
            return type(a) is type(b) and a.distribution_dict == b.distribution_dict

        def measurement(circuit, m):
            counts = {}
            for b in m.bitstrings:
                key = "".join(str(x) for x in b)
                counts[key] = counts.get(key, 0) + 1
            out = {"data_type": "measurement", "circuit": circuit, "counts": counts, "number_of_shots": len(m.bitstrings)}
            if recording:
                out["bitstrings"] = [list(b) for b in m.bitstrings]
            return out

        for act, picks, flag in case["steps"]:
            if act == "record":
                recording = flag
                tracker.record_bitstrings = flag
                continue
            if act not in ("set", "fail") and not picks:
                continue
            circuits, shots = [pool[i] for i, _ in picks], [n for _, n in picks]
            if act in ("run", "other"):
                c, n = circuits[0], shots[0]
                through = tracker if act == "run" else other
                out = through.run_circuit_and_measure(c, n_samples=n) if flag else through.run_circuit_and_measure(c, n)
                require(compare(out, twin.run_circuit_and_measure(c, n)), "measurements through the tracker", out.bitstrings)
                if act == "run":
                    want.append(measurement(c, out))
                else:
                    others.append(c)
            elif act == "direct":
                out = inner.run_circuit_and_measure(circuits[0], shots[0])
                require(compare(out, twin.run_circuit_and_measure(circuits[0], shots[0])), "inner backend used directly")
            elif act == "set":
                args = (tuple(circuits), tuple(shots)) if flag else (circuits, shots)
                out = tracker.run_circuitset_and_measure(*args)
                require(compare(out, twin.run_circuitset_and_measure(*args)), "measurements of a set through the tracker")
                require(len(out) == len(circuits), "number of results")
                want += [measurement(c, m) for c, m in zip(circuits, out)]
            elif act in ("outcomes", "bitstrings"):
                name = "get_measurement_outcome_distribution" if act == "outcomes" else "get_bitstring_distribution"
                n = shots[0]
                if act == "outcomes" and flag and case["backend"] == "simulator":
                    n = None
                out = getattr(tracker, name)(circuits[0], n)
                plain = getattr(twin, name)(circuits[0], n)
                require(compare(out, plain), "distribution through the tracker", out, plain)
                want.append({"data_type": "measurement outcome distribution" if act == "outcomes" else "bitstring distribution", "circuit": circuits[0], "distribution": repr(plain), "number_of_shots": n})
            else:
                n = 0 if flag else -3
                raises(ValueError, lambda: tracker.run_circuit_and_measure(pool[0], n), "no samples")
                try:
                    twin.run_circuit_and_measure(pool[0], n)
                except ValueError:
                    pass
            require(counted(inner) == counted(twin), "bookkeeping of the wrapped backend", act, counted(inner), counted(twin))
            require(len(log) == len(twin_log) and all(a[0] is b[0] and a[1:] == b[1:] for a, b in zip(log, twin_log)), "what the wrapped backend was asked to run", act, log, twin_log)
            written = written or bool(want) or act == "set"
            if written:
                with open(path) as f:
                    text = f.read()
                data = json.loads(text)
                require("raw-data" in data["schema"], "schema", data["schema"])
                records = data["raw-data"]
                require(len(records) == len(want), "number of records in the file", act, len(records), len(want))
                for r, w in zip(records, want):
                    require(r["device"] == type(inner).__name__, "device", r["device"])
                    require(r["number_of_gates"] == len(w["circuit"].operations), "number of gates", r)
                    require(r["circuit"] == json.loads(json.dumps(to_dict(w["circuit"]))), "circuit of the record", r["circuit"])
                    for k in ("data_type", "counts", "number_of_shots", "distribution", "bitstrings"):
                        require((k in r) == (k in w) and r.get(k) == w.get(k), f"{k} of the record", r.get(k), w.get(k))
            else:
                require(not os.path.exists(path), "a file before any successful call")
        if want:
            c = want[-1]["circuit"]
            require(circuit_from_dict(records[-1]["circuit"]) == c, "the circuit can be read back", c)
        if others:
            with open(os.path.join(d, "other.json")) as f:
                require([r["circuit"] for r in json.load(f)["raw-data"]] == [json.loads(json.dumps(to_dict(c))) for c in others], "second tracker of the same backend")
        require([(list(c.operations), c.n_qubits) for c in pool] == before, "circuits were changed")
        require(sorted(os.listdir(d)) == sorted((["tracked.json"] if os.path.exists(path) else []) + (["other.json"] if others else [])), "other files were written", os.listdir(d))


@sub(histories(shots=(5, 100, 999, 1001, 3000), max_ops=16, many=30), quick=16, thorough=600, rule="two or more kinds of successful calls", nt=nt)
def large_runs(case):
    tracking(dict(case, steps=case["steps"][:4]))


@sub(
    st.fixed_dictionaries({"seed": st.integers(0, 10**6), "steps": st.sampled_from([9, 17, 34, 70]), "backend": st.sampled_from(["stub", "repeating", "batching"]), "record": st.booleans()}),
    quick=16,
    thorough=400,
    rule="seventeen calls or more",
    nt=lambda c: c["steps"] >= 17,
)
def long_sessions(case):
    """Many calls on few small circuits: after each of them the file holds all records so far."""
    from zquantum.core.circuits import CNOT, Circuit, H, X, to_dict
    from zquantum.core.trackers import MeasurementTrackingBackend

    r = np.random.RandomState(case["seed"])
    pool = [Circuit([X(0)]), Circuit([H(0), CNOT(0, 1)]), Circuit([], n_qubits=1)]
    dicts = [json.loads(json.dumps(to_dict(c))) for c in pool]
    inner = make_backend(case["backend"], [])
    want = []
    with scratch() as d:
        path = os.path.join(d, "tracked.json")
        tracker = MeasurementTrackingBackend(inner, path, record_bitstrings=case["record"])
        for step in range(case["steps"]):
            act = r.choice(["run", "run", "set", "outcomes", "bitstrings", "fail"])
            i, n = int(r.randint(3)), int(r.choice([1, 2, 7, 33, 64, 65, 100, 128, 200]))
            if act == "run":
                m = tracker.run_circuit_and_measure(pool[i], n)
                want.append([i, n, m.get_counts()])
            elif act == "set":
                k = int(r.randint(0, 4))
                picks, shots = [int(x) for x in r.randint(0, 3, k)], [int(x) for x in r.choice([1, 5, 64, 99], k)]
                out = tracker.run_circuitset_and_measure([pool[j] for j in picks], shots)
                want += [[j, x, m.get_counts()] for j, x, m in zip(picks, shots, out)]
            elif act == "fail":
                raises(ValueError, lambda: tracker.run_circuit_and_measure(pool[i], 0), "no samples")
            else:
                out = getattr(tracker, "get_measurement_outcome_distribution" if act == "outcomes" else "get_bitstring_distribution")(pool[i], n)
                want.append([i, n, repr(out)])
            if not want:
                continue
            with open(path) as f:
                records = json.load(f)["raw-data"]
            require(len(records) == len(want), "number of records in the file", step, act, n, len(records), len(want))
            got = records[-1]
            require([dicts.index(got["circuit"]), got["number_of_shots"], got.get("counts", got.get("distribution"))] == want[-1], "the last record", got, want[-1])
    got = [[dicts.index(x["circuit"]), x["number_of_shots"], x.get("counts", x.get("distribution"))] for x in records] if want else []
    require(got == want, "the records of the session", got, want)


@sub(
    st.fixed_dictionaries({"track": st.sampled_from([None, True, False]), "file": st.sampled_from([None, "x.json", "sub.json"]), "record": st.sampled_from([None, True, False]), "seed": st.sampled_from([None, 0, 7, 1234]), "n": st.integers(1, 9)}),
    quick=40,
    thorough=300,
    rule="measurements are tracked",
    nt=lambda c: c["track"],
)
def backends_from_specifications(case):
    from zquantum.core.circuits import CNOT, Circuit, H
    from zquantum.core.symbolic_simulator import SymbolicSimulator
    from zquantum.core.trackers import MeasurementTrackingBackend, create_backend

    specs = {"module_name": "zquantum.core.symbolic_simulator", "function_name": "SymbolicSimulator"}
    names = {"track": "track_measurements", "file": "raw_data_file_name", "record": "record_bitstrings", "seed": "seed"}
    specs.update({k: case[c] for c, k in names.items() if case[c] is not None})
    keep = dict(specs)
    circuit = Circuit([H(0), CNOT(0, 1), H(2)])
    with scratch() as d:
        backend = create_backend(specs)
        require(specs == keep, "the specification was changed", specs)
        require(type(backend) is (MeasurementTrackingBackend if case["track"] else SymbolicSimulator), "kind of backend", type(backend), specs)
        out = backend.run_circuit_and_measure(circuit, case["n"])
        if case["seed"] is not None:
            plain = SymbolicSimulator(seed=case["seed"]).run_circuit_and_measure(circuit, case["n"])
            require(out.bitstrings == plain.bitstrings, "the seed is not passed on", specs)
        name = case["file"] or "raw_data.json"
        require(os.listdir(d) == ([name] if case["track"] else []), "files written", os.listdir(d), specs)
        if case["track"]:
            with open(os.path.join(d, name)) as f:
                (record,) = json.load(f)["raw-data"]
            require(record["counts"] == out.get_counts() and record["device"] == "SymbolicSimulator", "record", record)
            require(record.get("bitstrings") == ([list(b) for b in out.bitstrings] if case["record"] else None), "recorded bitstrings", record, specs)
