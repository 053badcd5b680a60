"""C23: recorders, optimizer histories and augmentations."""
import copy
import functools
import logging

import numpy as np
from hypothesis import strategies as st

from pbt.core import fail, label, raises, require, sub

TECHNIQUE = "model-based testing (Hypothesis): generated histories of calls to recorded, optimized and augmented functions against a list of the calls really made"
ASSUMPTIONS = [
    "the recorded function does not modify its argument, and arguments are arrays, flat lists or scalars",
    "artifacts and values are not modified after they were handed over",
]

small = st.integers(-400, 400).map(lambda k: k / 100)

# ----- functions of every kind --------------------------------------------------------------------------------------

KINDS = ["plain", "gradient", "artifact", "artifact_gradient", "class", "class_gradient", "class_all"]


class Log:
    """Counts the calls that really reach a target."""

    def __init__(self):
        self.calls = []
        self.gradients = []


def value_of(x, kind):
    a = np.asarray(x, dtype=float)
    return float(np.sum(a**2) + np.sum(a)) if kind != "vector" else a * 2


def target(kind, log, plan):
    """A function of the given kind. plan[i % len] = list of (name, force) stored as artifacts in call i."""
    from zquantum.core.interfaces.functions import FunctionWithGradient, FunctionWithGradientStoringArtifacts

    def plain(x):
        log.calls.append(np.array(x, dtype=float).tolist())
        return value_of(x, kind)

    def storing(x, store_artifact=None):
        i = len(log.calls)
        if isinstance(x, str) and store_artifact is not None:
            # fails after having stored something
            store_artifact("lost", 1)
            store_artifact("a", 2, force=True)
        log.calls.append(np.array(x, dtype=float).tolist())
        if store_artifact is not None:
            for j, (name, force) in enumerate(plan[i % len(plan)] if plan else []):
                if force is None:
                    store_artifact(name, (i, j))
                else:
                    store_artifact(name, (i, j), force=force)
        return value_of(x, kind)

    def gradient(x):
        log.gradients.append(np.array(x, dtype=float).tolist())
        return 2 * np.asarray(x, dtype=float) + 1

    class Plain:
        info = 5

        def __call__(self, x):
            return plain(x)

    class WithGradient(Plain):
        def gradient(self, x):
            return gradient(x)

    class All(WithGradient):
        def __call__(self, x, store_artifact=None):
            return storing(x, store_artifact)

    return {
        "plain": lambda: plain,
        "gradient": lambda: FunctionWithGradient(plain, gradient),
        "artifact": lambda: storing,
        "artifact_gradient": lambda: FunctionWithGradientStoringArtifacts(storing, gradient),
        "class": Plain,
        "class_gradient": WithGradient,
        "class_all": All,
    }[kind]()


def has_gradient(kind):
    return kind in ("gradient", "artifact_gradient", "class_gradient", "class_all")


def has_artifacts(kind):
    return kind in ("artifact", "artifact_gradient", "class_all")


def save_condition(spec, seen):
    from zquantum.core.history.save_conditions import always, every_nth

    name, k = spec
    if name == "always":
        return always
    if name == "every":
        return every_nth(k)

    def cond(value, params, call_number):
        seen.append((float(np.sum(value)), np.array(params, dtype=float).tolist(), call_number))
        if name == "value":
            return bool(np.sum(value) > k)
        if name == "params":
            return bool(np.sum(params) > 0)
        return False

    return cond


def saved(spec, value, params, n):
    name, k = spec
    if name == "every":
        return n % k == 0
    return {"always": True, "value": float(np.sum(value)) > k, "params": float(np.sum(params)) > 0, "never": False}[name]


conditions = st.one_of(
    st.just(["always", 1]),
    st.integers(1, 4).map(lambda k: ["every", k]),
    st.integers(-1, 5).map(lambda k: ["value", k]),
    st.just(["params", 0]),
    st.just(["never", 0]),
)


@st.composite
def plans(draw):
    one = st.lists(st.tuples(st.sampled_from(["a", "b", "a"]), st.sampled_from([None, None, False, True])), max_size=3)
    return draw(st.lists(one, min_size=1, max_size=4))


@st.composite
def histories(draw):
    n = draw(st.integers(1, 3))
    step = st.tuples(
        st.sampled_from(["call", "call", "call", "call", "gradient", "mutate", "copy", "deepcopy", "reuse", "raise", "back"]),
        st.lists(small, min_size=n, max_size=n),
        st.sampled_from(["array", "array", "list", "ints"]),
    )
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "cond": draw(conditions),
        "plan": draw(plans()),
        "steps": draw(st.lists(step, min_size=2, max_size=14)),
        "default": draw(st.booleans()),
    }


def nt_history(case):
    acts = [s[0] for s in case["steps"]]
    return acts.count("call") >= 3 and (case["cond"][0] != "always") and (has_artifacts(case["kind"]) or has_gradient(case["kind"]))


def entries_equal(have, want, artifacts):
    if len(have) != len(want):
        return False
    for h, w in zip(have, want):
        if h.call_number != w[0] or type(h.params) is not type(w[1]) or not np.array_equal(h.params, w[1]):
            return False
        if not np.array_equal(h.value, w[2]):
            return False
        if artifacts and (dict(h.artifacts) != w[3]):
            return False
        if not artifacts and hasattr(h, "artifacts"):
            return False
    return True


@sub(histories(), quick=700, thorough=30000, rule="three or more calls, a selective save condition, and gradients or artifacts", nt=nt_history)
def recorders(case):
    from zquantum.core.history.recorder import recorder

    kind, cond = case["kind"], case["cond"]
    log, seen = Log(), []
    fn = target(kind, log, case["plan"])
    if case["default"]:
        cond = ["always", 1]
        rec = recorder(fn)
    else:
        rec = recorder(fn, save_condition(cond, seen))
    label(f"{kind}, {cond[0]}")
    # a model per recorder: shared value histories (shallow copies share the list)
    models = [{"rec": rec, "n": 0, "hist": [], "gn": 0, "ghist": []}]
    cur = 0
    last = None
    artifacts = has_artifacts(kind)
    require(hasattr(rec, "gradient") == has_gradient(kind), "gradient exposed or not", kind)
    for act, vals, form in case["steps"]:
        m = models[cur]
        r = m["rec"]
        x = np.array(vals) if form == "array" else list(vals) if form == "list" else np.array([int(v) for v in vals])
        if act == "reuse" and last is not None:
            x = last
            act = "call"
        if act == "mutate" and last is not None:
            if isinstance(last, list):
                last[0] = 77.0
            else:
                last += 7
        elif act in ("call", "reuse"):
            before = copy.copy(x)
            n_calls, n_grads, n_seen = len(log.calls), len(log.gradients), len(seen)
            out = r(x)
            want = value_of(before, kind)
            require(np.array_equal(x, before), "the argument was changed")
            require(np.array_equal(out, want), "value of the recorded function", out, want)
            require(len(log.calls) == n_calls + 1 and len(log.gradients) == n_grads, "calls of the target", log.calls)
            if len(seen) > n_seen:
                require(seen[n_seen:] == [(float(np.sum(want)), np.array(before, dtype=float).tolist(), m["n"])], "arguments of the save condition", seen[n_seen:], m["n"])
            arts, forced = {}, False
            if artifacts:
                for j, (name, force) in enumerate(case["plan"][n_calls % len(case["plan"])]):
                    arts[name] = (n_calls, j)
                    forced = forced or bool(force)
            if saved(cond, want, before, m["n"]) or forced:
                m["hist"].append((m["n"], before, want, arts))
            m["n"] += 1
            last = x
        elif act == "gradient" and has_gradient(kind):
            before = copy.copy(x)
            n_calls = len(log.calls)
            g = r.gradient(x)
            want = 2 * np.asarray(before, dtype=float) + 1
            require(np.array_equal(g, want), "gradient", g)
            require(len(log.calls) == n_calls, "the gradient called the function")
            if saved(cond, want, before, m["gn"]):
                m["ghist"].append((m["gn"], before, want, {}))
            m["gn"] += 1
            last = x
        elif act == "copy" and len(models) < 4:
            c = copy.copy(r)
            require(type(c) is type(r), "type of a copy")
            models.append({"rec": c, "n": m["n"], "hist": m["hist"], "gn": m["gn"], "ghist": m["ghist"]})
            cur = len(models) - 1
        elif act == "deepcopy" and len(models) < 4 and not kind.startswith("class"):
            c = copy.deepcopy(r)
            require(type(c) is type(r), "type of a copy")
            mine, theirs = c.history + (list(c.gradient.history) if has_gradient(kind) else []), r.history + (list(r.gradient.history) if has_gradient(kind) else [])
            for e, o in zip(mine, theirs):
                require(not np.shares_memory(e.params, o.params), "a deep copy shares the recorded arguments")
            models.append({"rec": c, "n": m["n"], "hist": list(m["hist"]), "gn": m["gn"], "ghist": list(m["ghist"])})
            cur = len(models) - 1
        elif act == "back":
            cur = 0
        elif act == "raise":
            n_calls = len(log.calls)
            raises(Exception, lambda: r("not a number"), "an error in the function")
            del log.calls[n_calls:]
            if has_gradient(kind):
                raises(Exception, lambda: r.gradient("not a number"), "an error in the gradient")
        for m in models:
            r = m["rec"]
            require(r.call_number == m["n"], "call number", act, r.call_number, m["n"])
            require(entries_equal(r.history, m["hist"], artifacts), "history", act, r.history, m["hist"])
            if has_gradient(kind):
                require(r.gradient.call_number == m["gn"], "call number of the gradient", act, r.gradient.call_number, m["gn"])
                require(entries_equal(r.gradient.history, m["ghist"], False), "history of the gradient", act, r.gradient.history, m["ghist"])
    if kind.startswith("class"):
        require(rec.info == 5, "attribute of the function")
        rec.info = 6
        require(fn.info == 6 and rec.info == 6, "setting an attribute of the function")
        raises(AttributeError, lambda: rec.nothing, "unknown attribute")


# ----- optimizers built on the template ---------------------------------------------------------------------------------


def descent(calls, recorder_spec=None, preprocess=False):
    """An optimizer that evaluates a fixed list of displacements ('v' value, 'g' gradient)."""
    from zquantum.core.history.recorder import recorder as rec
    from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result

    class Given(Optimizer):
        def _minimize(self, cost_function, initial_params, keep_history=False):
            self.got = cost_function
            best = None
            x0 = np.array(initial_params, dtype=float)
            nfev = 0
            for what, d in calls:
                x = x0 + d
                if what == "g" and hasattr(cost_function, "gradient"):
                    cost_function.gradient(x)
                    continue
                v = cost_function(x)
                nfev += 1
                if best is None or v < best[0]:
                    best = (v, x)
            return optimization_result(opt_value=best[0] if best else None, opt_params=best[1] if best else x0, nfev=nfev, nit=len(calls), extra="kept", **construct_history_info(cost_function, keep_history))

    Given._minimize.__override__ = True
    if recorder_spec is None:
        return Given()
    return Given(recorder=functools.partial(rec, save_condition=save_condition(recorder_spec, [])))


@st.composite
def optimizer_cases(draw):
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "calls": draw(st.lists(st.tuples(st.sampled_from("vvg"), small), min_size=1, max_size=6)),
        "keep": draw(st.sampled_from([None, True, True, False])),
        "rec": draw(st.one_of(st.none(), conditions)),
        "x0": draw(st.lists(small, min_size=1, max_size=3)),
        "prerecorded": draw(st.booleans()),
        "plan": draw(plans()),
        "runs": draw(st.integers(1, 2)),
    }


@sub(optimizer_cases(), quick=400, thorough=15000, rule="history kept of a function with gradient or artifacts", nt=lambda c: c["keep"] and c["kind"] not in ("plain", "class") and len(c["calls"]) >= 2)
def optimizers(case):
    from zquantum.core.history.recorder import recorder

    kind = case["kind"]
    opt = descent(case["calls"], case["rec"])
    x0 = np.array(case["x0"])
    keep = bool(case["keep"])
    for _ in range(case["runs"]):
        log = Log()
        fn = target(kind, log, case["plan"])
        if case["prerecorded"]:
            fn = recorder(fn)
        res = opt.minimize(fn, x0) if case["keep"] is None else opt.minimize(fn, x0, keep)
        require(x0.tolist() == case["x0"], "initial parameters were changed")
        require(res.extra == "kept" and res.nit == len(case["calls"]), "other fields of the result", res)
        require(len(log.calls) == res.nfev, "number of calls of the function", len(log.calls), res.nfev)
        vals = [value_of(p, kind) for p in log.calls]
        if vals:
            require(res.opt_value == min(vals) and np.allclose(res.opt_params, log.calls[vals.index(min(vals))]), "optimum among the calls", res)
        if not keep:
            require(res.history == [] and "gradient_history" not in res, "history although not asked for", res)
            require(opt.got is fn, "cost function replaced without keeping history")
            continue
        cond = case["rec"] or ["always", 1]
        arts = has_artifacts(kind)
        want = []
        for i, p in enumerate(log.calls):
            stored, forced = {}, False
            if arts:
                for j, (name, force) in enumerate(case["plan"][i % len(case["plan"])]):
                    stored[name] = (i, j)
                    forced = forced or bool(force)
            if saved(cond, vals[i], p, i) or forced:
                want.append((i, np.array(p), vals[i], stored))
        require(entries_equal(res.history, want, arts), "history", res.history, want)
        require(("gradient_history" in res) == has_gradient(kind), "gradient history or not", kind)
        if has_gradient(kind):
            gw = [2 * np.array(p) + 1 for p in log.gradients]
            want = [(i, np.array(p), g, {}) for i, (p, g) in enumerate(zip(log.gradients, gw)) if saved(cond, g, p, i)]
            require(entries_equal(res.gradient_history, want, False), "gradient history", res.gradient_history, want)
        if case["prerecorded"] and cond[0] == "always":
            require(entries_equal(fn.history, [(e.call_number, e.params, e.value, getattr(fn.history[i], "artifacts", {})) for i, e in enumerate(res.history)], has_artifacts(kind)), "the inner recorder disagrees")


@st.composite
def nested_cases(draw):
    return {
        "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=4)),
        "calls": draw(st.lists(st.tuples(st.sampled_from("vg"), small), min_size=1, max_size=4)),
        "keep": draw(st.sampled_from([True, True, True, False, None])),
        "x0": draw(st.lists(small, min_size=1, max_size=2)),
        "ints": draw(st.booleans()),
    }


@sub(nested_cases(), quick=300, thorough=10000, rule="history kept over two or more iterations, some with gradient", nt=lambda c: c["keep"] and len(c["kinds"]) >= 2 and any(has_gradient(k) for k in c["kinds"]))
def nested_optimizers(case):
    from zquantum.core.history.recorder import recorder
    from zquantum.core.interfaces.mock_objects import MockNestedOptimizer, MockOptimizer
    from zquantum.core.interfaces.optimizer import extend_histories

    kinds = case["kinds"]
    logs = [Log() for _ in kinds]
    inner = descent(case["calls"] + [("v", 0.0)])
    opt = MockNestedOptimizer(inner, len(kinds))
    x0 = np.array(case["x0"])
    asked = []

    def factory(i):
        asked.append(i)
        return target(kinds[i], logs[i], [])

    res = opt.minimize(factory, x0) if case["keep"] is None else opt.minimize(factory, x0, case["keep"])
    require(x0.tolist() == case["x0"], "initial parameters were changed")
    require(asked == list(range(len(kinds))), "cost function of every iteration", asked)
    require(res.nfev == sum(len(g.calls) for g in logs) and res.nit == len(kinds), "numbers of calls and iterations", res)
    vals = [value_of(p, "") for p in logs[-1].calls]
    require(res.opt_value == min(vals), "final value", res)
    if not case["keep"]:
        require(res.history == [] and not res.get("gradient_history"), "history although not asked for", res)
    else:
        want = [(i, p) for g in logs for i, p in enumerate(g.calls)]
        have = [(e.call_number, e.params.tolist()) for e in res.history]
        require(have == want, "history of all iterations", have, want)
        gwant = [(i, p) for g in logs for i, p in enumerate(g.gradients)]
        if any(has_gradient(k) for k in kinds):
            label("gradients in some iterations")
            ghave = [(e.call_number, e.params.tolist()) for e in res.gradient_history]
            require(ghave == gwant, "gradient history of all iterations", ghave, gwant)
        else:
            require("gradient_history" not in res, "gradient history without gradients")
        # extending histories changes neither the old ones nor those of the recorder
        r = recorder(target(kinds[0], Log(), []))
        r(np.array([1.0]))
        old = {"history": list(res.history), **({"gradient_history": list(res.gradient_history)} if "gradient_history" in res else {})}
        sizes = {k: len(v) for k, v in old.items()}
        new = extend_histories(r, old)
        require({k: len(v) for k, v in old.items()} == sizes and len(r.history) == 1, "histories were changed in place")
        require(len(new["history"]) == sizes["history"] + 1 and new["history"][-1].call_number == 0, "extended history")
    # the mock optimizer
    log = Log()
    fn = target(kinds[0], log, [])
    x = np.array([int(v) for v in case["x0"]]) if case["ints"] else np.array(case["x0"])
    before = x.copy()
    res = MockOptimizer().minimize(fn, x) if case["keep"] is None else MockOptimizer().minimize(fn, x, keep_history=case["keep"])
    require(np.array_equal(x, before), "the mock optimizer changed the initial parameters", before, x)
    require(len(log.calls) == res.nfev == 1 and log.calls[0] == list(res.opt_params) and res.opt_value == value_of(res.opt_params, kinds[0]), "result of the mock optimizer", res)
    require(len(res.history) == (1 if case["keep"] else 0), "history of the mock optimizer", res)


# ----- save conditions ---------------------------------------------------------------------------------------------------


@sub(st.tuples(st.integers(1, 50), st.integers(0, 10**6), small), quick=100, thorough=2000, rule="a call number that is not saved", nt=lambda c: c[1] % c[0])
def save_conditions(case):
    from zquantum.core.history.save_conditions import always, every_nth

    n, k, v = case
    require(always(v, [v], k) is True, "always")
    require(bool(every_nth(n)(v, [v], k)) is (k % n == 0), "every n-th call", n, k)
    require(bool(every_nth(n)(v, [v], k * n)), "multiples are saved")


# ----- augmentations ------------------------------------------------------------------------------------------------------


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(level=1)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))


@st.composite
def augmentation_cases(draw):
    aug = st.tuples(st.sampled_from(["effect", "effect", "log", "scale", "attr"]), conditions)
    return {
        "kind": draw(st.sampled_from(["plain", "gradient", "class", "class_gradient"])),
        "fun": draw(st.one_of(st.none(), st.lists(aug, max_size=3))),
        "grad": draw(st.one_of(st.none(), st.lists(aug, max_size=3))),
        "iterators": draw(st.booleans()),
        "steps": draw(st.lists(st.tuples(st.sampled_from(["call", "call", "gradient"]), st.lists(small, min_size=2, max_size=2)), min_size=1, max_size=8)),
    }


@sub(augmentation_cases(), quick=500, thorough=20000, rule="two or more augmentations of a function with gradient", nt=lambda c: has_gradient(c["kind"]) and len(c["fun"] or []) + len(c["grad"] or []) >= 2)
def augmentations(case):
    from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function, function_logger

    kind = case["kind"]
    log = Log()
    fn = target(kind, log, [])
    events = []
    handler = Handler()
    logger = logging.Logger("pbt", level=1)
    logger.addHandler(handler)

    class Effect(ConditionalSideEffect):
        prefix = ""

        def __init__(self, tag, function, predicate):
            super().__init__(function, predicate)
            self.tag = tag

        def _act(self, result, params):
            events.append((self.prefix + self.tag, np.array(result).tolist(), np.array(params).tolist(), self.call_number))

    class Attr:
        def __init__(self, function):
            self.function = function
            self.number = 42

        def __call__(self, x):
            return self.function(x)

    def make(spec, tag):
        what, cond = spec
        if what == "effect":
            return lambda f: Effect(tag, f, save_condition(cond, []))
        if what == "log":
            return function_logger(save_condition(cond, []), logger, 20 + len(tag), tag + " %d %s")
        if what == "attr":
            return Attr
        return lambda f: (lambda x: 2 * f(x))

    def group(specs, tag):
        return [make(s, f"{tag}{i}") for i, s in enumerate(specs)]

    fa = None if case["fun"] is None else group(case["fun"], "f")
    ga = None if case["grad"] is None else group(case["grad"], "gg")
    aug = augment_cost_function(fn, iter(fa) if fa and case["iterators"] else fa, iter(ga) if ga and case["iterators"] else ga)
    if not fa and (not ga or not has_gradient(kind)):
        require(aug is fn, "a function without augmentations is replaced")
    require(hasattr(aug, "gradient") == has_gradient(kind), "gradient exposed or not")
    label(f"{len(fa or [])} of the function, {len(ga or []) if has_gradient(kind) else 0} of the gradient")
    counts = {}
    for act, vals in case["steps"]:
        x = np.array(vals)
        if act == "gradient" and not has_gradient(kind):
            continue
        specs, tag = (case["fun"], "f") if act == "call" else (case["grad"], "gg")
        value = value_of(x, kind) if act == "call" else 2 * x + 1
        del events[:]
        del handler.records[:]
        n = (len(log.calls), len(log.gradients))
        want_e, want_l = [], []
        result = value
        for i, (what, cond) in enumerate(specs or []):
            key = f"{tag}{i}"
            if what == "scale":
                result = 2 * result
            k = counts.get(key, 0)
            counts[key] = k + 1
            if what == "effect" and saved(cond, result, x, k):
                want_e.append((key, np.array(result).tolist(), x.tolist(), k))
            if what == "log" and saved(cond, result, x, k):
                want_l.append((20 + len(key), f"{key} {k} {result}"))
        out = aug(x) if act == "call" else aug.gradient(x)
        require(np.array_equal(out, result), "value of the augmented function", act, out, result)
        require(events == want_e, "side effects", act, events, want_e)
        require(handler.records == want_l, "log messages", act, handler.records, want_l)
        require((len(log.calls), len(log.gradients)) == ((n[0] + 1, n[1]) if act == "call" else (n[0], n[1] + 1)), "calls of the function itself")
        require(x.tolist() == vals, "argument changed")
    if kind.startswith("class"):
        require(aug.info == 5, "attribute of the function")
        if case["fun"] or not case["grad"]:
            aug.info = 7
            require(fn.info == 7 and aug.info == 7, "setting an attribute of the function")
    if case["fun"] and case["fun"][-1][0] == "effect":
        del events[:]
        aug.tag = "renamed"
        aug.prefix = "and "
        aug.predicate = lambda *a: True
        aug(np.array([0.5]))
        require(events and events[-1][0] == "and renamed", "an attribute of the last augmentation set from outside", events)
        aug.extra = 3
        require(aug.extra == 3, "a new attribute")
    if any(s[0] == "attr" for s in case["fun"] or []):
        require(aug.number == 42, "attribute of the augmentation")
        if kind.startswith("class") and case["fun"][-1][0] == "attr":
            aug.number = 43
            require(aug.number == 43 and not hasattr(fn, "number"), "setting an attribute of the augmentation")


# ----- long histories -------------------------------------------------------------------------------------------------------


@sub(
    st.fixed_dictionaries({"count": st.sampled_from([65, 90, 130, 260, 520]), "cond": st.one_of(st.integers(2, 80).map(lambda k: ["every", k]), st.just(["always", 1]), st.just(["params", 0])), "kind": st.sampled_from(KINDS), "plan": plans(), "seed": st.integers(0, 10**6), "copy": st.integers(0, 500), "size": st.integers(1, 12)}),
    quick=40,
    thorough=1500,
    rule="more than 128 calls",
    nt=lambda c: c["count"] > 128,
)
def long_histories(case):
    """Hundreds of calls of a recorder, an optimizer and an augmented function."""
    from zquantum.core.cost_function_augmentations import ConditionalSideEffect, augment_cost_function
    from zquantum.core.history.recorder import recorder

    kind, cond, plan = case["kind"], case["cond"], case["plan"]
    xs = np.random.RandomState(case["seed"]).uniform(-4, 4, (case["count"], case["size"])).round(2)
    log = Log()
    rec = recorder(target(kind, log, plan), save_condition(cond, []))
    events, acted = [], []

    class Effect(ConditionalSideEffect):
        def _act(self, result, params):
            events.append((self.call_number, params.tolist(), float(np.sum(result))))

    effect = lambda f: Effect(f, save_condition(cond, []))  # noqa
    aug = augment_cost_function(target(kind if not has_artifacts(kind) else "gradient", Log(), []), [effect], [effect])
    want, gwant, grad = [], [], has_gradient(kind)
    for i, x in enumerate(xs):
        if i == case["copy"]:
            rec = copy.copy(rec)
        value = value_of(x, kind)
        stored, forced = {}, False
        if has_artifacts(kind):
            for j, (name, force) in enumerate(plan[i % len(plan)]):
                stored[name] = (i, j)
                forced = forced or bool(force)
        work = x.copy()
        require(rec(work) == value and aug(x) == value, "value", i)
        if saved(cond, value, x, i) or forced:
            want.append((i, x, value, stored))
        if saved(cond, value, x, i):
            acted.append((i, x.tolist(), value))
        if grad:
            require(np.array_equal(rec.gradient(work), 2 * x + 1), "gradient", i)
            if saved(cond, 2 * x + 1, x, i):
                gwant.append((i, x, 2 * x + 1, {}))
        if hasattr(aug, "gradient"):
            aug.gradient(x)
            if saved(cond, 2 * x + 1, x, i):
                acted.append((i, x.tolist(), float(np.sum(2 * x + 1))))
        work += 5
    require(rec.call_number == case["count"], "number of calls", rec.call_number)
    require(entries_equal(rec.history, want, has_artifacts(kind)), "history", [e.call_number for e in rec.history], [w[0] for w in want])
    if grad:
        require(entries_equal(rec.gradient.history, gwant, False), "history of the gradient")
    require(events == acted, "side effects", [e[0] for e in events], [e[0] for e in acted])
    # an optimizer with as many calls
    log = Log()
    opt = descent([("g" if i % 5 == 4 else "v", float(x[0])) for i, x in enumerate(xs)], cond)
    res = opt.minimize(target(kind, log, []), np.zeros(case["size"]), True)
    want = [(i, np.array(p), value_of(p, kind), {}) for i, p in enumerate(log.calls) if saved(cond, value_of(p, kind), p, i)]
    require(len(log.calls) + len(log.gradients) == case["count"] and res.nfev == len(log.calls), "number of calls", res.nfev)
    require(entries_equal(res.history, want, has_artifacts(kind)), "history of an optimizer")
