"""Runs one property's sub-checks: python -m pbt.run C01 [--tier T] [--seed N] [--replay FILE].

Exit 0: held on everything explored.  1: a VIOLATION line was printed.  3: harness error.
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

T0 = time.time()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_TMP = tempfile.mkdtemp(prefix="pbtrun.")
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(_TMP, "hyp")
warnings.simplefilter("ignore")

REPO_MARK = "/repo/"


class OutOfTime(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), "big")


def fresh_random():
    import numpy as np

    random.seed(0)
    np.random.seed(0)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for fr in tb:
        if REPO_MARK in fr.filename:
            where = f" [{fr.filename}:{fr.lineno} {fr.name}]"
    text = f"{type(exc).__name__}: {exc}{where}"
    return text


def run_shard(sub, n, seed, shard, deadline, shrink_seconds, outfile):
    """Executes one shard (in a forked child) and writes its result as JSON."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from pbt import core

    res = {
        "sub": sub.name,
        "shard": shard,
        "evaluations": 0,
        "nontrivial": [],
        "samples": [],
        "labels": {},
        "excluded": {},
        "fail": None,
        "error": None,
        "out_of_time": False,
    }
    core._labels = {}
    core._excluded = {}
    hashes = set()
    state = {"fail": None, "t_fail": None, "failing": {}}

    def run_case(case):
        fresh_random()
        res["evaluations"] += 1
        if sub.nt(case):
            d = digest(case)
            if d not in hashes:
                hashes.add(d)
                if len(res["samples"]) < 2 and len(hashes) % 7 == 3:
                    res["samples"].append(case)
        sub.check(case)

    t_start = time.time()
    try:
        if shard == 0:
            for case in sub.examples:
                case = json.loads(json.dumps(case))
                try:
                    run_case(case)
                except Exception as e:
                    state["fail"] = (case, describe(e))
                    raise

        def body(case):
            now = time.time()
            if state["fail"] is None and now > deadline:
                res["out_of_time"] = True
                raise OutOfTime()
            key = None
            case = json.loads(json.dumps(case))
            if state["t_fail"] is not None and now - state["t_fail"] > shrink_seconds:
                # stop shrinking: only already known failures fail from here on
                key = canon(case)
                if key not in state["failing"]:
                    return
                raise state["failing"][key]
            try:
                run_case(case)
            except Exception as e:
                if state["t_fail"] is None:
                    state["t_fail"] = now
                if type(e).__module__.startswith("hypothesis"):
                    raise
                state["failing"][canon(case)] = e
                state["fail"] = (case, describe(e))
                raise

        strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
        test = hypothesis.seed(seed)(
            settings(
                max_examples=n,
                database=None,
                deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                print_blob=False,
            )(given(strategy)(body))
        )
        test()
    except OutOfTime:
        pass
    except BaseException as e:
        if state["fail"] is not None and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            res["fail"] = {"case": state["fail"][0], "message": state["fail"][1]}
            res["trace"] = traceback.format_exc()[-6000:]
        else:
            res["error"] = traceback.format_exc()[-6000:]
    res["nontrivial"] = sorted(hashes)
    res["labels"] = core._labels
    res["excluded"] = core._excluded
    res["wall"] = time.time() - t_start
    with open(outfile + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(outfile + ".tmp", outfile)


def fork_run(fn):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 1
    try:
        d = tempfile.mkdtemp(prefix="w.", dir=_TMP)
        os.chdir(d)
        tempfile.tempdir = d
        os.environ["TMPDIR"] = d
        os.setpgid(0, 0)
        fn()
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="keep going after a violation")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("PBT_SCALE", "1")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--evidence", default=None)
    args = ap.parse_args()
    pid = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"

    from pbt import core

    importlib.import_module("checks." + pid.lower())
    subs = list(core.SUBS)
    if args.only:
        subs = [s for s in subs if s.name in args.only.split(",")]
    by_name = {s.name: s for s in subs}
    if not subs:
        print("no sub-checks", file=sys.stderr)
        return 3

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        s = by_name[rep["sub"]]
        os.chdir(_TMP)
        fresh_random()
        try:
            s.check(rep["case"])
        except Exception as e:
            traceback.print_exc()
            print(describe(e))
            print(f"VIOLATION property={pid} replay={os.path.abspath(args.replay)}")
            return 1
        print("replay passed")
        return 0

    budget = args.budget or (330.0 if tier == "quick" else 3000.0)
    deadline = T0 + budget
    hard = deadline + 420
    shrink_seconds = 45 if tier == "quick" else 120
    tasks = []
    for s in subs:
        n = max(1, int(round((s.quick if tier == "quick" else s.thorough) * args.scale)))
        shards = s.shards or (2 if tier == "quick" else 8)
        if tier == "thorough":
            shards = max(shards, 8)
        shards = max(1, min(shards, n // 5 or 1))
        for k in range(shards):
            m = n // shards + (1 if k < n % shards else 0)
            tasks.append((k, s, m))
    tasks.sort(key=lambda t: t[0])
    running = {}
    results = []
    errors = []
    violations = []
    i = 0
    stop = False
    while running or (i < len(tasks) and not stop):
        while i < len(tasks) and len(running) < args.jobs and not stop:
            k, s, m = tasks[i]
            out = os.path.join(_TMP, f"r{i}.json")
            seed = derive_seed(args.seed, pid, s.name, k, tier)
            cpid = fork_run(lambda: run_shard(s, m, seed, k, deadline, shrink_seconds, out))
            running[cpid] = (s, k, out)
            i += 1
        try:
            cpid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            cpid = 0
        if cpid == 0:
            time.sleep(0.02)
            if time.time() > hard:
                for c in running:
                    try:
                        os.killpg(c, signal.SIGKILL)
                    except OSError:
                        pass
                errors.append("hard time limit reached in " + ",".join(f"{r[0].name}/{r[1]}" for r in running.values()))
                break
            continue
        if cpid not in running:
            continue
        s, k, out = running.pop(cpid)
        if not os.path.exists(out):
            errors.append(f"{s.name}/{k}: worker died with status {status}")
            continue
        with open(out) as f:
            r = json.load(f)
        results.append(r)
        if r["error"]:
            errors.append(f"{s.name}/{k}: {r['error']}")
        if r["fail"]:
            violations.append(r)
            if not args.all:
                stop = True
                for c in running:
                    try:
                        os.killpg(c, signal.SIGKILL)
                    except OSError:
                        pass
                for c in list(running):
                    try:
                        os.waitpid(c, 0)
                    except OSError:
                        pass
                running = {}

    # one violation per sub-check: the smallest replay
    best = {}
    for r in violations:
        cur = best.get(r["sub"])
        if cur is None or len(canon(r["fail"]["case"])) < len(canon(cur["fail"]["case"])):
            best[r["sub"]] = r
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    lines = []
    for name, r in sorted(best.items()):
        case = r["fail"]["case"]
        path = os.path.join(ROOT, "replays", f"{pid}-{name}-{digest(case)}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "sub": name, "case": case, "message": r["fail"]["message"], "seed": args.seed, "tier": tier},
                f,
                indent=1,
            )
        print(f"--- {pid}/{name}: {r['fail']['message']}")
        print("    case: " + canon(case)[:1500])
        lines.append(f"VIOLATION property={pid} replay={path}")

    # evidence
    total = 0
    nontrivial = 0
    per = {}
    samples = []
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        ev = sum(r["evaluations"] for r in rs)
        hs = set()
        labels = {}
        excl = {}
        for r in rs:
            hs.update(r["nontrivial"])
            for k2, v in r["labels"].items():
                labels[k2] = labels.get(k2, 0) + v
            for k2, v in r["excluded"].items():
                excl[k2] = excl.get(k2, 0) + v
        smp = [x for r in rs for x in r["samples"]][:1]
        for x in smp:
            samples.append({"sub": s.name, "case": x})
        per[s.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(hs),
            "rule": s.rule,
            "labels": dict(sorted(labels.items())),
            "excluded_known": excl,
            "out_of_time": any(r["out_of_time"] for r in rs),
            "cpu_s": round(sum(r.get("wall", 0) for r in rs), 2),
        }
        total += ev
        nontrivial += len(hs)
    wall = time.time() - T0
    findings = load_findings(pid)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": nontrivial,
            "rule": "cases are drawn by Hypothesis strategies (seeded from VERIF_SEED) per sub-check; non-trivial per sub-check: "
            + "; ".join(f"{s.name}: {s.rule or 'every case'}" for s in subs),
            "samples": samples[:12],
            "sub_checks": per,
        },
        "assumptions": getattr(sys.modules.get("checks." + pid.lower()), "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(best),
    }
    evpath = args.evidence or os.path.join(ROOT, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    with open(evpath, "w") as f:
        json.dump(evidence, f, indent=1)
    for name, d in per.items():
        print(
            f"  {pid}/{name}: {d['evaluations']} cases, {d['distinct_nontrivial']} non-trivial, {d['cpu_s']} s"
            + (" OUT-OF-TIME" if d["out_of_time"] else "")
            + (f" {d['labels']}" if d["labels"] and os.environ.get("PBT_LABELS") else "")
        )
    print(f"{pid}: {total} cases, {nontrivial} distinct non-trivial, {wall:.1f} s, tier {tier}, seed {args.seed}")
    for e in errors:
        print("HARNESS-ERROR " + e, file=sys.stderr)
    for line in lines:
        print(line)
    if lines:
        return 1
    for fid, text in findings:
        print(f"KNOWN-FINDING: property={pid} {text}")
    if errors:
        return 3
    empty = [n for n, d in per.items() if d["evaluations"] == 0]
    if empty:
        print("HARNESS-ERROR no cases in " + ",".join(empty), file=sys.stderr)
        return 3
    return 0


def load_findings(pid):
    """Known findings of this property: lines `KNOWN <id> property=<pid> <what fails>`."""
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(None, 3)
            if len(parts) == 4 and parts[0] == "KNOWN" and parts[2] == f"property={pid}":
                out.append((parts[1], parts[3]))
    return out


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 3
    finally:
        os.chdir("/")
        shutil.rmtree(_TMP, ignore_errors=True)
    sys.exit(rc)
