"""Plants bugs: python3 tools/plant.py SPECS.py [ID...]

SPECS.py defines BUGS, a list of dicts {id, property, edits: [(file, old, new), ...], needs, breaks, demo}.
Each bug is applied to a scratch copy of /repo, which is mounted over /repo in a namespace of its own; there
the build, the stable tests, the demonstration (on the patched and the unchanged tree) and the quick check of
its property (or those given by CHECKS=C01,C02) run. What is confirmed goes to /verif/seeded/<id>/.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
DEMO_SH = '#!/bin/bash\n. /opt/vp/env.sh\nexec "$PY" "$(dirname "$0")/demo.py"\n'


def ns(tree, command, verif=None, timeout=1500):
    mounts = f"mount --bind {tree} /repo"
    if verif:
        mounts += f" && mount --bind {verif} /verif"
    return subprocess.run(["timeout", str(timeout), "unshare", "-Urm", "bash", "-c", f"{mounts} && cd /repo && {command}"], capture_output=True, text=True)


def original_lines(diff, base="1839962"):
    """Numbers of removed lines which the original repository has, and which it has not."""
    old, new, name, number = 0, 0, None, 0
    blames = {}
    for line in diff.splitlines():
        if line.startswith("--- "):
            name = line[6:]
            if name not in blames:
                r = subprocess.run(["git", "-C", "/repo", "blame", "-s", f"{base}..HEAD", "--", name], capture_output=True, text=True)
                blames[name] = r.stdout.splitlines()
        elif line.startswith("@@"):
            number = int(line.split()[1][1:].split(",")[0])
        elif line.startswith("-"):
            if blames[name][number - 1].startswith("^"):
                old += 1
            else:
                new += 1
            number += 1
        elif line.startswith(" "):
            number += 1
    return old, new


def run_checks(tree, verif, checks):
    log = []
    os.makedirs(verif)
    for item in ("checks", "pbt", "check.sh", "known_findings.txt", "properties.jsonl", "MANIFEST.json", "tools"):
        subprocess.run(["cp", "-a", f"{HERE}/{item}", verif], check=True)
    for check in checks.split(","):
        r = ns(tree, f"bash /verif/check.sh {check} --seed 1 --tier quick", verif)
        hit = [line for line in r.stdout.splitlines() if line.startswith("VIOLATION")]
        log.append(f"   {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'} by {check}: exit {r.returncode} {[h.split('/')[-1] for h in hit]}")
    return log


def plant(bug):
    bid = bug["id"]
    tree, verif, out = f"{WT}/{bid}", f"{WT}/{bid}.verif", f"{HERE}/seeded/{bid}"
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(verif, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    log = [f"== {bid} ({bug['property']})"]
    try:
        for name, old, new in bug["edits"]:
            path = f"{tree}/{name}"
            with open(path) as f:
                text = f.read()
            if text.count(old) != 1:
                return "\n".join(log + [f"   BAD EDIT: {text.count(old)} occurrences in {name}: {old[:60]!r}"])
            with open(path, "w") as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", tree, "diff"], capture_output=True, text=True).stdout
        old, new = original_lines(diff)
        if (new or not old) and os.environ.get("LOOSE") != "1":
            return "\n".join(log + [f"   CHANGES {old} original lines and {new} others"])
        os.makedirs(out, exist_ok=True)
        with open(f"{out}/patch.diff", "w") as f:
            f.write(diff)
        with open(f"{out}/demo.py", "w") as f:
            f.write(bug["demo"].strip() + "\n")
        with open(f"{out}/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        with open(f"{out}/meta.json", "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        ok = True
        r = subprocess.run(["bash", f"{out}/demo.sh"], capture_output=True, text=True, cwd="/repo")
        if r.returncode:
            ok = False
            log.append(f"   DEMO FAILS ON THE UNCHANGED TREE: {r.stderr[-600:]}")
        r = ns(tree, f"bash {out}/demo.sh")
        log.append(f"   demo with the bug: exit {r.returncode} {r.stderr.strip().splitlines()[-1:]}")
        ok = ok and r.returncode != 0
        if os.environ.get("NOTEST") != "1":
            r = ns(tree, f"bash /opt/vp/test.sh {WT}/{bid}.json")
            with open(f"{WT}/{bid}.json") as f:
                passed = set(json.load(f)["passed"])
            with open("/opt/vp/BASELINE.json") as f:
                missing = sorted(set(json.load(f)["stable"]) - passed)
            if missing:
                ok = False
                log.append(f"   TESTS FAIL: {len(missing)} {missing[:3]}")
            os.remove(f"{WT}/{bid}.json")
        log += run_checks(tree, verif, os.environ.get("CHECKS", bug["property"]))
        if not ok:
            log.append("   NOT KEPT" if os.environ.get("KEEP") != "1" else "   kept anyhow")
            if os.environ.get("KEEP") != "1":
                shutil.rmtree(out)
        else:
            log.append("   CONFIRMED")
        return "\n".join(log)
    except Exception as e:
        return "\n".join(log + [f"   ERROR {e!r}"])
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(verif, ignore_errors=True)


def recheck(bid):
    """Runs the checks again on a bug already confirmed."""
    tree, verif, out = f"{WT}/{bid}", f"{WT}/{bid}.verif", f"{HERE}/seeded/{bid}"
    shutil.rmtree(tree, ignore_errors=True)
    shutil.rmtree(verif, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    try:
        subprocess.run(["git", "-C", tree, "apply", f"{out}/patch.diff"], check=True)
        return "\n".join([f"== {bid}"] + run_checks(tree, verif, os.environ.get("CHECKS", json.load(open(f"{out}/meta.json"))["property"])))
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(verif, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(WT, exist_ok=True)
    if sys.argv[1] == "--recheck":
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as pool:
            for text in pool.map(recheck, sys.argv[2:] or sorted(os.listdir(f"{HERE}/seeded"))):
                print(text, flush=True)
        sys.exit()
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as pool:
        for text in pool.map(plant, bugs):
            print(text, flush=True)
