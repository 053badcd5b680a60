"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = "Held on every generated case; assurance is statistical over the stated generators and bounds, trusts the numpy oracles in pbt/ref.py and the check's own model, and runs under PyPy 3.9 with the sandbox's library versions."
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(ROOT, "checks", i.lower() + ".py")
    if os.path.exists(path):
        doc = open(path).read().split('"""')[1].strip()
        tech = [l for l in open(path) if l.startswith("TECHNIQUE = ")]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bash check.sh {i}",
                "thorough_cmd": f"bash check.sh {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": json.loads(tech[0].split("=", 1)[1]) if tech else "property-based testing (Hypothesis): generated inputs against an independent reference model",
                "level": "exploration",
                "level_note": NOTE,
            }
        )
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks observe public behaviour. /repo carries only 'fix:' commits, listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
