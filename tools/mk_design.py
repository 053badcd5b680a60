"""Writes DESIGN.md.  Run with the PyPy interpreter (imports the check modules)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import design_text as T
from pbt import core

with open(os.path.join(ROOT, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f]
out = [T.HEAD, "## 3. The properties\n\n"]
for p in props:
    i = p["id"]
    core.SUBS.clear()
    mod = importlib.import_module("checks." + i.lower())
    out.append(f"### {i}: {p['title']}\n\n{T.S[i]}\n\n")
    out.append("| sub-check | quick | thorough | non-trivial when |\n|---|---|---|---|\n")
    for s in core.SUBS:
        out.append(f"| {s.name} | {s.quick} | {s.thorough} | {s.rule.replace('|', '/')} |\n")
    assume = getattr(mod, "ASSUMPTIONS", None)
    if assume:
        out.append("\nAssumptions and bounds: " + "; ".join(assume) + ".\n")
    out.append("\n")
out.append(T.TAIL)
out.append("| bug | property and check | what it breaks | what it needs |\n|---|---|---|---|\n")
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    path = os.path.join(ROOT, "seeded", b, "meta.json")
    if os.path.exists(path):
        with open(path) as f:
            m = json.load(f)
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n")
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("".join(out))
print(len("".join(out)))
