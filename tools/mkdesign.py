"""Write DESIGN.md from the check modules, properties.jsonl, the evidence of the last run and tools/design_notes.py (development aid)."""
import glob
import importlib
import json
import os
import sys

sys.path[:0] = ["/verif"]
from lib import harness  # noqa: E402,F401
from tools.design_notes import HEAD, NOTES, TAIL  # noqa: E402

NOT = {x["property"]: x["reason"] for x in json.load(open("/verif/MANIFEST.json"))["not_applicable"]} if os.path.exists("/verif/MANIFEST.json") else {}
out = [HEAD, "\n## The properties, one by one\n\nColumns of the sub-checks: name, generated cases quick / thorough.\n"]
for line in open("/verif/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    out.append(f"\n### {pid} {p['title']}\n")
    try:
        m = importlib.import_module("checks." + pid.lower())
    except ImportError:
        out.append(f"Not claimed: {NOT.get(pid, 'not covered')}\n")
        continue
    ev = {}
    if os.path.exists(f"/verif/evidence/{pid}.json"):
        ev = json.load(open(f"/verif/evidence/{pid}.json"))
    out.append(f"* Decided by: {m.TECHNIQUE}.")
    out.append(f"* Generated and counted: {m.RULE.rstrip('.')}.")
    out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}")
    for s in m.SUBS:
        out.append(f"  * `{s.name}` ({s.quick} / {s.thorough}): {s.text or ''}")
    lim = [a.rstrip(".") for a in m.ASSUMPTIONS] + ([NOTES[pid].rstrip(".")] if pid in NOTES else [])
    if lim:
        out.append("* Left open / out of domain / assumed: " + ". ".join(x[:1].upper() + x[1:] for x in lim) + ".")
    w = ev.get("wall_s")
    if w:
        out.append(f"* Cost: about {w:.0f} s (quick, 8 cores).")
rows = []
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"* `{f.split('/')[-2]}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. Caught by the check of {m['property']}.")
n = len(json.load(open("/verif/known_findings.json"))["fixed"])
out.append("\n" + TAIL % ("\n".join(rows), n))
open("/verif/DESIGN.md", "w").write("\n".join(out) + "\n")
