"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=i, reason="The check for this property is not built yet, so it is not claimed."))
        continue
    src = open(path, encoding="utf-8").read()
    tech = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    note = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
    checks.append(dict(
        property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique="property-based testing (Hypothesis): " + (tech.group(1) if tech else "generated cases against an explicit oracle"),
        level="exploration",
        level_note=(note.group(1) if note else "Generated-input search; shows no violation on the cases explored, proves nothing beyond them.")))
m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=checks, not_applicable=na,
         notes="Every check re-imports /repo's working tree in a private scratch directory under the project's own interpreter. No hooks in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
print(len(checks), "claimed,", len(na), "not")
