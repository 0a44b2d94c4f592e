"""Create seeded bugs from a spec file: python3 tools/plant.py SPEC.py [id...]

SPEC.py defines BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)...], demo=str)].
Works in a copy of /repo under /tmp/plant; leaves /repo alone.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])["BUGS"]
only = set(sys.argv[2:])
W = pathlib.Path("/tmp/plant")
if W.exists():
    shutil.rmtree("/tmp/plant")
subprocess.run(["git", "clone", "-q", "/repo", str(W)], check=True)
SEED = pathlib.Path("/verif/seeded")
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/bin:/bin PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python "$D/demo.py"
'''
for b in spec:
    if only and b["id"] not in only:
        continue
    d = SEED / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    for f, old, new in b["edits"]:
        p = W / f
        s = p.read_text()
        if s.count(old) != 1:
            print(b["id"], f, "count", s.count(old)); break
        p.write_text(s.replace(old, new))
    else:
        diff = subprocess.run(["git", "-C", str(W), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(SH)
        os.chmod(d / "demo.sh", 0o755)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        bad = subprocess.run(["bash", str(d / "demo.sh")], cwd=W, capture_output=True, text=True)
        subprocess.run(["git", "-C", str(W), "checkout", "-q", "--", "."], check=True)
        good = subprocess.run(["bash", str(d / "demo.sh")], cwd=W, capture_output=True, text=True)
        print(b["id"], "patched", bad.returncode, bad.stderr.strip().split("\n")[-1][-150:], "| unpatched", good.returncode, good.stderr.strip()[-300:] if good.returncode else "")
        continue
    subprocess.run(["git", "-C", str(W), "checkout", "-q", "--", "."], check=True)
shutil.rmtree("/tmp/plant")
