#!/usr/bin/env python3
"""Entry point of every check:  python3 run.py Cxx [--tier quick|thorough] [--replay FILE] [--only SUB] [--seed N]

Re-executes itself under the interpreter of the project (/opt/venv) in a scratch directory: the
repository's Python code is imported from /repo itself, data/ is a private copy, the wall clock is
moved by a constant offset to the date of the pinned commit (the certificates below data/ expired).
"""
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EPOCH = 1772020800  # 2026-02-25 12:00:00 UTC, the date of the pinned commit


def build_clock(scratch):
    """Compile the clock shim; return its path."""
    out = os.path.join(scratch, "clock.so")
    src = os.path.join(VERIF, "lib", "clock.c")
    for cc in ("gcc", "clang", "cc"):
        try:
            subprocess.run([cc, "-O2", "-shared", "-fPIC", "-o", out, src, "-ldl"], check=True, capture_output=True)
            return out
        except (OSError, subprocess.CalledProcessError):
            continue
    return "/opt/vp/clock/clock.so"


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--selftest":
        for need in (os.path.join(REPO, "resources"), os.path.join(VERIF, "lib", "harness.py")):
            if not os.path.exists(need):
                print("missing", need)
                return 2
        print("ready")
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        for name in os.listdir(REPO):
            if name not in ("data", ".git"):
                os.symlink(os.path.join(REPO, name), os.path.join(work, name))
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(work, "data"), symlinks=True)
        os.mkdir(os.path.join(scratch, "tmp"))
        env = dict(os.environ)
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "PYTEST_ADDOPTS"):
            env.pop(k, None)
        clock = build_clock(scratch)
        env.update(
            PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
            LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC",
            PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
            PYTHONPATH=os.pathsep.join([REPO, VERIF]),
            PYTHONWARNINGS="ignore",
            TMPDIR=os.path.join(scratch, "tmp"),
            VERIF_SCRATCH=scratch, VERIF_HOME=VERIF, VERIF_REPO=REPO,
            LD_PRELOAD=clock, VP_CLOCK_OFFSET=str(EPOCH - int(time.time())),
        )
        env.setdefault("VERIF_SEED", "1")
        env.setdefault("VERIF_TIER", "quick")
        py = "/opt/venv/bin/python"
        if not os.path.exists(py):
            py = sys.executable
        return subprocess.run([py, "-P", "-m", "lib.main"] + sys.argv[1:], cwd=work, env=env).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
