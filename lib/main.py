"""Command line of a check (see run.py)."""
import argparse
import importlib
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from lib import harness
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
    except Exception as e:  # pylint: disable=broad-except
        traceback.print_exc()
        return 2
    if a.replay:
        return harness.replay(mod, a.replay)
    return harness.run_check(mod, tier, a.seed, only=a.only, scale=a.scale, jobs=a.jobs)


if __name__ == "__main__":
    sys.exit(main())
