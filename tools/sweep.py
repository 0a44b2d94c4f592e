"""sweep.py CHECK SUB N [SEED]: run N generated cases without stopping at violations; count the distinct messages (development aid)."""
import collections
import importlib
import os
import re
import sys
import traceback

sys.path[:0] = ["/verif"]
from lib import harness  # noqa: E402,F401
from hypothesis import HealthCheck, given, seed, settings  # noqa: E402


class Ctx:
    def __init__(self):
        self.bad, self.labels = collections.Counter(), collections.Counter()

    def label(self, s, *a):
        self.labels[str(s)] += 1

    def nontrivial(self, *a):
        pass

    def op(self, *a, **k):
        pass

    def check(self, ok, msg="", key=None, **k):
        if not ok:
            self.add(msg)
        return bool(ok)

    def add(self, msg):
        self.bad[re.sub(r"[0-9a-f]{12,}|\d{4,}", "#", str(msg))[:W]] += 1

    def fail(self, msg, key=None):
        self.add(msg)
        raise harness.Skip("x")

    def eq(self, got, want, what, key=None):
        if got != want:
            self.add(f"{what}: got {str(got)[:80]} want {str(want)[:80]}")
        return got == want

    def accepts(self, what, fn, *a, key=None, **k):
        try:
            return fn(*a, **k)
        except Exception as e:  # pylint: disable=broad-except
            self.add(f"{what}: {type(e).__name__}: {str(e)[:150]}")
            raise harness.Skip("x")

    def rejects(self, what, fn, *a, exc=Exception, key=None, **k):
        try:
            r = fn(*a, **k)
        except exc:
            return None
        except Exception as e:  # pylint: disable=broad-except
            self.add(f"{what}: refused with {type(e).__name__}: {str(e)[:150]}")
            return None
        self.add(f"{what}: accepted")
        return r


W = int(os.environ.get("W", 230))
mod = importlib.import_module("checks." + sys.argv[1].lower())
sub = next(s for s in mod.SUBS if s.name == sys.argv[2])
ctx = Ctx()


@seed(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
@settings(max_examples=int(sys.argv[3]), deadline=None, database=None, suppress_health_check=list(HealthCheck))
@given(sub.strategy)
def go(case):
    try:
        sub.run(case, ctx)
    except harness.Skip:
        pass
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        f = [x for x in tb if "/verif/" not in x.filename][-1:] or tb[-1:]
        g = [x for x in tb if "/verif/" in x.filename][:1]
        ctx.add(f"ESCAPED {type(e).__name__}: {str(e)[:120]} @ {[(os.path.basename(x.filename), x.lineno) for x in g + f + tb[-3:]]}")


import logging  # noqa: E402
logging.disable(logging.CRITICAL)
go()
for k, n in ctx.bad.most_common(int(os.environ.get("N", 40))):
    print(n, k)
if os.environ.get("LABELS"):
    print(ctx.labels.most_common(60))
