"""Property-check harness: generated cases -> executable check -> shrink -> replay file -> evidence.

A check module (checks/cNN.py) declares

    PROPERTY = "C01"
    RULE     = "text for the evidence file: how cases are made, what makes one non-trivial"
    SUBS     = [Sub(name, strategy, run, quick=N, thorough=M), ...]

`strategy` builds plain data (dict / list / str / int / bool / None / bytes), so every case can be
written to a replay file; `run(case, ctx)` executes the code of /repo on it and raises Violation (through
ctx.fail / ctx.check) when the property is broken. An exception that escapes from /repo's own code is a
violation too; any other exception is an error of the harness (exit 2).
"""
import functools
import hashlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

VERIF = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")

try:
    import hypothesis  # noqa: F401
except ImportError:  # the project's venv has no hypothesis: take the tool venv's (same Python)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st  # noqa: F401

#: CPU seconds one case may use. Ordinary cases need well below two; this only ends endless loops.
CASE_CPU_LIMIT = 180
#: wall-clock seconds spent on shrinking one failure
SHRINK_BUDGET = {"quick": 40, "thorough": 120}


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(Exception):
    """One case used more CPU time than CASE_CPU_LIMIT."""


class Skip(Exception):
    """The case lies outside the domain of the property (counted, never silently dropped)."""


class Sub:
    """One generated sub-check of a property."""

    def __init__(self, name, strategy, run, quick=100, thorough=None, shards=1, text="", examples=(), stateful=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.shards = shards
        self.text = text
        self.examples = list(examples)


def enc(o):
    """Plain data -> JSON-able data."""
    if isinstance(o, bytes):
        return {"__hex__": o.hex()}
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def dec(o):
    """Inverse of enc."""
    if isinstance(o, dict):
        if set(o) == {"__hex__"}:
            return bytes.fromhex(o["__hex__"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def case_hash(case):
    return hashlib.sha256(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:16]


class DetRandom:
    """Seeded stand-in for os.urandom, so a case replays with the same nonces and salts."""

    def __init__(self):
        self.rng = random.Random(0)

    def seed(self, text):
        self.rng = random.Random(text)
        random.seed(text)

    def __call__(self, n):
        return self.rng.randbytes(n)


DET = DetRandom()
REAL_URANDOM = os.urandom
os.urandom = DET
random._urandom = DET  # what random.SystemRandom and secrets draw from


class Ctx:
    """Per-case context: classification and failure reporting."""

    def __init__(self, prop, sub, known, tier):
        self.prop, self.sub, self.tier = prop, sub, tier
        self.known = known
        self.labels = {}
        self.known_hits = {}
        self.nontriv = False
        self.ops = 0

    def label(self, *names):
        for n in names:
            self.labels[str(n)] = self.labels.get(str(n), 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def op(self, n=1):
        """Count n evaluations of the oracle inside one case (mutations, steps of a history)."""
        self.ops += n

    def fail(self, msg, key=None):
        """Report a violation; `key` identifies it for the known-findings file."""
        if key is not None and key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def eq(self, got, want, what, key=None):
        if got != want:
            self.fail(f"{what}: got {short(got)}, expected {short(want)}", key)
        return got == want

    def accepts(self, what, fn, *a, key=None, **k):
        """fn(*a, **k) must not raise; return its value."""
        try:
            return fn(*a, **k)
        except (Violation, CaseTimeout, Skip):
            raise
        except BaseException as e:  # pylint: disable=broad-except
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            self.fail(f"{what}: must succeed, but raised {type(e).__name__}: {short(str(e), 400)} at {where(e)}", key)
            return None

    def rejects(self, what, fn, *a, exc=Exception, key=None, **k):
        """fn(*a, **k) must raise an instance of exc; return the exception (None for a known finding)."""
        try:
            r = fn(*a, **k)
        except (Violation, CaseTimeout, Skip):
            raise
        except exc as e:
            return e
        except Exception as e:  # pylint: disable=broad-except
            self.fail(f"{what}: rejected with {type(e).__name__}({short(str(e), 200)}) at {where(e)} instead of {exc}", key)
            return e
        self.fail(f"{what}: must be rejected, but was accepted (returned {short(r)})", key)
        return None


def short(x, n=200):
    try:
        s = x if isinstance(x, str) else (x.hex() if isinstance(x, bytes) else repr(x))
    except Exception:  # pylint: disable=broad-except
        s = f"<{type(x).__name__}>"
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(REPO + "/"):
            return f"{os.path.relpath(f.filename, REPO)}:{f.name}"
    return f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"


def from_repo(e):
    while e is not None:
        for f in traceback.extract_tb(e.__traceback__):
            if f.filename.startswith(REPO + "/"):
                return True
        e = e.__cause__
    return False


def _on_cpu(_s, _f):
    raise CaseTimeout(f"case used more than {CASE_CPU_LIMIT} s of CPU time")


def run_case(prop, sub, case, known, tier):
    """Run one case; return (ctx, error) where error is None, a Violation, or a harness exception."""
    ctx = Ctx(prop, sub.name, known, tier)
    DET.seed(prop + sub.name + case_hash(case))
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        sub.run(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, e
    except Skip:
        ctx.label("skipped")
        return ctx, None
    except CaseTimeout as e:
        return ctx, Violation(f"no answer: {e}")
    except (hypothesis.errors.HypothesisException, KeyboardInterrupt):
        raise
    except Exception as e:  # pylint: disable=broad-except
        if from_repo(e):
            tbs = traceback.format_exception(type(e), e, e.__traceback__)
            v = Violation(f"unexpected {type(e).__name__}: {short(str(e), 400)} at {where(e)}\n" + "".join(tbs)[-3000:],
                          key=f"exc:{type(e).__name__}:{where(e)}")
            if v.key in known:
                ctx.known_hits[v.key] = 1
                return ctx, None
            return ctx, v
        return ctx, e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Found(Exception):
    """Carries a failure out of Hypothesis."""


def worker_dir(ident):
    """A private working directory, because the code under test writes below ./data."""
    path = os.path.join(SCRATCH, f"w-{ident}")
    if not os.path.isdir(path):
        os.makedirs(path)
        for name in os.listdir(REPO):
            if name not in ("data", ".git"):
                os.symlink(os.path.join(REPO, name), os.path.join(path, name))
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(path, "data"), symlinks=True)
    os.chdir(path)
    return path


def _mutations(on, _orig=[]):
    """Hypothesis' mutation phase repeats parts of earlier cases, which starves small samples of variety: only some shards use it."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if not _orig:
        _orig.append(ConjectureRunner.generate_mutations_from)
    ConjectureRunner.generate_mutations_from = _orig[0] if on else lambda self, data: None


def run_sub(prop, sub, shard, nshards, n, seed, known, tier, deadline, stop=None):
    """Drive one shard of one sub-check; return its result record."""
    res = dict(sub=sub.name, shard=shard, planned=n, ran=0, unrun=0, ops=0, labels={}, hashes={}, samples=[],
               known={}, failure=None, error=None, wall=0.0)
    t0 = time.monotonic()
    best = {}

    def one(case):
        if stop is not None and stop.value and not best:
            return  # another shard of this sub-check has failed already
        if time.monotonic() > deadline and not best:
            res["unrun"] += 1
            return
        if best and time.monotonic() > best["t"] + SHRINK_BUDGET[tier]:
            return
        ctx, err = run_case(prop, sub, case, known, tier)
        if not best:
            res["ran"] += 1
            res["ops"] += max(ctx.ops, 1)
            for k, v in ctx.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            for k, v in ctx.known_hits.items():
                res["known"][k] = res["known"].get(k, 0) + v
            if ctx.nontriv:
                h = case_hash(case)
                if h not in res["hashes"]:
                    res["hashes"][h] = 1
                    if len(res["samples"]) < 2:
                        res["samples"].append(enc(case))
        if err is None:
            return
        if not isinstance(err, Violation):
            tb = "".join(traceback.format_exception(type(err), err, err.__traceback__))
            res["error"] = f"case {json.dumps(enc(case))[:2000]}\n{tb}"
            raise Found("harness error")
        size = len(json.dumps(enc(case)))
        if not best or size <= best["size"]:
            best.update(size=size, case=enc(case), msg=str(err), key=err.key, t=best.get("t", time.monotonic()))
            if stop is not None:
                stop.value = 1
        raise Found(str(err)[:200])

    try:
        for ex in sub.examples[shard::nshards]:
            one(ex)
        if n > 0 and sub.strategy is not None:
            _mutations(on=n > 400 and shard % 3 == 2)
            test = given(sub.strategy)(one)
            test = hypothesis.seed(f"{seed}/{prop}/{sub.name}/{shard}")(test)
            test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(test)
            test()
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not best and not res["error"]:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    if best:
        res["error"] = None
        res["failure"] = {k: best[k] for k in ("case", "msg", "key")}
    res["wall"] = time.monotonic() - t0
    return res


def _proc_main(ident, conn, args):
    """Body of a worker process."""
    signal.signal(signal.SIGPROF, _on_cpu)
    try:
        worker_dir(ident)
        while True:
            conn.send(("next", None))
            task = conn.recv()
            if task is None:
                return
            sub, shard, nshards, n = task
            sub = args["subs"][sub]
            conn.send(("done", run_sub(args["prop"], sub, shard, nshards, n, args["seed"], args["known"],
                                       args["tier"], args["deadline"], args["stop"][sub.name])))
    except BaseException:  # pylint: disable=broad-except
        try:
            conn.send(("crash", traceback.format_exc()))
        except OSError:
            pass


def load_known(prop):
    """Keys of the recorded findings of one property."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return {x["key"]: x for x in data.get("findings", []) if x["property"] == prop}


def replay(mod, path):
    """Re-run one saved case, without Hypothesis."""
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    signal.signal(signal.SIGPROF, _on_cpu)
    worker_dir("replay")
    ctx, err = run_case(mod.PROPERTY, sub, dec(rec["case"]), load_known(mod.PROPERTY), "quick")
    print("labels:", ctx.labels)
    if err is None:
        print("replay: the property holds on this case")
        return 0
    if isinstance(err, Violation):
        print(f"replay: {err}")
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    traceback.print_exception(type(err), err, err.__traceback__)
    return 2


def run_check(mod, tier, seed, only=None, scale=1.0, jobs=8):
    """Run every sub-check of one property; write evidence; return the exit code."""
    t0 = time.monotonic()
    prop = mod.PROPERTY
    known = load_known(prop)
    subs = {s.name: s for s in mod.SUBS if only is None or s.name in only}
    budget = {"quick": float(os.environ.get("VERIF_BUDGET_S", "300")),
              "thorough": float(os.environ.get("VERIF_THOROUGH_S", "3000"))}[tier]
    hard = t0 + budget + SHRINK_BUDGET[tier] + CASE_CPU_LIMIT + 60
    tasks = []
    for name, s in subs.items():
        n = int((s.quick if tier == "quick" else s.thorough) * scale)
        sh = min(s.shards if tier == "quick" else max(s.shards, min(8, n // 20 or 1)), max(1, n))
        for i in range(sh):
            tasks.append((name, i, sh, n // sh + (1 if i < n % sh else 0)))
    args = dict(prop=prop, subs=subs, seed=seed, known=set(known), tier=tier, deadline=t0 + budget)
    mp = multiprocessing.get_context("fork")
    args["stop"] = {name: mp.Value("i", 0) for name in subs}
    workers, results, errors = {}, [], []
    queue = list(tasks)
    for i in range(min(jobs, len(tasks))):
        a, b = mp.Pipe()
        p = mp.Process(target=_proc_main, args=(i, b, args), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None]
    while workers:
        ready = multiprocessing.connection.wait(list(workers), timeout=5)
        if time.monotonic() > hard:
            for c, (p, t) in workers.items():
                p.kill()
                errors.append(f"worker stopped at the hard limit in {t}")
            break
        for c in ready:
            try:
                kind, val = c.recv()
            except EOFError:
                errors.append(f"worker died in {workers[c][1]} (exit {workers[c][0].exitcode})")
                del workers[c]
                continue
            if kind == "next":
                if queue:
                    t = queue.pop(0)
                    workers[c][1] = t
                    c.send(t)
                else:
                    c.send(None)
                    workers[c][0].join(10)
                    del workers[c]
            elif kind == "done":
                results.append(val)
                if val["error"]:
                    errors.append(val["error"])
            else:
                errors.append(val)
                del workers[c]
    code = 0
    evals = sum(r["ran"] for r in results)
    hashes = {(r["sub"], h) for r in results for h in r["hashes"]}
    per = {}
    for r in results:
        d = per.setdefault(r["sub"], dict(cases=0, oracle_evaluations=0, distinct_nontrivial=0, not_run_budget=0,
                                          classes={}, wall_s=0.0, text=subs[r["sub"]].text))
        d["cases"] += r["ran"]
        d["oracle_evaluations"] += r["ops"]
        d["not_run_budget"] += r["unrun"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            d["classes"][k] = d["classes"].get(k, 0) + v
    for s, _h in hashes:
        per[s]["distinct_nontrivial"] += 1
    for d in per.values():
        d["classes"] = dict(sorted(d["classes"].items()))
    seen_known = {}
    for r in results:
        for k, v in r["known"].items():
            seen_known[k] = seen_known.get(k, 0) + v
    fails = [r for r in results if r["failure"]]
    for k, v in known.items():
        if k in seen_known:
            print(f"KNOWN-FINDING: property={prop} {v['what']} (seen {seen_known[k]}x)")
    samples, cnt = [], {}
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        for s in r["samples"]:
            if cnt.get(r["sub"], 0) < 1:
                cnt[r["sub"]] = cnt.get(r["sub"], 0) + 1
                txt = json.dumps(s)
                samples.append({"sub": r["sub"], "case": s if len(txt) < 3000 else txt[:3000]})
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=mod.RULE, samples=samples,
                            oracle_evaluations=sum(r["ops"] for r in results),
                            not_run_budget=sum(r["unrun"] for r in results), subchecks=per,
                            known_findings_seen=seen_known),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(time.monotonic() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    if fails:
        code = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        shown = set()
        for r in sorted(fails, key=lambda r: (r["sub"], len(json.dumps(r["failure"]["case"])))):
            rp = os.path.join(VERIF, "evidence", "replay", f"{prop}-{r['sub']}-{r['shard']}.json")
            with open(rp, "w", encoding="utf-8") as f:
                json.dump(dict(property=prop, sub=r["sub"], case=r["failure"]["case"], message=r["failure"]["msg"],
                               key=r["failure"]["key"], seed=seed, tier=tier), f, indent=1)
            if r["sub"] in shown:
                continue
            shown.add(r["sub"])
            msg = r["failure"]["msg"]
            head, _, tb = msg.partition("\n")
            print(f"--- {prop} / {r['sub']}: {head[:500]}" + ("\n" + tb[-600:] if tb else ""))
            print(f"    key: {r['failure']['key']}  case: {json.dumps(r['failure']['case'])[:400]}")
            print(f"VIOLATION property={prop} replay={rp}")
    uniq = {}
    for e in errors:
        uniq.setdefault(str(e)[-300:], str(e))
    for e in list(uniq.values())[:3]:
        print("HARNESS ERROR:", e[:300], "...", e[-900:])
    if errors and not fails:
        code = 2
    un = sum(r["unrun"] for r in results)
    print(f"{prop} {tier} seed={seed}: {evals} cases, {len(hashes)} distinct non-trivial, "
          f"{sum(r['ops'] for r in results)} oracle evaluations, {len(fails)} violation(s), {len(errors)} error(s), "
          f"{un} not run for budget, {ev['wall_s']} s")
    return code
