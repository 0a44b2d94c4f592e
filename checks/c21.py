"""C21: the life cycle of certificates at the Mock CA is a simple state machine."""
import hashlib

from hypothesis import strategies as st

from checks.c11 import Cert
from checks.c20 import serial
from lib import der as D, mca as M, mreq as R, pki
from lib.harness import Sub
from lib.mca import Party, Prot

PROPERTY = "C21"
TECHNIQUE = "stateful property-based testing: generated histories of enrolments, confirmations, updates, revocations and revivals sent as messages assembled without the suite, against a state machine kept by the check; every certificate is tried at the end"
RULE = "the history revokes, revives or updates at least one certificate and later acts on it again"
ASSUMPTIONS = ["the waiting time for an unconfirmed update is set far away (or to zero in its own check), so that verdicts do not depend on the speed of the machine"]

NEW, OK, REV, UPD, HALF = "not confirmed", "usable", "revoked", "updated", "update not confirmed"
KEYS = R.KEYS
CODES = ["unspecified", "keyCompromise", "cACompromise", "affiliationChanged", "superseded", "cessationOfOperation", "certificateHold", "privilegeWithdrawn", "aACompromise"]
OPS = ["enrol", "enrol", "confirm", "reject", "use", "update", "revoke", "revoke", "revive", "revive", "self-revoke", "self-revive", "rr-unknown", "rr-issuer", "rr-noreason", "stranger", "use-outside", "kur-outside", "rr-two",
       "rr-mac", "rr-flip"]


@st.composite
def history(draw):
    n = draw(st.integers(4, 16))
    return {"ca": draw(st.integers(0, 3)), "ops": [[draw(st.sampled_from(OPS)), draw(st.integers(0, 7)), draw(st.integers(0, 7)), draw(st.sampled_from(CODES)), draw(st.booleans()), draw(st.integers(0, 8))] for _ in range(n)]}


class Model:
    def __init__(self, env):
        self.env, self.ents, self.n = env, [], 0

    def pick(self, i, *states):
        e = [x for x in self.ents if not states or x["state"] in states]
        return e[i % len(e)] if e else None

    def add(self, r, key, subj, open_=None, state=OK, old=None):
        c = r.certs[0]
        self.ents.append({"party": Party(key, subj, [c, self.env.ca.cert]), "cert": c, "serial": serial(c), "state": state, "open": open_, "old": old})
        return self.ents[-1]


def conf(env, e, status=None):
    o = e["open"]
    h = hashlib.sha512(e["cert"]).digest() if env.ca.key[0] == "ed25519" else hashlib.sha256(e["cert"]).digest()
    return M.message(M.conf_body((h, 0, status, None)), o["prot"], o["tx"], env.rnd(), recip=o["recip"])


def rr(env, signer, ser, reason, issuer=None, **kw):
    return M.message(M.rr_body((issuer or env.ca.name, ser, reason)), Prot(party=signer), env.rnd(), env.rnd(), **kw)


def use(env, e, n):
    der = M.message(M.simple("cr", KEYS[n % len(KEYS)], pki.name("Used %d" % n)), Prot(party=e["party"]), env.rnd(), env.rnd(), implicit=True)
    return der


def states_ok(ctx, env, m, what):
    """The certificates of the CA and their standing are those of the model."""
    have = {hashlib.sha256(c).hexdigest()[:16]: s for c, s in zip(env.ca.certs(), [e.cert_state.name for e in env.ca.h.state.certificate_db._certs])}
    names = {NEW: {"NOT_CONFIRMED"}, OK: {"CONFIRMED", "REVIVED"}, REV: {"REVOKED"}, UPD: {"UPDATED"}, HALF: {"UPDATED_BUT_NOT_CONFIRMED"}, "gone": None}
    for e in m.ents:
        s = have.get(hashlib.sha256(e["cert"]).hexdigest()[:16])
        if names[e["state"]] is not None:
            ctx.check(s in names[e["state"]], f"{what}: certificate is {s} at the CA, but {e['state']} by its history", key=f"state:{what}:{e['state']}:{s}")


def run(case, ctx):
    alg = M.ALGS[case["ca"]]
    env = R.Env((alg, 1 if alg == "ed448" else 0))
    env.ca.h.state.certificate_db.updated_cert_timeout = 10 ** 6
    m = Model(env)
    touched, again = set(), False
    for op, a, b, why, imp, k in case["ops"]:
        m.n += 1
        n = m.n
        before = env.ca.snapshot()
        reason = M.REASONS[why]
        what = op
        want, der, after, loose = None, None, None, False
        if op == "enrol" or not m.ents:
            what = op = "enrol"
            key, subj = KEYS[k], pki.name("End Entity %d" % n)
            tx = env.rnd()
            p = Prot(secret=env.ca.secret, kind="hmac") if a % 2 else Prot(party=env.ra(a))
            der = M.message(M.simple("ir", key, subj), p, tx, env.rnd(), implicit=imp)
            want = True

            def after(r, key=key, subj=subj, tx=tx, p=p):
                m.add(r, key, subj, None if imp else {"prot": p, "tx": tx, "recip": r.nonce}, OK if imp else NEW)
        elif op in ("confirm", "reject"):
            e = m.pick(a, NEW) or m.pick(a)
            if e["open"] is None:
                continue
            if alg in ("ed448", "rsa2048", "ec:secp256r1", "ed25519") and e["state"] != NEW and not e.get("closed"):
                continue
            der = conf(env, e, 2 if op == "reject" else None)
            if alg == "ed448":
                h = hashlib.shake_256(e["cert"]).digest(64)
                o = e["open"]
                der = M.message(M.conf_body((h, 0, 2 if op == "reject" else None, None)), o["prot"], o["tx"], env.rnd(), recip=o["recip"])
            want = not e.get("closed")
            touched.add(e["serial"])

            def after(r, e=e, op=op):
                e["closed"] = True
                if op == "confirm":
                    e["state"] = OK
                    if e["old"] is not None:
                        e["old"]["state"] = UPD
                else:
                    e["state"] = "gone"
                    if e["old"] is not None:
                        e["old"]["state"] = "gone"
        elif op == "use":
            e = m.pick(a)
            if e["state"] == "gone":
                continue
            again = again or e["serial"] in touched
            der, want = use(env, e, n), e["state"] == OK
            what = f"use:{e['state']}"

            def after(r, n=n):
                m.add(r, KEYS[n % len(KEYS)], pki.name("Used %d" % n))
        elif op == "update":
            e = m.pick(a)
            if e["state"] == "gone":
                continue
            again = again or e["serial"] in touched
            touched.add(e["serial"])
            key = KEYS[k] if KEYS[k] != e["party"].key else KEYS[(k + 1) % len(KEYS)]
            if (e.get("keys") or {e["party"].key}) & {key}:
                continue
            tx, p = env.rnd(), Prot(party=e["party"])
            der = M.message(M.simple("kur", key, e["party"].subject), p, tx, env.rnd(), implicit=imp)
            want = e["state"] == OK
            what = f"update:{e['state']}"
            if any(x["party"].subject == e["party"].subject and x["party"].key == key for x in m.ents):
                continue

            def after(r, e=e, key=key, tx=tx, p=p):
                m.add(r, key, e["party"].subject, None if imp else {"prot": p, "tx": tx, "recip": r.nonce}, OK if imp else NEW, None if imp else e)
                e["state"] = UPD if imp else HALF
        elif op in ("revoke", "revive", "self-revoke", "self-revive", "rr-flip"):
            t = m.pick(a)
            s = t if op.startswith("self") else m.pick(b)
            if "gone" in (s["state"], t["state"]):
                continue
            again = again or t["serial"] in touched
            touched.add(t["serial"])
            revive = op.endswith("revive")
            der = rr(env, s["party"], t["serial"], 8 if revive else reason, **({"damage": R.flip(n * 37)} if op == "rr-flip" else {}))
            what = f"{op}:{s['state']}:{t['state']}"
            if op == "rr-flip":
                want = False
            elif revive:
                want = t["state"] == REV and (s["state"] == OK or s is t)
            else:
                want = s["state"] == OK and t["state"] == OK
                loose = s["state"] == OK and t["state"] in (UPD, HALF)

            def after(r, t=t, revive=revive):
                t["state"] = OK if revive else REV
        else:
            t, s = m.pick(a), m.pick(b, OK)
            if t["state"] == "gone" or (s is None and op not in ("stranger", "use-outside", "kur-outside", "rr-mac")):
                continue
            want = False
            if op == "rr-unknown":
                der = rr(env, s["party"], t["serial"] + 1 + k, 8 if imp else reason)
            elif op == "rr-issuer":
                der = rr(env, s["party"], t["serial"], 8 if imp else reason, issuer=pki.name("Verif Root", ("2.5.4.10", "else")))
            elif op == "rr-noreason":
                der = rr(env, s["party"], t["serial"], None)
            elif op == "rr-two":
                der = M.message(M.rr_body((env.ca.name, t["serial"] + 1 + k, reason), (env.ca.name, t["serial"] + 2 + k, reason)), Prot(party=s["party"]), env.rnd(), env.rnd())
            elif op == "rr-mac":
                der = M.message(M.rr_body((env.ca.name, t["serial"], reason)), Prot(secret=env.ca.secret, kind="hmac"), env.rnd(), env.rnd(), certs=t["party"].chain if imp else None)
            elif op == "stranger":
                der = rr(env, env.stranger(k), t["serial"], 8 if imp else reason)
            else:
                key = KEYS[k]
                out = env.ca.party(key, "Outside", serial=500)
                der = M.message(M.simple("cr" if op == "use-outside" else "kur", KEYS[(k + 1) % len(KEYS)], pki.name("Outside")), Prot(party=out), env.rnd(), env.rnd(), implicit=imp)
        ctx.label(what)
        ctx.op()
        resp = env.ca.send(der)
        r = M.envelope(ctx, env.ca, der, resp, what)
        if loose:
            if r.accepted:
                after(r)
        elif want:
            if not ctx.check(r.accepted, f"{what}: refused: {sorted(r.fails)} {r.text[:200]}", key=f"refused:{what}"):
                return
            after(r)
        else:
            ctx.check(not r.accepted, f"{what}: accepted", key=f"accepted:{what}")
            ctx.eq(env.ca.snapshot(), before, f"{what}: certificates of the CA after a refusal", key=f"changed:{what}")
        states_ok(ctx, env, m, what)
    ctx.nontrivial(again)
    for i, e in enumerate(list(m.ents)):
        if e["state"] == "gone":
            continue
        r = M.Resp(env.ca.send(use(env, e, 1000 + i)))
        ctx.check(r.accepted == (e["state"] == OK), f"finally: a certificate that is {e['state']} is {'accepted' if r.accepted else 'refused'} for a request: {r.text[:200]}", key=f"final:{e['state']}")
        if not r.accepted and e["state"] == REV:
            ctx.check("certRevoked" in r.fails, f"finally: failure code {sorted(r.fails)} for a revoked certificate", key="final-code")


# ---- an unconfirmed update after the waiting time
LATE = st.fixed_dictionaries({"old": st.integers(0, 8), "new": st.lists(st.integers(0, 8), min_size=2, max_size=2, unique=True), "wait": st.booleans(), "op": st.sampled_from(["kur", "confirm-old", "use"]), "imp": st.booleans()})


def late(case, ctx):
    env = R.Env(("ed25519", 0))
    db = env.ca.h.state.certificate_db
    db.updated_cert_timeout = 10 ** 6
    if case["old"] in case["new"]:
        case["new"] = [(x + 1) % 9 if (x + 1) % 9 != case["old"] else (x + 2) % 9 for x in case["new"]]
    if len(set(case["new"])) < 2 or case["old"] in case["new"]:
        return
    ee, r0 = env.issue(KEYS[case["old"]], "Late")
    tx, p = env.rnd(), Prot(party=ee)
    der = M.message(M.simple("kur", KEYS[case["new"][0]], ee.subject), p, tx, env.rnd())
    r = M.envelope(ctx, env.ca, der, env.ca.send(der), "kur")
    if not ctx.check(r.accepted, f"key update refused: {r.text[:200]}"):
        return
    ctx.label(case["op"], case["wait"])
    ctx.nontrivial(True)
    if case["wait"]:
        db.updated_cert_timeout = -1
    if case["op"] == "kur":
        der = M.message(M.simple("kur", KEYS[case["new"][1]], ee.subject), p, env.rnd(), env.rnd(), implicit=case["imp"])
        r2 = M.envelope(ctx, env.ca, der, env.ca.send(der), "second kur")
        ctx.check(r2.accepted == case["wait"], f"second key update {'after' if case['wait'] else 'before'} the waiting time: {r2.type} {r2.text[:200]}", key="second-kur")
    elif case["op"] == "confirm-old":
        e = {"open": {"prot": p, "tx": tx, "recip": r.nonce}, "cert": r.certs[0]}
        der = conf(env, e)
        r2 = M.envelope(ctx, env.ca, der, env.ca.send(der), "confirmation")
        if not case["wait"]:
            ctx.check(r2.accepted, f"confirmation of the update refused: {r2.text[:200]}")
    else:
        der = M.message(M.simple("cr", KEYS[case["new"][1]], pki.name("Late use")), p, env.rnd(), env.rnd(), implicit=True)
        r2 = M.envelope(ctx, env.ca, der, env.ca.send(der), "use")
        if not case["wait"]:
            ctx.check(not r2.accepted, "a certificate under update is accepted for a request", key="half-used")


SUBS = [
    Sub("history", history(), run, quick=140, thorough=4000, shards=7, text="histories against the state machine"),
    Sub("late", LATE, late, quick=30, thorough=400, text="updates that stay unconfirmed"),
]
