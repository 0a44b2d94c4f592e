"""C20: the Mock CA issues exactly on valid protection and proof of possession."""
import base64
import os

from hypothesis import strategies as st

from checks.c11 import Cert
from lib import der as D, mca as M, mreq as R, pki, sigs
from lib.harness import Skip, Sub
from lib.mca import Party, Prot

PROPERTY = "C20"
TECHNIQUE = "property-based testing: generated histories of certificate requests assembled without the suite, genuine or with one defect in protection or proof of possession, against a verdict known by construction; every granted certificate is parsed and its signature verified independently"
RULE = "the history holds both a request that must be granted and one that must be refused"
ASSUMPTIONS = ["signers hold certificates of the root of the Mock CA; shared secret and root are set when the Mock CA is started", "loading the fixed key files and the trust store of the operating system is cached"]


def pem(der):
    b = base64.b64encode(der)
    return b"-----BEGIN CERTIFICATE-----\n" + b"\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + b"\n-----END CERTIFICATE-----\n"


def serial(c):
    s = Cert(c).serial
    return s if isinstance(s, int) else M.num(s)


def granted(ctx, env, der, resp, info, what, rid=0):
    r = M.Resp(resp)
    if not ctx.check(r.type in ("ip", "cp", "kup", "ccp") and r.accepted and len(r.certs) == 1 and isinstance(r.certs[0], bytes), f"{what}: a valid request is refused: {r.type} {sorted(r.fails)} {r.text[:300]}", key=f"refused:{what}"):
        return None
    c = Cert(r.certs[0])
    ctx.eq(c.subject, info["subject"], f"{what}: subject of the granted certificate")
    ctx.eq(c.spki, info["spki"], f"{what}: public key of the granted certificate")
    ctx.eq(c.issuer, env.ca.name, f"{what}: issuer of the granted certificate")
    ctx.check(sigs.cert_ok(r.certs[0], env.ca.spki), f"{what}: the granted certificate does not verify under the CA key")
    ctx.eq(r.ids[0], rid, f"{what}: certReqId of the answer")
    return r.certs[0]


def refused(ctx, env, resp, fits, what, before):
    r = M.Resp(resp)
    ctx.check(not r.accepted, f"{what}: a certificate is granted", key=f"granted:{what}")
    ctx.check(not any(r.certs), f"{what}: a refusal carries a certificate", key=f"leak:{what}")
    ctx.check(bool(r.fails & fits), f"{what}: failure code {sorted(r.fails)} instead of {sorted(fits)}: {r.text[:200]}", key=f"code:{what}")
    ctx.eq(env.ca.snapshot(), before, f"{what}: certificates of the CA after a refusal")


ALL = {**R.PROT_BAD, **R.POPO_BAD}
for _k in ("alg-swap", "popo-alg"):
    ALL[_k] = ALL[_k] | {"badDataFormat"}


@st.composite
def hist(draw):
    n = draw(st.integers(2, 7))
    steps = []
    for _ in range(n):
        s = draw(R.steps(changes=[None, None, None] + sorted(ALL)))
        if not R.applies(s):
            s["change"] = None
        steps.append(s)
    return {"ca": draw(st.integers(0, len(M.ALGS) - 1)), "steps": steps, "ee": draw(st.booleans())}


def run_hist(case, ctx):
    env = R.Env((M.ALGS[case["ca"]], 1 if M.ALGS[case["ca"]] == "ed448" else 0))
    kinds = {s["change"] is None for s in case["steps"]}
    ctx.nontrivial(len(kinds) == 2)
    serials, ees = set(), []
    for i, s in enumerate(case["steps"]):
        ee = ees[s["ra"] % len(ees)] if ees and (case["ee"] or s["name"] == "cr") else None
        if s["name"] == "cr" and ee is None and s["prot"] == "sig":
            s = dict(s, name="ir")
        der, info = R.build(env, s, ee)
        before = env.ca.snapshot()
        ctx.op()
        ctx.label(s["name"] + (":" + s["change"] if s["change"] else ""), s["prot"])
        out = env.ca.send(der)
        what = f"{s['name']}:{s['change']}" if s["change"] else s["name"]
        if s["change"]:
            refused(ctx, env, out, ALL[s["change"]], what, before)
            continue
        c = granted(ctx, env, der, out, info, what, -1 if s["name"] == "p10cr" else 0)
        if c is None:
            continue
        n = serial(c)
        ctx.check(n not in serials and n > 0, f"serial number {n} used again")
        serials.add(n)
        if s["implicit"]:
            ees.append(Party(info["key"], info["subject"], [c, env.ca.cert]))


# ---- key update
UPD_BAD = {**{k: ALL[k] for k in ("prot-flip", "prot-missing", "foreign-key", "header-after", "body-after", "alg-swap", "untrusted")}, **{k: ALL[k] for k in R.POPO_BAD}, "mac": {"wrongIntegrity"}, "not-issued": {"notAuthorized", "signerNotTrusted", "badRequest", "badCertId"},
           "same-key": {"badCertTemplate"}}


@st.composite
def updates(draw):
    ks = draw(st.permutations(R.KEYS))
    s = draw(R.steps(names=["kur"], changes=[None, None] + sorted(UPD_BAD)))
    s["prot"] = "sig"
    return {"ca": draw(st.integers(0, 3)), "step": s, "old": list(ks[0]), "new": list(ks[1]), "old_id": draw(st.booleans())}


def run_update(case, ctx):
    env = R.Env((M.ALGS[case["ca"]], 1 if M.ALGS[case["ca"]] == "ed448" else 0))
    ee, r = env.issue(tuple(case["old"]), "Updater")
    if not isinstance(r.certs[0], bytes):
        raise Skip
    s = dict(case["step"])
    ch = s["change"]
    ctx.label(ch or "good")
    ctx.nontrivial(ch is not None)
    new = tuple(case["new"])
    if ch == "same-key":
        new = ee.key
    signer = ee
    if ch == "not-issued":
        signer = env.ca.party(ee.key, "Updater", serial=5)
    if ch in ("mac", "not-issued", "same-key"):
        s["change"] = None
    if ch == "mac":
        s["prot"] = "mac"
    before = env.ca.snapshot()
    der, info = R.build(env, s, signer, key=new, subj=ee.subject)
    out = env.ca.send(der)
    if ch:
        refused(ctx, env, out, UPD_BAD[ch], f"kur:{ch}", before)
        return
    granted(ctx, env, der, out, info, "kur")


# ---- proof of possession vouched for by a registration authority
RA_CASES = ["good", "not-listed", "no-eku", "mac", "mac-with-ra-cert", "unprotected-ra", "kur"]


def run_ra(case, ctx):
    env = R.Env(("ed25519", 0))
    how = case["how"]
    key = R.SIGNERS[case["ra"]]
    exts = [pki.ku("digitalSignature"), pki.ski(*key)] + ([pki.eku("1.3.6.1.5.5.7.3.28")] if how != "no-eku" else [])
    ra = env.ca.party(key, "Registration Authority", serial=77, exts=exts)
    path = "data/trusted_ras/verif_ra.pem"
    if how != "not-listed":
        with open(path, "wb") as f:
            f.write(pem(ra.chain[0]))
    elif os.path.exists(path):
        os.remove(path)
    ctx.label(how)
    ctx.nontrivial(how != "good")
    k = tuple(case["key"])
    subj = pki.name("Vouched")
    name = "kur" if how == "kur" else "ir"
    req = M.cert_request(0, M.template(subj, pki.spki(*k)))
    bod = M.body(name, D.seq(M.cert_req_msg(req, M.RA_VERIFIED)))
    p = Prot(party=ra)
    certs = None
    if how.startswith("mac"):
        p = Prot(secret=env.ca.secret, kind=case["mac"][0], h=case["mac"][1])
        certs = ra.chain if how == "mac-with-ra-cert" else None
    if how == "kur":
        ee, r = env.issue(R.KEYS[0] if k != R.KEYS[0] else R.KEYS[1], "Vouched")
        if not isinstance(r.certs[0], bytes):
            raise Skip
        p = Prot(party=ee)
    if how == "unprotected-ra":
        p = Prot()
    kw = {"sender": M.general(ra.subject)} if how == "unprotected-ra" else {}
    before = env.ca.snapshot()
    der = M.message(bod, p, env.rnd(), env.rnd(), implicit=True, certs=ra.chain if how == "unprotected-ra" else certs, **kw)
    out = env.ca.send(der)
    try:
        if how == "good":
            granted(ctx, env, der, out, {"subject": subj, "spki": pki.spki(*k)}, "raVerified")
        else:
            refused(ctx, env, out, {"notAuthorized", "badPOP", "badMessageCheck", "signerNotTrusted", "wrongAuthority", "wrongIntegrity"}, f"raVerified:{how}", before)
    finally:
        if os.path.exists(path):
            os.remove(path)


RA = st.fixed_dictionaries({"how": st.sampled_from(RA_CASES), "ra": st.integers(0, 3), "key": st.sampled_from(R.KEYS), "mac": st.sampled_from(R.MACS)})


# ---- several requests in one message, one of them bad
@st.composite
def multi(draw):
    n = draw(st.integers(1, 4))
    ks = draw(st.permutations(R.KEYS))
    s = draw(R.steps(names=["ir", "cr"]))
    s["prot"] = draw(st.sampled_from(["mac", "sig"]))
    if s["prot"] == "sig":
        s["name"] = "ir"
    return {"step": s, "keys": [list(k) for k in ks[:n]], "bad": draw(st.integers(-1, n - 1)), "how": draw(st.sampled_from(["popo-flip", "popo-other-key", "popo-missing", "popo-replay", "id", "id-repeat"]))}


def run_multi(case, ctx):
    env = R.Env(("ed25519", 0))
    s, how = case["step"], case["how"]
    bad = case["bad"]
    reqs, infos = [], []
    for i, k in enumerate(case["keys"]):
        k = tuple(k)
        subj = pki.name("Multi %d" % i)
        rid = i
        if i == bad and how == "id":
            rid = i + 1 + s["bit"] % 5
        if i == bad and how == "id-repeat":
            rid = i - 1
        req = M.cert_request(rid, M.template(subj, pki.spki(*k)))
        p = M.popo(k[0], k[1], req)
        if i == bad:
            if how == "popo-flip":
                p = M.popo(k[0], k[1], req, damage=R.flip(s["bit"]))
            elif how == "popo-other-key":
                o = next(x for x in R.KEYS if x != k)
                p = M.popo(o[0], o[1], req)
            elif how == "popo-missing":
                p = None
            elif how == "popo-replay":
                p = M.popo(k[0], k[1], M.cert_request(rid, M.template(pki.name("Another"), pki.spki(*k))))
        reqs.append(M.cert_req_msg(req, p))
        infos.append((subj, pki.spki(*k)))
    der = M.message(M.body(s["name"], D.seq(*reqs)), R.prot_of(env, s), env.rnd(), env.rnd(), implicit=s["implicit"], pvno=s["pvno"])
    ctx.label(how if bad >= 0 else "good", len(reqs))
    ctx.nontrivial(len(reqs) > 1)
    before = env.ca.snapshot()
    r = M.envelope(ctx, env.ca, der, env.ca.send(der), "several requests")
    got = [c for c in r.certs if isinstance(c, bytes)]
    spkis = {Cert(c).spki for c in got}
    if bad >= 0:
        ctx.check(infos[bad][1] not in spkis or how in ("id", "id-repeat"), f"{how}: certificate for a request without proof of possession", key=f"multi-granted:{how}")
        if how in ("id", "id-repeat"):
            ctx.check(not got, f"{how}: certificates for wrong request identifiers", key=f"multi-ids:{how}")
        if len(reqs) == 1 or not got:
            ctx.check(not r.accepted, "a bad request is accepted")
            ctx.eq(env.ca.snapshot(), before, "certificates of the CA after a refusal")
        known = {Cert(c).spki for c in env.ca.certs()}
        ctx.check(infos[bad][1] not in known or how in ("id", "id-repeat"), f"{how}: the CA keeps a certificate for a request it refused", key=f"multi-kept:{how}")
        return
    if not r.accepted:
        # a profile that allows one request per message is a permitted refusal of several
        ctx.check(len(reqs) > 1, f"a good request is refused: {r.text[:200]}")
        ctx.eq(env.ca.snapshot(), before, "certificates of the CA after a refusal")
        ctx.label("several refused")
        return
    ctx.eq(r.ids, list(range(len(reqs))), "certReqIds of the answers")
    ctx.eq([(Cert(c).subject, Cert(c).spki) for c in got], infos, "granted certificates in the order of the requests")
    ctx.check(len({serial(c) for c in got}) == len(got), "two certificates of one response share a serial number")
    for c in got:
        ctx.check(sigs.cert_ok(c, env.ca.spki), "the granted certificate does not verify under the CA key")


SUBS = [
    Sub("history", hist(), run_hist, quick=90, thorough=2500, shards=5, text="ir, cr and p10cr with MAC or signature protection, genuine or with one defect"),
    Sub("update", updates(), run_update, quick=50, thorough=1500, shards=3, text="key updates with the old key, genuine or with one defect"),
    Sub("vouched", RA, run_ra, quick=30, thorough=800, shards=2, text="raVerified by registration authorities and others"),
    Sub("several", multi(), run_multi, quick=40, thorough=1200, shards=3, text="several requests in one message, one of them bad"),
]
