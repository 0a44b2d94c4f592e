"""C22: a certificate confirmation succeeds only for the right certificate and transaction."""
import hashlib

from hypothesis import strategies as st

from checks.c20 import serial
from lib import cmpx, der as D, keys, mca as M, mreq as R, pki
from lib.harness import Skip, Sub
from lib.mca import Prot

PROPERTY = "C22"
TECHNIQUE = "stateful property-based testing: generated histories of open transactions and confirmations (right, wrong in one field, repeated, out of order, by another party) against a model of the transactions; certificate hashes against hashlib; metamorphic checks of the confirmation builder and checker of the suite"
RULE = "at least one confirmation that is wrong, repeated, a rejection or out of order"
ASSUMPTIONS = ["the hash for Ed25519, Ed448 and post-quantum signatures is the digest algorithm RFC 9810, RFC 9882 and RFC 9814 associate with the signature", "the confirmation of a p10cr answer carries certReqId 0, as the suite expects"]

ALGS = M.ALGS + ["ml-dsa-44"]
H3 = ["sha256", "sha384", "sha512"]
#: defect -> fitting failure codes
BAD = {
    "hash-flip": {"badCertId"}, "hash-other-cert": {"badCertId"}, "hash-other-alg": {"badCertId"}, "hash-short": {"badCertId"}, "hash-empty": {"badCertId"}, "rid": {"badRequest", "badCertId"}, "none": {"badRequest"},
    "two": {"badRequest", "badCertId"}, "hashalg-v2": {"badCertId", "badRequest"}, "hashalg-wrong": {"badCertId"}, "hashalg-unknown": {"badCertId", "badAlg"}, "status": {"badRequest"}, "accepted-with-fail": {"badRequest"},
    "tx-unknown": {"badRequest"}, "tx-missing": {"badRequest", "badDataFormat"}, "tx-other": {"badRecipientNonce", "badRequest", "wrongAuthority", "wrongIntegrity", "badMessageCheck", "badCertId", "badSenderNonce", "certConfirmed"},
    "recip": {"badRecipientNonce"}, "recip-missing": {"badRecipientNonce"}, "nonce-same": {"badSenderNonce"}, "nonce-short": {"badSenderNonce"}, "nonce-missing": {"badSenderNonce"}, "party": {"wrongAuthority", "wrongIntegrity", "badMessageCheck"},
    "kind": {"wrongIntegrity", "badMessageCheck"}, "mac-alg": {"badMessageCheck", "wrongIntegrity"}, "prot-flip": {"badMessageCheck"}, "unprotected": {"badMessageCheck"}, "secret": {"badMessageCheck"},
}


def want_hash(alg, cert, h="sha256"):
    if alg == "ed448":
        return hashlib.shake_256(cert).digest(64)
    return hashlib.new("sha512" if alg in ("ed25519", "ml-dsa-44") else h, cert).digest()


@st.composite
def history(draw):
    ops = ["open", "open", "confirm", "confirm", "reject", "again", "bad", "bad", "bad", "bad"]
    return {"ca": draw(st.integers(0, len(ALGS) - 1)), "ops": [[draw(st.sampled_from(ops)), draw(st.integers(0, 5)), draw(st.sampled_from(sorted(BAD))), draw(st.integers(0, 4000)), draw(R.steps(["ir", "cr", "p10cr", "kur"])), draw(st.sampled_from([None, "sha256", "sha384", "sha512"]))]
                                                            for _ in range(draw(st.integers(3, 10)))]}


def conf_msg(env, alg, t, defect, bit, hash_name, others, reject=False):
    """A confirmation of transaction t, possibly with a defect; None when the defect does not apply."""
    cert = t["cert"]
    pvno = 3 if hash_name else t["pvno"]
    digest = hashlib.new(hash_name, cert).digest() if hash_name else want_hash(alg, cert)
    rid, status, prot, tx, nonce, recip, kw = 0, None, t["prot"], t["tx"], env.rnd(), t["recip"], {}
    other = next((o for o in others if o is not t), None)
    if defect == "hash-flip":
        digest = R.flip(bit)(digest)
    elif defect == "hash-other-cert":
        if other is None:
            return None
        digest = hashlib.new(hash_name, other["cert"]).digest() if hash_name else want_hash(alg, other["cert"])
    elif defect == "hash-other-alg":
        digest = hashlib.sha384(cert).digest() if hash_name != "sha384" else hashlib.sha256(cert).digest()
    elif defect == "hash-short":
        digest = digest[:-1 - bit % 8]
    elif defect == "hash-empty":
        digest = b""
    elif defect == "rid":
        rid = [1, 2, 7, -2][bit % 4]
    elif defect == "hashalg-v2":
        hash_name, pvno = hash_name or "sha256", 2
        digest = hashlib.new(hash_name, cert).digest()
    elif defect == "hashalg-wrong":
        digest = hashlib.new(hash_name or "sha256", cert).digest()
        hash_name, pvno = ("sha512" if hash_name != "sha512" else "sha384"), 3
    elif defect == "status":
        status = [1, 3, 4, 5, 6][bit % 5]
    elif defect == "tx-unknown":
        tx = env.rnd()
    elif defect == "tx-missing":
        kw["transactionID"] = None
    elif defect == "tx-other":
        if other is None:
            return None
        tx = other["tx"]
    elif defect == "recip":
        recip = R.flip(bit)(recip)
    elif defect == "recip-missing":
        recip = None
    elif defect == "nonce-same":
        nonce = t["nonce"]
    elif defect == "nonce-short":
        nonce = nonce[:15 - bit % 3]
    elif defect == "nonce-missing":
        kw["senderNonce"] = None
    elif defect == "party":
        if prot.party is None:
            return None
        old = prot.party
        if bit % 3 and old.subject == pki.name("RA %d" % next((i for i in range(4) if env.ra(i).key == old.key), 0)):
            # another certificate with the same name: of another key, or of the same key with another serial number
            key = old.key if bit % 3 == 1 else next(env.ra(i).key for i in range(4) if env.ra(i).key != old.key)
            n = next(i for i in range(4) if env.ra(i).key == old.key)
            prot = Prot(party=env.ca.party(key, "RA %d" % n, serial=700 + n, ku=["digitalSignature"]))
        else:
            prot = Prot(party=next(env.ra(i) for i in range(4) if env.ra(i).key != old.key))
    elif defect == "kind":
        prot = Prot(secret=env.ca.secret) if prot.party else Prot(party=env.ra(bit))
        if prot.party and alg == "ml-dsa-44":
            return None
    elif defect == "mac-alg":
        if prot.party:
            return None
        prot = Prot(secret=env.ca.secret, kind="pbmac1" if prot.kind == "pbm" else "pbm")
    elif defect == "secret":
        if prot.party:
            return None
        prot = Prot(secret=R.flip(bit)(env.ca.secret), kind=prot.kind, h=prot.h)
    elif defect == "prot-flip":
        kw["damage"] = R.flip(bit)
    elif defect == "unprotected":
        prot = Prot()
        kw["sender"] = M.general(pki.name("MAC Client"))
    e = [(digest, rid, 2 if reject else status, hash_name)]
    if defect == "none":
        e = []
    elif defect == "two":
        e = e + [(digest, 1, None, hash_name)]
    bod = M.conf_body(*e)
    if defect == "accepted-with-fail":
        bod = M.body("certConf", D.seq(D.seq(D.octets(digest), D.integer(0), D.seq(D.integer(0), D.bits_from_set({2})))))
        pvno = 2
        if hash_name:
            return None
    if defect == "hashalg-unknown":
        bod = M.body("certConf", D.seq(D.seq(D.ctx(0, D.seq(D.oid(["1.2.3.4", "1.2.840.113549.1.1.11", "1.3.101.112", "2.16.840.1.101.3.4.3.17"][bit % 4]))), D.octets(digest), D.integer(0))))
        pvno = 3
    return M.message(bod, prot, tx, nonce, recip=recip, pvno=pvno, **kw)


def state_of(env, cert):
    return next((e.cert_state.name for e in env.ca.h.state.certificate_db._certs if cmpx.enc(e.cert) == cert), None)


def run_history(case, ctx):
    alg = ALGS[case["ca"]]
    env = R.Env((alg, 1 if alg == "ed448" else 0))
    env.ca.h.state.certificate_db.updated_cert_timeout = 10 ** 6
    txs, n = [], 0
    for op, pick, defect, bit, s, hn in case["ops"]:
        n += 1
        live = [t for t in txs if t["state"] == "open"]
        done = [t for t in txs if t["state"] != "open"]
        if op == "open" or not txs or (op in ("confirm", "reject", "bad") and not live) or (op == "again" and not done):
            s = dict(s, implicit=False)
            old = None
            if s["name"] == "kur" and alg == "ml-dsa-44":
                s["name"] = "cr"
            if s["name"] == "kur":
                ok = [t for t in done if t["state"] == "confirmed" and t["usable"]]
                if not ok:
                    s["name"] = "cr"
                else:
                    old = ok[pick % len(ok)]
            key = tuple(s["key"])
            if old and old["key"] == key:
                continue
            if old:
                prot = Prot(party=M.Party(old["key"], old["subject"], [old["cert"], env.ca.cert]))
            else:
                if alg == "ml-dsa-44":  # openssl cannot verify the chain of a signer
                    s["prot"] = "mac"
                if s["prot"] == "sig" and s["name"] == "cr":  # only from a holder of a certificate
                    s["name"] = "ir"
                prot = R.prot_of(env, s)
            tx, nonce = env.rnd(), env.rnd()
            subj = old["subject"] if old else pki.name("Holder %d" % n)
            der = M.message(R.make_body(dict(s, exts=[]), subj, key)[0], prot, tx, nonce, pvno=s["pvno"])
            r = M.envelope(ctx, env.ca, der, env.ca.send(der), "open")
            if not ctx.check(r.accepted and r.certs, f"{s['name']} is refused: {r.text[:200]}", key="open-refused"):
                continue
            if old:
                old["usable"] = False
            txs.append({"tx": tx, "nonce": nonce, "recip": r.nonce, "prot": prot, "cert": r.certs[0], "state": "open", "key": key, "subject": subj, "old": old, "pvno": s["pvno"], "usable": False, "name": s["name"]})
            ctx.eq(state_of(env, r.certs[0]), "NOT_CONFIRMED", "state of a certificate to be confirmed")
            continue
        before = env.ca.snapshot()
        if op == "again":
            ctx.nontrivial()
            t = done[pick % len(done)]
            der = conf_msg(env, alg, t, None, bit, hn, txs, reject=bit % 5 == 0)
            r = M.envelope(ctx, env.ca, der, env.ca.send(der), "confirmation sent twice")
            ctx.check(r.type == "error" and "certConfirmed" in r.fails, f"a repeated confirmation is answered with {r.type} {sorted(r.fails)}", key="again")
            ctx.eq(env.ca.snapshot(), before, "certificates of the CA after a repeated confirmation")
            continue
        t = live[pick % len(live)]
        if op == "bad":
            der = conf_msg(env, alg, t, defect, bit, hn, live)
            if der is None:
                continue
            ctx.nontrivial()
            ctx.label(defect)
            r = M.envelope(ctx, env.ca, der, env.ca.send(der), f"confirmation with {defect}")
            if not ctx.check(r.type == "error", f"confirmation with {defect} is answered with {r.type}", key=f"accepted:{defect}"):
                return
            ctx.check(BAD[defect] & set(r.fails), f"confirmation with {defect} fails with {sorted(r.fails)}: {r.text[:160]}", key=f"code:{defect}")
            ctx.eq(env.ca.snapshot(), before, f"certificates of the CA after a confirmation with {defect}")
            continue
        reject = op == "reject"
        if reject:
            ctx.nontrivial()
        der = conf_msg(env, alg, t, None, bit, hn, txs, reject=reject)
        r = M.envelope(ctx, env.ca, der, env.ca.send(der), op)
        if not ctx.check(r.type == "pkiconf", f"a right confirmation ({op}, {t['name']}, hash algorithm {hn}, CA {alg}) is refused: {r.text[:200]}", key=f"refused:{op}"):
            return
        t["state"] = "rejected" if reject else "confirmed"
        t["usable"] = not reject
        ctx.label(f"{op}:{t['name']}:{'mac' if t['prot'].secret else 'sig'}:{hn}")
        now = state_of(env, t["cert"])
        if reject:
            ctx.check(now in (None, "NOT_CONFIRMED"), f"the client rejected its certificate, the CA has it as {now}", key="rejected-state")
            der = M.message(M.simple("cr", R.KEYS[n % len(R.KEYS)], pki.name("Used %d" % n)), Prot(party=M.Party(t["key"], t["subject"], [t["cert"], env.ca.cert])), env.rnd(), env.rnd(), implicit=True)
            r = M.envelope(ctx, env.ca, der, env.ca.send(der), "use of a rejected certificate")
            ctx.check(not r.accepted, "a certificate its holder rejected is good for further requests", key="rejected-usable")
        else:
            ctx.eq(now, "CONFIRMED", "state of a confirmed certificate")
        if t["old"]:
            so = state_of(env, t["old"]["cert"])
            if reject:
                ctx.check(so != "UPDATED", "the update was rejected by its holder, yet the old certificate counts as updated", key="rejected-update")
            else:
                ctx.eq(so, "UPDATED", "state of the certificate that was updated")


# ---- the builder and the checker of the suite, without a CA
SIG = [("rsa2048", "sha1"), ("rsa2048", "sha224"), ("rsa2048", "sha256"), ("rsa2048", "sha384"), ("rsa2048", "sha512"), ("ec:secp256r1", "sha224"), ("ec:secp256r1", "sha256"), ("ec:secp384r1", "sha384"),
       ("ec:secp521r1", "sha512"), ("ec:secp256r1", "sha3_224"), ("ec:secp256r1", "sha3_256"), ("ec:secp384r1", "sha3_384"), ("ec:secp521r1", "sha3_512"), ("rsa2048", "sha3_256"), ("rsa2048", "sha3_512"), ("ed25519", None), ("ed448", None),
       ("pss", "sha256"), ("ml-dsa-44", None), ("ml-dsa-65", None), ("ml-dsa-87", None), ("slh-dsa-sha2-128f", None), ("slh-dsa-sha2-192f", None), ("slh-dsa-sha2-256f", None), ("slh-dsa-shake-128f", None), ("slh-dsa-shake-192f", None),
       ("slh-dsa-shake-256f", None)]
IMPLIED = {"ed25519": "sha512", "ed448": "shake256", "slh-dsa-sha2-128f": "sha256", "slh-dsa-sha2-192f": "sha512", "slh-dsa-sha2-256f": "sha512", "slh-dsa-shake-128f": "shake128", "slh-dsa-shake-192f": "shake256", "slh-dsa-shake-256f": "shake256"}


def digest(h, data):
    if h == "shake128":
        return hashlib.shake_128(data).digest(32)
    if h == "shake256":
        return hashlib.shake_256(data).digest(64)
    return hashlib.new(h, data).digest()


@st.composite
def builds(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {"sigs": [draw(st.integers(0, len(SIG) - 1)) for _ in range(n)], "hash": draw(st.sampled_from([None, None, "sha256", "sha384", "sha512"])), "bit": draw(st.integers(0, 4000)),
            "status": draw(st.sampled_from([None, None, "accepted", "rejection"])), "how": draw(st.sampled_from(["none", "flip", "other", "rid", "swap"])), "type": draw(st.sampled_from(["ip", "cp", "kup"]))}


def cert_signed(i):
    """(certificate object, its octets, the name of the hash of its signature)."""
    from resources import certbuildutils as B
    name, h = SIG[i]
    pss = name == "pss"
    ca = keys.get("rsa2048" if pss else name, 0)
    subj = keys.get("ec:secp256r1", 1)
    kw = {"use_rsa_pss": True} if pss else {}
    c, _ = B.build_certificate(private_key=subj, ca_key=ca, common_name=f"CN=Conf {i}", hash_alg=h or "sha256", **kw) if not name.startswith(("ml-", "slh-", "ed")) else B.build_certificate(private_key=subj, ca_key=ca, common_name=f"CN=Conf {i}", hash_alg=None)
    if name.startswith("ml-dsa"):
        h = "sha512"
    return c, cmpx.enc(c), h or IMPLIED[name]


def run_builds(case, ctx):
    from resources import ca_ra_utils, cmputils
    from resources.exceptions import CMPTestSuiteError
    certs = [ctx.accepts("certificate", cert_signed, i) for i in case["sigs"]]
    if any(i in case["sigs"][:k] for k, i in enumerate(case["sigs"])):
        raise Skip("twice the same certificate")
    if len(certs) > 1 or case["how"] != "none":
        ctx.nontrivial()
    hn = case["hash"]
    one = len(certs) == 1
    ca = pki.make(pki.name("Some CA"), ("ed25519", 0), exts=[pki.bc()])
    resp = D.seq(*[D.seq(D.integer(k), D.seq(D.integer(0)), D.seq(D.ctx(0, der))) for k, (_c, der, _h) in enumerate(certs)])
    name = case["type"]
    ca_msg = M.message(M.body(name, D.seq(resp)), Prot(), b"t" * 16, b"m" * 16, recip=b"n" * 16, pvno=3 if hn else 2, sender=M.general(pki.name("Some CA")), certs=[ca, ca] if case["bit"] % 2 else [ca])
    kw = {"hash_alg": hn, "hash_for_v3": True, "pvno": 3} if hn else {}
    if case["status"]:
        kw["status_info"] = cmputils.prepare_pkistatusinfo(case["status"])
    conf = ctx.accepts(f"confirming {[SIG[i] for i in case['sigs']]} hash {hn}", lambda: cmputils.build_cert_conf_from_resp(cmpx.parse(ca_msg), cert_req_id=None, **kw), key="build")
    msg = M.Wire(cmpx.enc(conf))
    f = msg.fields()
    ctx.eq((D.octets_value(f["transactionID"]), D.octets_value(f["recipNonce"])), (b"t" * 16, b"m" * 16), "identifiers of the confirmation")
    ctx.check(D.octets_value(f["senderNonce"]) != b"n" * 16, "the confirmation repeats the nonce of the request")
    inner = D.split(D.split(msg.body)[0])
    ctx.eq(len(inner), len(certs), "entries of the confirmation")
    for k, (e, (_c, der, h)) in enumerate(zip(inner, certs)):
        p = D.split(e)
        ha = p.pop(0) if p[0][0] == 0xA0 else None
        ctx.eq(D.octets_value(p[0]), digest(hn or h, der), f"certHash of a certificate signed with {SIG[case['sigs'][k]]}, hash algorithm {hn}", key=f"hash:{SIG[case['sigs'][k]][0]}")
        ctx.eq(M.num(p[1]), k, "certReqId of the confirmation")
        ctx.eq(ha is not None, bool(hn), "hashAlg is present")
    chk = lambda req: ca_ra_utils.build_pki_conf_from_cert_conf(request=req, issued_certs=[x[0] for x in certs], enforce_lwcmp=one)  # noqa: E731
    done = ctx.accepts(f"confirmation of {[SIG[i] for i in case['sigs']]} hash {hn}", chk, cmpx.parse(msg.build()), key="confirm")
    r = M.Wire(cmpx.enc(done))
    g = r.fields()
    ctx.eq((r.body[0] & 31, D.octets_value(g["transactionID"]), g["recipNonce"]), (19, b"t" * 16, f["senderNonce"]), "the PKI confirmation")
    if case["status"] == "rejection":
        return
    k = case["bit"] % len(inner)
    how = case["how"]
    ctx.label(how)
    if how == "flip":
        p = D.split(inner[k])
        ha = [p.pop(0)] if p[0][0] == 0xA0 else []
        inner[k] = D.seq(*ha, D.octets(R.flip(case["bit"])(D.octets_value(p[0]))), *p[1:])
    elif how == "other":
        p = D.split(inner[k])
        ha = [p.pop(0)] if p[0][0] == 0xA0 else []
        inner[k] = D.seq(*ha, D.octets(hashlib.sha256(b"x%d" % case["bit"]).digest()), *p[1:])
    elif how == "rid":
        p = D.split(inner[k])
        ha = [p.pop(0)] if p[0][0] == 0xA0 else []
        inner[k] = D.seq(*ha, p[0], D.integer(k + 1 + case["bit"] % 5), *p[2:])
    elif how == "swap":
        if one:
            return
        a, b = D.split(inner[0]), D.split(inner[1])
        i = 1 if hn else 0
        inner[0], inner[1] = D.seq(*a[:i], b[i], *a[i + 1:]), D.seq(*b[:i], a[i], *b[i + 1:])
    else:
        return
    ctx.rejects(f"confirmation with {how}", chk, cmpx.parse(msg.build(body=M.body("certConf", D.seq(*inner)))), exc=CMPTestSuiteError, key=f"builder:{how}:{'one' if one else 'several'}")


SUBS = [
    Sub("history", history(), run_history, quick=90, thorough=2500, shards=5, text="histories of transactions and confirmations at the Mock CA"),
    Sub("builder", builds(), run_builds, quick=90, thorough=3000, shards=2, text="confirmation entries and their check, for all signature algorithms of the issued certificate"),
]
