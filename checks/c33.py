"""C33: general messages are answered with what was asked, and the validators of the answers agree."""
from hypothesis import strategies as st

from checks import c23, c24
from checks.c21 import rr
from lib import cmpx, der as D, mca as M, mreq as R, pki, sigs
from lib.harness import Skip, Sub
from lib.mca import Prot
from resources import certutils, cmputils, general_msg_utils as G

PROPERTY = "C33"
TECHNIQUE = "stateful property-based testing: generated histories of general messages (our own octets) to the Mock CA, each answer compared with an independent expectation and given to the client validator; validators over independently assembled answers with generated deviations"
RULE = "a query with a value, a malformed or unknown query or several entries; a deviating answer"
ASSUMPTIONS = ["id-it-keyPairParamReq, id-it-implicitConfirm, id-it-confirmWaitTime and id-it-certProfile alone are not supported queries of the Mock CA (it documents its answers to them as placeholders)",
               "the chosen language may be any tag the Mock CA supports, since it documents that it always answers en",
               "the external openssl chain verification of the CA certificates is replaced by a recorder: its own rules are C07's"]

IT = "1.3.6.1.5.5.7.4."
KEM = IT + "9999"  # the suite's own number for the KEM information
KEYS = [("ec:secp256r1", 0), ("ed25519", 0), ("rsa2048", 0), ("ec:secp384r1", 0)]
LANG = ["en", "de", "fr"]
ABSENT = [1, 2, 3, 4, 6, 17, 19]
UNKNOWN = [5, 8, 9, 11, 14, 15, 18, 23, 24, 99]
DN, URL = "directory", "url"
JUNK = [D.integer(5), D.seq(D.integer(5)), D.utf8("x"), D.seq(D.seq(D.seq(D.integer(1)))), D.octets(b"abc")]
ALGS = {"rsa": "1.2.840.113549.1.1.1", "ed25519": "1.3.101.112", "ed448": "1.3.101.113", "x25519": "1.3.101.110", "x448": "1.3.101.111"}
EC, P256, P384, P521 = "1.2.840.10045.2.1", "1.2.840.10045.3.1.7", "1.3.132.0.34", "1.3.132.0.35"


def itav(n, v=None):
    return D.seq(D.oid(n if isinstance(n, str) else IT + str(n)), *([v] if v is not None else []))


def oid_text(der):
    return sigs.oid_str(der)


def alg(o, *p):
    return D.seq(D.oid(o), *p)


# ---- queries
@st.composite
def query(draw):
    k = draw(st.sampled_from(["plain", "plain", "plain", "lang", "root", "crls", "crls", "pass", "pass", "kem", "unknown", "filled", "junk", "missing", "lang-bad", "several", "several", "none", "revoke"]))
    q = {"k": k, "n": draw(st.sampled_from(ABSENT)), "mac": draw(st.booleans())}
    i = draw(st.integers(0, 9))
    if k == "lang":
        q["v"] = draw(st.lists(st.sampled_from(LANG), min_size=1, max_size=3, unique=True))
    elif k == "lang-bad":
        q["v"] = draw(st.lists(st.sampled_from(LANG), max_size=2)) + [draw(st.sampled_from(["xx", "es", "", "english", "d"]))]
        q["v"] = draw(st.permutations(q["v"]))
    elif k == "root":
        q["v"] = draw(st.sampled_from(["none", "own", "other"]))
    elif k == "crls":
        kinds = st.sampled_from(["dpn-name", "dpn-url", "issuer", "dpn-other", "dpn-url-other", "issuer-other", "issuer-mail", "dpn-mixed"])
        q["v"] = [[draw(kinds), draw(st.sampled_from([None, None, 90, 30, 2, -1, 0]))] for _ in range(draw(st.integers(1, 3)))]
    elif k == "pass":
        q["v"], q["mac"] = draw(st.text(min_size=1, max_size=12)), True
        q["bad"] = draw(st.sampled_from([None, None, "password", "pvno"]))
    elif k == "kem":
        q["v"] = draw(st.sampled_from(["ml-kem-512", "ml-kem-768", "ml-kem-1024"]))
        q["bad"] = draw(st.sampled_from([None, None, "filled", "no-cert", "sign-cert"]))
    elif k == "unknown":
        q["v"] = UNKNOWN[i]
    elif k in ("filled", "junk"):
        q["v"] = i % len(JUNK)
        q["n"] = q["n"] if k == "filled" else draw(st.sampled_from([12, 16, 20, 22, 7]))
    elif k == "missing":
        q["n"] = draw(st.sampled_from([12, 16, 22]))
    elif k == "several":
        q["v"] = draw(st.lists(st.sampled_from(ABSENT), min_size=2, max_size=3))
    return q


@st.composite
def history(draw):
    return {"key": draw(st.integers(0, len(KEYS) - 1)), "ops": draw(st.lists(query(), min_size=3, max_size=9))}


def source(kind, env):
    own, other = D.ctx(4, env.ca.name), D.ctx(4, pki.name("Other Root"))
    url = D.ctxp(6, env.ca.h.genm_handler.crl_url.encode())
    g = {"dpn-name": [own], "dpn-url": [url], "issuer": [own], "dpn-other": [other], "dpn-url-other": [D.ctxp(6, b"http://other.example/crl")], "issuer-other": [other],
         "issuer-mail": [D.ctxp(1, b"ca@other.example")], "dpn-mixed": [other, url]}[kind]
    return (D.ctx(1, D.seq(*g)) if kind.startswith("issuer") else D.ctx(0, D.ctx(0, *g))), not (kind.endswith("other") or kind.endswith("mail"))


class Records:
    """Stands in for the external openssl verification."""

    def __enter__(self):
        self.old, self.chains = certutils.verify_cert_chain_openssl, []
        certutils.verify_cert_chain_openssl = lambda cert_chain, *a, **k: self.chains.append(list(cert_chain))
        return self

    def __exit__(self, *a):
        certutils.verify_cert_chain_openssl = self.old


def algs_of(v):
    out = []
    for a in D.split(v):
        p = D.split(a)
        out.append((oid_text(p[0]),) + tuple(oid_text(x) if x[0] == 6 else x for x in p[1:]))
    return out


def check_root(ctx, v, root, root_spki, what):
    p = D.split(v)
    ctx.eq([x[0] for x in p[:3]], [0x30, 0xA0, 0xA1], what + ": parts of the root update")
    nn, no, on = p[0], M.inner(p[1]), M.inner(p[2])

    def key(c):
        t = D.split(D.split(c)[0])
        return (t[1:] if t[0][0] == 0xA0 else t)[5]

    def signed(c, k, name):
        tbs, a, s = D.split(c)
        ctx.check(sigs.verify(a, k, tbs, sigs.bits(s)), f"{what}: {name} is not signed by the right key")

    ctx.check(key(nn) != root_spki, what + ": the new root certificate has the old key")
    ctx.eq(key(no), key(nn), what + ": key of newWithOld")
    ctx.eq(key(on), root_spki, what + ": key of oldWithNew")
    signed(nn, key(nn), "newWithNew")
    signed(no, root_spki, "newWithOld")
    signed(on, key(nn), "oldWithNew")


def run_mock(case, ctx):
    key = KEYS[case["key"]]
    env = R.Env(key)
    gh = env.ca.h.genm_handler
    ra, revoked, phrases = env.ra(0), set(), []

    def crl_ok(der, what):
        c = c23.Crl(der)
        ctx.check(sigs.verify(c.alg, env.ca.spki, c.tbs, c.sig), what + ": the CRL is not signed by the CA")
        ctx.eq(c.issuer, env.ca.name, what + ": issuer of the CRL")
        ctx.eq(set(c.rows), revoked, what + ": revoked certificates of the CRL")

    for j, q in enumerate(case["ops"]):
        k, n = q["k"], q["n"]
        what = f"{j}: {k} {q.get('v', n if k in ('plain', 'filled', 'junk', 'missing') else '')}"
        prot = Prot(secret=env.ca.secret) if q["mac"] else Prot(party=ra)
        if k == "revoke":
            # a certificate of the CA, revoked by its RA
            e, r = env.issue(("ed25519", j % 2), "Victim %d" % j)
            ser = M.num(D.split(D.split(r.certs[0])[0])[1])
            rp = M.Resp(env.ca.send(M.message(M.rr_body((env.ca.name, ser, 1)), Prot(party=e), env.rnd(), env.rnd())))
            if not rp.accepted:
                raise Skip("the revocation was refused: " + rp.text[:80])
            revoked.add(ser)
            continue
        items, good, pvno, kw, unprot, ekey = [], True, 3, {}, False, None
        if k == "plain":
            items = [itav(n)]
        elif k in ("lang", "lang-bad"):
            items, good = [itav(16, D.seq(*[D.utf8(x) for x in q["v"]]))], k == "lang"
        elif k == "root":
            other = pki.make(pki.name("Verif Root"), ("ed448", 0), serial=7, exts=[pki.bc()])
            items = [itav(20, {"none": None, "own": env.ca.cert, "other": other}[q["v"]])]
        elif k == "crls":
            rows = [(source(s, env), d) for s, d in q["v"]]
            items = [itav(22, D.seq(*[D.seq(s[0], *([pki.stamp(M.now() - d * 86400)] if d is not None else [])) for s, d in rows]))]
            due = any(s[1] and (d is None or d >= 2) for s, d in rows)
        elif k == "pass":
            secret = env.ca.secret if q["bad"] != "password" else "another"
            items = [cmpx.enc(G.prepare_revocation_passphrase(q["v"], password=secret))]
            good, pvno = q["bad"] is None, 2 if q["bad"] == "pvno" else 3
        elif k == "kem":
            from lib import keys
            ekey = (q["v"], 0)
            c = pki.make(pki.name("Kem %d" % j), ekey if q["bad"] != "sign-cert" else ("ed25519", 0), env.ca.name, env.ca.key, serial=900 + j, exts=[pki.ku("keyEncipherment")])
            items = [itav(KEM, D.octets(b"abc") if q["bad"] == "filled" else None)]
            good, unprot, kw = q["bad"] is None, True, {"certs": [] if q["bad"] == "no-cert" else [c]}
        elif k == "unknown":
            items, good = [itav(q["v"])], False
        elif k in ("filled", "junk"):
            items, good = [itav(n, JUNK[q["v"]])], False
        elif k == "missing":
            items, good = [itav(n)], False
        elif k == "several":
            items, good = [itav(x) for x in q["v"]], False
        elif k == "none":
            good = False
        tx = env.rnd()
        if unprot:
            kw["sender"] = M.general(pki.name("Kem %d" % j))
            prot = Prot()
        req = M.message(M.genm(*items), prot, tx, env.rnd(), pvno=pvno, **kw)
        before = len(gh.state.rev_passphrases)
        ctx.op(1)
        ctx.label(k if good else "bad " + k)
        if not good or k in ("lang", "root", "crls", "pass", "kem"):
            ctx.nontrivial()
        resp = env.ca.send(req)
        if unprot:
            r = M.Resp(resp)
            ctx.eq(r.tx, tx, what + ": transactionID")
        else:
            r = M.envelope(ctx, env.ca, req, resp, what, internal=q.get("bad") != "password")
        if not good:
            ctx.check(r.type == "error", f"{what}: answered with {r.type} instead of an error", key="bad-answered")
            ctx.check(len(gh.state.rev_passphrases) == before, what + ": a refused passphrase was kept")
            continue
        ctx.eq(r.type, "genp", f"{what}: answer ({r.text[:150]})", key="refused")
        rows = D.split(M.inner(r.w.body))
        ctx.eq(len(rows), 1, what + ": entries of the answer")
        p = D.split(rows[0])
        typ, v = oid_text(p[0]), (p[1] if len(p) > 1 else None)
        expect = {"lang": 16, "root": 18, "crls": 23, "pass": 12, "kem": 9999}.get(k, n)
        ctx.eq(typ, IT + str(expect), what + ": type of the answer", key="type")
        msg = cmputils.parse_pkimessage(resp)
        if k == "plain":
            ctx.check(v is not None, what + ": answer without a value")
            if n == 1:
                t = D.split(D.split(v)[0])
                from resources import convertutils
                ctx.check(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(gh.prot_enc_key.public_key())) in t, what + ": the certificate is not for the decryption key of the CA")
            elif n == 2:
                have = {a[0] for a in algs_of(v)}
                ctx.check({ALGS["rsa"], ALGS["ed25519"], ALGS["ed448"], EC} <= have, what + f": missing signature key types: {sorted(have)[:5]}")
                ctx.accepts(what + ": validator", G.validate_signing_key_types, msg)
            elif n == 3:
                have = algs_of(v)
                ctx.check({(ALGS["x25519"],), (ALGS["x448"],), (EC, P256)} <= set(have), what + ": missing key types")
                names = ctx.accepts(what + ": validator", G.validate_encr_and_key_agreement_types, msg)
                ctx.eq(len(names), len(have), what + ": names of the validator")
            elif n == 4:
                ctx.eq(oid_text(D.split(v)[0]), "2.16.840.1.101.3.4.1.42", what + ": preferred algorithm")
                name = ctx.accepts(what + ": validator", G.validate_preferred_sym_alg, msg)
                ctx.check("256" in name, what + f": name of the validator: {name}")
            elif n == 6:
                crl_ok(v, what)
                ctx.accepts(what + ": validator", G.validate_current_crl, msg)
            elif n == 17:
                ctx.eq(D.split(v), [env.ca.cert], what + ": CA certificates")
                with Records():
                    chain = ctx.accepts(what + ": validator", G.validate_get_ca_certs, msg, must_be_present=True)
                ctx.eq([cmpx.enc(c) for c in chain], [env.ca.cert], what + ": chain of the validator")
            elif n == 19:
                spec = D.split(D.split(v)[1])
                ctx.eq([oid_text(D.split(s)[0]) for s in spec], ["1.3.6.1.5.5.7.5.1.12"], what + ": controls")
                ctx.check(M.num(D.split(spec[0])[1]) >= 2048, what + ": RSA key length")
                ctx.accepts(what + ": validator", G.validate_get_certificate_request_template, msg, must_be_present=True, control_presents=True)
        elif k == "lang":
            tags = [M.inner(x).decode() for x in D.split(v)]
            ctx.check(len(tags) == 1 and tags[0] in LANG, what + f": language {tags}")
            ctx.accepts(what + ": validator", G.validate_supported_language_tags, msg)
        elif k == "root":
            if q["v"] == "other":
                ctx.check(v is None, what + ": a root update for a root that is not of this CA")
            else:
                ctx.check(v is not None, what + ": no root update")
                check_root(ctx, v, env.ca.cert, env.ca.spki, what)
            ctx.accepts(what + ": validator", G.validate_get_root_ca_cert_update, msg, old_ca_cert=pki.obj(env.ca.cert))
        elif k == "crls":
            ctx.eq(v is not None, due, what + ": a CRL is returned", key="crls-due")
            if v is not None:
                got = D.split(v)
                ctx.check(got, what + ": an empty list of CRLs")
                for c in got:
                    crl_ok(c, what)
        elif k == "pass":
            phrases.append(q["v"].encode())
            ctx.check(v is None, what + ": value in the answer")
            ctx.eq(gh.state.rev_passphrases[-1:], phrases[-1:], what + ": passphrase kept by the CA")
            ctx.accepts(what + ": validator", G.validate_revocation_passphrase_response, msg)
        elif k == "kem":
            from lib import keys
            ss = ctx.accepts(what + ": validator", G.validate_genp_kem_ct_info, msg, keys.get(*ekey))
            ct = next(x for x in D.split(v)[1:] if x[0] == 4)
            ctx.eq(ss, keys.get(*ekey).decaps(M.inner(ct)), what + ": shared secret")


# ---- validators
def gens():
    o = lambda n, **kw: (n, kw)
    return {
        "caCerts": ["ok", "ok-absent", "must-absent", "empty", "junk", "otype", "two", "none", "count", "type"],
        "rootUpdate": ["ok", "ok-no-own", "ok-absent", "nwn-bad", "nwo-bad", "own-bad", "nwo-key", "own-key", "nwo-missing", "other-old", "junk", "otype", "two", "none", "type"],
        "template": ["ok-len", "ok-alg", "ok-none", "ok-absent", "must-absent", "must-control", "short", "alg-rsa", "alg-params", "alg-nocurve", "alg-curve", "alg-unknown", "both", "control", "t-key", "t-serial", "t-sig",
                     "t-iuid", "t-suid", "junk", "otype", "two", "none", "type"],
        "sym": ["ok", "hash", "sigalg", "absent", "junk", "otype", "two", "none", "type"],
        "enc": ["ok", "empty", "nocurve", "curve", "unknown", "absent", "junk", "otype", "two", "none", "type"],
        "sign": ["ok", "absent", "junk", "otype", "two", "none", "type"],
        "lang": ["ok", "tags", "notag", "absent", "junk", "otype", "two", "none", "type"],
        "pass": ["ok", "value", "otype", "two", "none", "type"],
        "kem": ["ok", "absent", "junk", "otype", "two", "none", "type"],
    }


@st.composite
def answer(draw):
    g = gens()
    k = draw(st.sampled_from(sorted(g) + ["template"] * 3 + ["rootUpdate"] * 2))
    return {"k": k, "dev": draw(st.sampled_from(g[k])), "i": draw(st.integers(0, 5)), "n": draw(st.integers(0, 4096)), "s": draw(st.booleans())}


NUM = {"caCerts": 17, "rootUpdate": 18, "template": 19, "sym": 4, "enc": 3, "sign": 2, "lang": 16, "pass": 12, "kem": 9999}
PAIRS = [("ec:secp256r1", 0), ("rsa2048", 0), ("ed25519", 0), ("ec:secp384r1", 0), ("ec:secp256r1", 1), ("rsa2048", 1)]


def ca(cn, key, by=None, issuer=None, **kw):
    by = by or key
    return pki.make(pki.name(cn), key, pki.name(issuer or cn), by, serial=kw.pop("serial", 12345678901234567890), exts=[pki.bc(), pki.ku("keyCertSign", "cRLSign"), pki.ski(*key), pki.aki(*by)], **kw)


def value_of(c):
    """(value or None, keyword arguments, accepted) for the case without the common deviations."""
    k, d, i, n = c["k"], c["dev"], c["i"], c["n"]
    kw, ok, v = {}, True, None
    if k == "caCerts":
        a, b = PAIRS[i], PAIRS[(i + 1) % 6]
        root = ca("Root", a)
        chain = [ca("Sub", b, a, "Root", serial=99), root]
        v = D.seq(*(chain if c["s"] else chain[::-1]))
        if d in ("ok-absent", "must-absent"):
            v, kw, ok = None, {"must_be_present": d == "must-absent"}, d == "ok-absent"
        elif d == "empty":
            v, ok = D.seq(), False
        elif d == "count":
            kw, ok = {"expected_size": 2}, False
        else:
            kw = {"must_be_present": c["s"]}
    elif k == "rootUpdate":
        a, b, x = PAIRS[i], PAIRS[(i + 1 + n % 4) % 6], PAIRS[(i + 5) % 6]
        old = ca("Root", a)
        nk = x if d == "nwo-key" else b
        nwn = ca("Root", b, spoil=n if d == "nwn-bad" else None)
        nwo = ca("Root", nk, a, "Root", spoil=n if d == "nwo-bad" else None)
        own = ca("Root", x if d == "own-key" else a, b, "Root", spoil=n if d == "own-bad" else None)
        parts = [nwn] + ([D.ctx(0, nwo)] if d != "nwo-missing" else []) + ([D.ctx(1, own)] if d != "ok-no-own" else [])
        v, ok = D.seq(*parts), d.startswith("ok")
        if d == "ok-absent":
            v = None
        kw = {"old_ca_cert": pki.obj(ca("Root", x) if d == "other-old" else old)}
    elif k == "template":
        LEN, ALG = "1.3.6.1.5.5.7.5.1.12", "1.3.6.1.5.5.7.5.1.11"
        length = D.seq(D.oid(LEN), D.integer(2048 + n if d != "short" else n % 2048))
        ec = alg(EC, D.oid([P256, P384, P521][i % 3]))
        a = {"alg-rsa": alg(ALGS["rsa"], D.null()), "alg-params": alg(ALGS["ed25519" if c["s"] else "ed448"], D.null()), "alg-nocurve": alg(EC), "alg-curve": alg(EC, D.oid("1.2.3.%d" % (n + 1))),
             "alg-unknown": alg("1.2.3.%d" % (n + 1))}.get(d, [ec, alg(ALGS["ed25519"]), alg(ALGS["ed448"])][n % 3])
        al = D.seq(D.oid(ALG), a)
        spec = [al] if d.startswith("alg") or d == "ok-alg" else [length]
        if d == "both":
            spec = [al, length] if c["s"] else [length, al]
        elif d == "control":
            spec = [D.seq(D.oid("1.3.6.1.5.5.7.5.1.%d" % (1 + i % 6)), D.utf8("x"))]
        elif d in ("ok-none", "must-control") or d.startswith("t-"):
            spec = []
        t = M.template(pki.name("N"), exts=[pki.ku("digitalSignature")]) if c["s"] else M.template(pki.name("N"))
        bad = {"t-key": M.template(pki.name("N"), pki.spki("ed25519", 0)), "t-serial": M.template(pki.name("N"), serial=n), "t-sig": D.seq(D.ctx(2, D.oid("1.2.840.10045.4.3.2"))),
               "t-iuid": D.seq(D.ctxp(7, b"\0abc")), "t-suid": D.seq(D.ctxp(8, b"\0abc"))}.get(d)
        v, ok = D.seq(bad or t, *([D.seq(*spec)] if spec else [])), d.startswith("ok")
        if d in ("ok-absent", "must-absent"):
            v = None
        kw = {"must_be_present": d == "must-absent" or (c["s"] and d != "ok-absent"), "control_presents": d == "must-control"}
    elif k == "sym":
        v = alg("2.16.840.1.101.3.4.1.%d" % [2, 22, 42][i % 3], D.octets(b"0" * 16))
        if d == "hash":
            v, ok = alg(pki.HASH_OID[["sha256", "sha384", "sha512"][i % 3]]), False
        elif d == "sigalg":
            v, ok = alg(pki.EC_OID["sha256"]), False
        elif d == "absent":
            v, ok = None, False
    elif k in ("enc", "sign"):
        good = [alg(EC, D.oid(P256)), alg(EC, D.oid(P384))] + [alg(ALGS[x]) for x in (("x25519", "x448") if k == "enc" else ("ed25519", "ed448"))]
        rows = [good[(i + z) % 4] for z in range(1 + n % 4)]
        extra = {"nocurve": alg(EC), "curve": alg(EC, D.oid("1.2.3.%d" % (n + 1))), "unknown": alg("1.2.3.%d" % (n + 1))}.get(d)
        if extra:
            rows.insert(n % (len(rows) + 1), extra)
        v, ok = D.seq(*(rows if d != "empty" else [])), d == "ok" or d in ("otype", "two", "none", "type", "junk")
        if d == "absent":
            v = None
    elif k == "lang":
        v = D.seq(*[D.utf8(x) for x in {"tags": LANG[:2 + n % 2], "notag": []}.get(d, [LANG[i % 3]])])
        ok = d not in ("tags", "notag", "absent")
        v = None if d == "absent" else v
    elif k == "pass":
        v, ok = (JUNK[i % 5] if d == "value" else None), d != "value"
    elif k == "kem":
        from lib import keys
        key = keys.get("ml-kem-768", 0)
        _ss, ct = key.public_key().encaps()
        v = D.seq(alg("2.16.840.1.101.3.4.4.2"), D.octets(ct)) if d != "absent" else None
        kw, ok = {"client_private_key": key}, d != "absent"
    return v, kw, ok


VALIDATOR = {"caCerts": G.validate_get_ca_certs, "rootUpdate": G.validate_get_root_ca_cert_update, "template": G.validate_get_certificate_request_template, "sym": G.validate_preferred_sym_alg,
             "enc": G.validate_encr_and_key_agreement_types, "sign": G.validate_signing_key_types, "lang": G.validate_supported_language_tags, "pass": G.validate_revocation_passphrase_response, "kem": G.validate_genp_kem_ct_info}


def run_validators(case, ctx):
    k, d, i = case["k"], case["dev"], case["i"]
    v, kw, ok = value_of(case)
    num, body = NUM[k], "genp"
    if d == "junk":
        v, ok = JUNK[i % 5], False
        if k in ("enc", "sign") and i % 5 == 3:
            raise Skip("could be read as algorithms")
    elif d == "otype":
        num, ok = [5, 8, 2, 4, 1, 14][i], False
        if num == NUM[k]:
            num = 6
    row = itav(num, v)
    rows = {"two": [row, itav(5)] if case["s"] else [itav(5), row], "none": []}.get(d, [row])
    if d == "two" and i % 2:
        rows = [row, row]
    if d in ("two", "none"):
        ok = False
    elif d == "type":
        body, ok = "genm", False
    m = cmputils.parse_pkimessage(c24.plain(body, b"t" * 16, b"n" * 16, b"r" * 16, D.seq(*rows)))
    what = f"{k}, {d}"
    ctx.op(1)
    ctx.label(k + (" ok" if ok else " deviating"))
    if not ok:
        ctx.nontrivial()
    with Records() as rec:
        if not ok:
            ctx.rejects(what, VALIDATOR[k], m, key=what, **kw)
            return
        out = ctx.accepts(what, VALIDATOR[k], m, key=what, **kw)
    if k == "caCerts":
        if v is None:
            ctx.check(out is None, what + ": certificates from an absent value")
        else:
            ctx.eq(sorted(cmpx.enc(c) for c in out), sorted(D.split(v)), what + ": chain", key="chain")
            ctx.check(rec.chains, what + ": the chain was not verified")
    elif k == "enc":
        ctx.eq(len(out), len(D.split(v)), what + ": names")
    elif k == "kem":
        ct = D.split(v)[1]
        ctx.eq(out, kw["client_private_key"].decaps(M.inner(ct)), what + ": shared secret")


SUBS = [
    Sub("mock", history(), run_mock, quick=60, thorough=900, shards=4, text="histories of 3 to 9 general messages to the Mock CA: every supported query, values of every kind, revocations in between, unknown, filled, empty, malformed and multiple entries"),
    Sub("validators", answer(), run_validators, quick=900, thorough=12000, shards=4, text="independently assembled answers to nine queries, as they should be or with one deviation, given to the client validator"),
]
