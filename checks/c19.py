"""C19: the Mock CA answers every request with one well-formed matching response."""
from hypothesis import strategies as st

from lib import cmpx, der as D, gram, mca as M, mreq as R, pki
from lib.harness import Sub
from lib.mca import Prot

PROPERTY = "C19"
TECHNIQUE = "property-based fuzzing of the HTTP endpoints of the Mock CA: requests assembled without the suite (grammar-based arbitrary messages, valid requests with a field removed or replaced and protected again, flipped octets), each answer read and verified octet by octet against the response rules"
RULE = "at least one request of the case differs from a plain valid request"
ASSUMPTIONS = ["requests that are not a CMP message at all (not decodable) need only be answered by an error message with status 400 at the issuing endpoint"]

ENDPOINTS = ["issuing", "multi-auth", "chameleon", "sun-hybrid", "cert-discovery", "related-cert", "catalyst-sig", "catalyst-issuing"]
OTHER = ["ip", "cp", "kup", "ccp", "rp", "krr", "krp", "cann", "rann", "crlann", "ckuann", "popdecc", "popdecr", "pollReq", "pollRep", "pkiconf", "error", "genp", "nested", "genm", "kur", "ccr", "rr", "certConf"]
DN = lambda *a: M.general(pki.name(*a))  # noqa: E731
#: header field -> candidate values (None drops it)
FIELDS = {
    "transactionID": [None, b"", b"\x01", b"t" * 15, b"t" * 17, b"t" * 64], "senderNonce": [None, b"", b"\x01", b"n" * 15, b"n" * 17, b"n" * 64], "recipNonce": [b"", b"m" * 16, b"m" * 3],
    "senderKID": [None, b"", b"k" * 20], "recipKID": [b"", b"r" * 20],
}
GI = {
    "implicit-value": D.seq(D.oid("1.3.6.1.5.5.7.4.13"), D.utf8("yes")), "wait-time": D.seq(D.oid("1.3.6.1.5.5.7.4.14"), D.gtime("20260301000000Z")), "wait-bad": D.seq(D.oid("1.3.6.1.5.5.7.4.14"), D.integer(5)),
    "profile-base": D.seq(D.oid("1.3.6.1.5.5.7.4.21"), D.seq(D.utf8("base"))), "profile-unknown": D.seq(D.oid("1.3.6.1.5.5.7.4.21"), D.seq(D.utf8("nothing"))),
    "profile-two": D.seq(D.oid("1.3.6.1.5.5.7.4.21"), D.seq(D.utf8("base"), D.utf8("base"))), "profile-bad": D.seq(D.oid("1.3.6.1.5.5.7.4.21"), D.integer(1)), "profile-empty": D.seq(D.oid("1.3.6.1.5.5.7.4.21"), D.seq()),
    "unknown": D.seq(D.oid("1.2.3.4.5"), D.octets(b"abc")), "unknown-bare": D.seq(D.oid("1.2.3.4.5")), "orig-bad": D.seq(D.oid("1.3.6.1.5.5.7.4.15"), D.octets(b"\x30\x03")), "implicit": M.IMPLICIT,
    "kem-bad": D.seq(D.oid("1.3.6.1.5.5.7.4.9999"), D.octets(b"x")), "kem-info": D.seq(D.oid("1.3.6.1.5.5.7.4.24"), D.seq(D.seq(D.oid("1.2.3")), D.octets(b"x"))),
}
HEADER = ["field", "field", "field", "time", "pvno", "sender", "recipient", "freeText", "general", "general", "certs", "alg"]
BODY = ["none", "two", "reqid", "no-key", "no-subject", "no-popo", "raverified", "keyenc", "keyagree", "control", "reginfo", "same-id", "tmpl-extra", "empty-msgs", "poposkinput"]


@st.composite
def change(draw):
    kind = draw(st.sampled_from(["header"] * 3 + ["body"] * 3 + ["other"] * 2 + ["flip-body", "flip-body", "flip-header", "flip-any", "prot", "prot"]))
    return {"kind": kind, "what": draw(st.sampled_from({"header": HEADER, "body": BODY, "other": OTHER, "prot": sorted(R.PROT_BAD)}.get(kind, ["-"]))), "a": draw(st.integers(0, 40)), "b": draw(st.integers(0, 4000))}


@st.composite
def requests(draw):
    n = draw(st.integers(2, 7))
    return {"ca": draw(st.integers(0, 3)), "steps": [{"req": draw(R.steps(["ir", "cr", "p10cr", "kur", "rr", "genm", "certConf"])), "change": draw(st.one_of(st.none(), change(), change(), change())), "old": draw(st.integers(0, 5))} for _ in range(n)]}


def crmf_body(env, name, key, subj, ch):
    """A cr body with one unusual trait."""
    w = ch["what"] if ch else ""
    spki = pki.spki(*key)
    tm = M.template(None if w == "no-subject" else subj, None if w == "no-key" else spki, extra=[D.retag(9, D.seq())] if w == "tmpl-extra" and ch["a"] % 2 else ([D.ctx(1 + 0, D.integer(5))] if w == "tmpl-extra-bad" else []))
    rid = [-1, 1, 5, 2 ** 40, -7][ch["a"] % 5] if w == "reqid" else 0
    ctl = []
    if w == "control":
        ctl = [[D.seq(D.oid("1.3.6.1.5.5.7.5.1.1"), D.utf8("SuperSecretRegToken"))], [D.seq(D.oid("1.3.6.1.5.5.7.5.1.1"), D.utf8("wrong"))], [D.seq(D.oid("1.3.6.1.5.5.7.5.1.2"), D.utf8("MaidenName"))],
               [D.seq(D.oid("1.3.6.1.5.5.7.5.1.1"), D.integer(3))], [D.seq(D.oid("1.2.3.4"), D.null())], [D.seq(D.oid("1.3.6.1.5.5.7.5.1.3"), D.seq(D.integer(0)))],
               [D.seq(D.oid("1.3.6.1.5.5.7.5.1.5"), D.seq(M.general(env.ca.name), D.integer(99)))], [D.seq(D.oid("1.3.6.1.5.5.7.5.1.6"), spki)]][ch["a"] % 8]
    req = M.cert_request(rid, tm, ctl)
    proof = M.popo(key[0], key[1], req)
    if w in ("no-popo", "no-key"):
        proof = None
    elif w == "raverified":
        proof = M.RA_VERIFIED
    elif w in ("keyenc", "keyagree"):
        val = [D.retag(0, D.bits(b"abc")), D.retag(1, D.integer([0, 1, 2][ch["b"] % 3])), D.retag(2, D.integer([0, 1, 5][ch["b"] % 3])), D.retag(3, D.seq(D.octets(b"x"), D.bits(b"y")))][ch["a"] % 4]
        proof = D.ctx(2 if w == "keyenc" else 3, val)
    elif w == "poposkinput":
        inp = D.retag(0, D.seq(D.ctx(0, M.general(subj)), spki))
        proof = D.retag(1, D.seq(inp, *D.split(D.seq(*D.split(proof)))[0:2])) if False else D.retag(1, D.seq(inp, pki.alg(key[0], "sha256"), D.bits(pki.sign(key[0], key[1], D.seq(D.ctx(0, M.general(subj)), spki)))))
    reg = []
    if w == "reginfo":
        reg = [[D.seq(D.oid("1.3.6.1.5.5.7.5.2.1"), D.utf8("version?1%"))], [D.seq(D.oid("1.3.6.1.5.5.7.5.2.1"), D.utf8("nonsense"))], [D.seq(D.oid("1.3.6.1.5.5.7.5.2.2"), req)], [D.seq(D.oid("1.3.6.1.5.5.7.5.2.1"), D.integer(1))],
               [D.seq(D.oid("1.2.3.4"), D.null())]][ch["a"] % 5]
    one = M.cert_req_msg(req, proof, reg)
    msgs = [one]
    if w == "two":
        r2 = M.cert_request(1, M.template(pki.name("Second %d" % ch["b"]), spki))
        msgs.append(M.cert_req_msg(r2, M.popo(key[0], key[1], r2)))
    elif w == "same-id":
        msgs.append(one)
    elif w == "empty-msgs":
        msgs = []
    return M.body(name, D.seq(*msgs))


def other_body(env, name, n):
    """A body of the given type that need not make sense."""
    one = D.seq(D.integer(0), D.seq(D.integer(n % 7)))
    cert = env.ca.cert
    inner = M.message(M.genm(D.seq(D.oid("1.3.6.1.5.5.7.4.17"))), Prot(), b"t" * 16, b"n" * 16, sender=DN("Inner"))
    c = {"ip": D.seq(D.seq(one)), "rp": D.seq(D.seq(D.seq(D.integer(n % 7)))), "krp": D.seq(D.seq(D.integer(0))), "krr": D.seq(), "cann": cert, "rann": D.seq(D.integer(0), D.seq(D.ctx(0, M.general(env.ca.name)), D.integer(4)), D.gtime("20260301000000Z"), D.gtime("20260301000000Z")),
         "crlann": D.seq(), "ckuann": D.seq(cert, cert, cert), "popdecc": D.seq(), "popdecr": D.seq(D.integer(n)), "pollReq": D.seq(D.seq(D.integer(0))), "pollRep": D.seq(D.seq(D.integer(0), D.integer(5))), "pkiconf": D.null(),
         "error": D.seq(D.seq(D.integer(2))), "genp": D.seq(D.seq(D.oid("1.2.3.4"))), "nested": [D.seq(inner), D.seq(inner, inner), D.seq()][n % 3], "certConf": D.seq() if n % 2 else D.seq(D.seq(D.octets(b"h" * (n % 70)), D.integer(n % 3 - 1)))}
    for k in ("cp", "kup", "ccp"):
        c[k] = c["ip"]
    if name == "genm":
        return M.genm(*[[D.seq(D.oid("1.3.6.1.5.5.7.4.%d" % (n % 30)))], [D.seq(D.oid("1.3.6.1.5.5.7.4.%d" % (n % 30)), D.integer(4))], [], [D.seq(D.oid("1.3.6.1.5.5.7.4.17")), D.seq(D.oid("1.3.6.1.5.5.7.4.19"))],
                        [D.seq(D.oid("1.3.6.1.5.5.7.4.22"), D.seq(D.seq(D.ctx(0, D.seq(D.seq())))))]][n % 5])
    if name in ("kur", "ccr"):
        return M.simple(name, R.KEYS[n % len(R.KEYS)], pki.name("Other"))
    if name == "rr":
        return [M.rr_body((env.ca.name, 12345, 1)), M.rr_body((env.ca.name, 1, None)), M.rr_body((env.ca.name, 1, 1), (env.ca.name, 2, 1)), M.body("rr", D.seq()), M.body("rr", D.seq(D.seq(D.seq())))][n % 5]
    return M.body(name, c[name])


def make(env, s, i, live):
    """The octets of one request; None when the change does not apply."""
    r, ch = s["req"], s["change"]
    key, subj = tuple(r["key"]), R.subject(r, 100 + i)
    tx, nonce = env.rnd(), env.rnd()
    ee = live[s["old"] % len(live)] if live else None
    name = r["name"]
    kind = ch["kind"] if ch else None
    prot = R.prot_of(env, r, ee=ee["party"] if ee and name in ("kur", "rr") else None)
    over, gi, kw = {}, [], {"implicit": r["implicit"], "pvno": r["pvno"]}
    recip = None
    if name == "certConf":
        o = next((x["open"] for x in live[::-1] if x["open"]), None)
        tx, recip = (o["tx"], o["recip"]) if o else (tx, env.rnd())
        prot = o["prot"] if o else prot
    if kind == "other":
        bod = other_body(env, ch["what"], ch["a"])
    elif name in ("ir", "cr", "kur"):
        if name == "kur" and not ee:
            name = "cr"
        bod = crmf_body(env, name, key, subj if name != "kur" else ee["party"].subject, ch if kind == "body" else None)
    elif name == "p10cr":
        bod = M.body("p10cr", M.csr(key, subj))
    elif name == "rr":
        bod = other_body(env, "rr", ch["a"] if ch else 0) if kind == "body" or not ee else M.rr_body((env.ca.name, ee["serial"], 4))
    elif name == "genm":
        bod = other_body(env, "genm", ch["a"] if kind == "body" else 3)
    else:
        import hashlib
        e = next((x for x in live[::-1] if x["open"]), None)
        h = hashlib.sha256(e["cert"]).digest() if e else b"h" * 32
        bod = M.conf_body((h, [0, 1, -1][ch["a"] % 3] if kind == "body" else 0, [None, 2, 0, 7][ch["b"] % 4] if kind == "body" else None, [None, "sha256", "sha512", "md5" if "md5" in pki.HASH_OID else None][ch["a"] % 4] if kind == "body" else None))
    if kind == "flip-body":
        bod = cmpx.flip_leaf(bod, ch["a"], ch["b"]) or bod
    elif kind == "header":
        w = ch["what"]
        if w == "field":
            f = sorted(FIELDS)[ch["a"] % len(FIELDS)]
            v = FIELDS[f][ch["b"] % len(FIELDS[f])]
            if f == "recipNonce":
                recip = v
            else:
                over[f] = None if v is None else D.octets(v)
        elif w == "time":
            t = [None, "19700101000000Z", "20991231235959Z", "20260225000000.5Z", "20260225000000+0100", "202602250000Z", "00010101000000Z"][ch["a"] % 7]
            over["messageTime"] = None if t is None else D.gtime(t)
        elif w == "pvno":
            kw["pvno"] = [0, 1, 4, -1, 2 ** 64][ch["a"] % 5]
        elif w == "sender":
            over["sender"] = [M.general(D.seq()), D.ctxp(2, b"host.example"), D.ctxp(1, b"a@example.org"), D.retag(0, D.seq(D.oid("1.2.3"), D.ctx(0, D.utf8("x")))), DN("Somebody else"), D.ctxp(7, b"\x7f\0\0\1"), D.ctxp(8, b"\x2a\x03")][ch["a"] % 7]
        elif w == "recipient":
            kw["recipient"] = [M.general(D.seq()), D.ctxp(2, b"host.example"), D.ctxp(6, b"http://ca.example"), DN("Another CA")][ch["a"] % 4]
        elif w == "freeText":
            over["freeText"] = [D.seq(D.utf8("hello")), D.seq(D.utf8("a"), D.utf8("")), D.seq()][ch["a"] % 3]
        elif w == "general":
            gi = [GI[sorted(GI)[ch["a"] % len(GI)]]] * (1 + ch["b"] % 2)
        elif w == "certs":
            cs = prot.certs() or []
            kw["certs"] = [[], cs[::-1], cs[:1], cs + [pki.make(pki.name("Unrelated"), ("ed25519", 1), serial=3)], cs + cs, [env.ca.cert], cs[1:]][ch["a"] % 7]
        elif w == "alg":
            a = [D.seq(D.oid("1.2.3.4")), D.seq(D.oid("1.2.840.113533.7.66.13")), D.seq(D.oid("1.2.840.113533.7.66.13"), D.null()), D.seq(D.oid("1.2.840.113549.1.5.14")), D.seq(D.oid("1.2.840.113549.1.5.14"), D.seq()),
                 D.seq(D.oid("1.2.840.113533.7.66.30")), D.seq(D.oid("1.2.840.113533.7.66.16")), D.seq(D.oid("1.3.101.112"), D.null()), D.seq(D.oid("1.2.840.113549.1.1.10")), D.seq(D.oid("1.2.840.113549.1.1.11")), D.seq(D.oid("1.2.840.113533.7.66.16"), D.seq(D.seq(D.oid("1.3.14.3.2.26")), D.seq(D.oid("1.2.840.113549.2.7"))))][ch["a"] % 11]
            g = Prot(prot.party, prot.secret, prot.kind, prot.h, prot.cn) if prot.secret is None else Prot(secret=prot.secret, kind=prot.kind, h=prot.h)
            old = prot
            g.alg, g.value, g.certs, g.kid, g.sender = (lambda: a), (lambda data: old.value(data)), old.certs, old.kid, old.sender
            prot = g
    if kind == "prot":
        r2 = dict(r, name=name if name in ("ir", "cr", "p10cr") else "cr", change=ch["what"], bit=ch["b"])
        if not R.applies(r2):
            return None
        return R.build(env, r2, tx=tx, nonce=nonce)[0], r2["name"], None
    der = M.message(bod, prot, tx, nonce, recip=recip, general_info=gi, **kw, **over)
    if kind in ("flip-any", "flip-header"):
        w = M.Wire(der)
        src = der if kind == "flip-any" else w.header
        new = cmpx.flip_leaf(src, ch["a"], ch["b"])
        der = new if kind == "flip-any" else w.build(header=new)
    return der, name, {"tx": tx, "prot": prot, "key": key, "subj": subj}


def post(env, der, endpoint="issuing"):
    from mock_ca import ca_handler
    ca_handler.handler = env.ca.h
    ca_handler.app.testing = True
    r = ca_handler.app.test_client().post("/" + endpoint, data=der, content_type="application/pkixcmp")
    return r.status_code, r.get_data()


def decodable(der):
    """The request as the suite reads it, in DER; None when it is not a CMP message."""
    try:
        again = cmpx.enc(cmpx.parse(der))
        M.Wire(again).fields()
        return again
    except Exception:  # pylint: disable=broad-except
        return None


def judge(ctx, env, der, what, endpoint="issuing", macs=None):
    """One request, one answer; returns the read answer (None: not a CMP request)."""
    before = env.ca.snapshot()
    crl = sorted(e.cert_state.name for e in env.ca.h.state.certificate_db._certs)
    status, out = post(env, der, endpoint)
    der = decodable(der)
    if der is None:
        ctx.label("not decodable")
        ctx.check(status in (200, 400), f"{what}: HTTP status {status} for what is not a CMP message")
        r = M.Resp(out)
        ctx.eq(r.type, "error", f"{what}: answer to what is not a CMP message")
        ctx.eq(env.ca.snapshot(), before, f"{what}: certificates of the CA after what is not a CMP message")
        return None
    ctx.check(status == 200 or out[:1] == b"\x30", f"{what}: HTTP status {status}: {out[:200]!r}", key=f"http:{endpoint}:{status}")
    w = M.Wire(der)
    name = M.BNAME.get(w.body[0] & 31)
    r = M.Resp(out)
    if name in ("nested",):
        ctx.check(r.type in ("nested", "error"), f"{what}: {r.type} answers a nested message")
    elif name in ("popdecr",) or (name in ("ir", "cr") and r.type == "popdecc"):
        pass
    else:
        macs = [env.ca.secret]
        r = M.envelope(ctx, env.ca, der, out, what, macs, internal=endpoint == "issuing")
    ctx.check(D.minimal(out), f"{what}: response is not DER")
    if not r.accepted:
        ctx.eq(env.ca.snapshot(), before, f"{what}: certificates of the CA after the refusal ({r.type})")
        ctx.eq(sorted(e.cert_state.name for e in env.ca.h.state.certificate_db._certs), crl, f"{what}: standing of the certificates after the refusal")
    ctx.label(f"{name}->{r.type}")
    return r


def run_requests(case, ctx):
    from checks.c20 import serial
    alg = M.ALGS[case["ca"]]
    env = R.Env((alg, 1 if alg == "ed448" else 0))
    live = []
    for i, s in enumerate(case["steps"]):
        got = make(env, s, i, live)
        if got is None:
            continue
        der, name, info = got
        ch = s["change"]
        what = f"{name}, {ch['kind']} {ch['what']}" if ch else name
        if ch:
            ctx.nontrivial()
            ctx.label(f"{ch['kind']}:{ch['what']}")
        r = judge(ctx, env, der, what)
        if r is not None and r.type in ("ip", "cp", "kup") and r.accepted and r.certs and isinstance(r.certs[0], bytes) and info and not (ch and ch["kind"] not in ("header", None)):
            live.append({"party": M.Party(info["key"], info["subj"], [r.certs[0], env.ca.cert]), "serial": serial(r.certs[0]), "cert": r.certs[0], "open": None if s["req"]["implicit"] else {"tx": info["tx"], "recip": r.nonce, "prot": info["prot"]}})


@st.composite
def arbitrary(draw):
    return {"msgs": [draw(st.one_of(gram.messages(), gram.messages(), gram.messages(names=["ir", "cr", "p10cr", "kur", "rr", "genm", "certConf", "nested", "popdecr"]))) for _ in range(draw(st.integers(1, 6)))],
            "cut": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(1, 60))), "tail": draw(st.sampled_from([b"", b"", b"", b"\0", b"\x30\0"]))}


def run_arbitrary(case, ctx):
    env = R.Env(("ed25519", 0))
    ctx.nontrivial()
    for m in case["msgs"]:
        der = m["der"]
        if case["cut"]:
            der = der[:-case["cut"]] if case["cut"] < len(der) else b""
        der += case["tail"]
        judge(ctx, env, der, f"arbitrary {m['body']}")


@st.composite
def endpoints(draw):
    return {"steps": [{"req": draw(R.steps(["ir", "cr", "p10cr", "p10cr", "kur", "rr", "genm", "certConf"])), "change": draw(st.one_of(st.none(), change())), "old": 0, "at": draw(st.sampled_from(ENDPOINTS[1:]))} for _ in range(draw(st.integers(1, 4)))]}


def run_endpoints(case, ctx):
    env = R.Env(("ed25519", 0))
    ctx.nontrivial()
    for i, s in enumerate(case["steps"]):
        got = make(env, s, i, [])
        if got is None:
            continue
        ctx.label(s["at"])
        judge(ctx, env, got[0], f"{s['at']} {got[1]} {s['change'] and (s['change']['kind'], s['change']['what'])}", s["at"])


SUBS = [
    Sub("requests", requests(), run_requests, quick=100, thorough=3000, shards=4, text="sequences of requests, valid or with one unusual trait, at the issuing endpoint"),
    Sub("arbitrary", arbitrary(), run_arbitrary, quick=50, thorough=2500, shards=2, text="grammar-generated messages, cut or extended, at the issuing endpoint"),
    Sub("endpoints", endpoints(), run_endpoints, quick=40, thorough=1500, shards=2, text="requests at the endpoints for hybrid certificates"),
]
