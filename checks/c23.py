"""C23: published revocation status equals the revocation history."""
import datetime
import hashlib
import os

from hypothesis import strategies as st

from checks.c20 import serial
from checks.c21 import CODES, rr
from lib import cmpx, der as D, ec, harness, mca as M, mreq as R, pki, sigs  # noqa: F401
from lib.harness import Skip, Sub
from lib.mca import Party, Prot
from resources import certutils
from resources.exceptions import CertRevoked

PROPERTY = "C23"
TECHNIQUE = ("stateful property-based testing: generated histories of enrolments, revocations, revivals and updates at the Mock CA, after which CRL and OCSP answers are decoded and verified by the check's own reader and "
             "compared with the history; generated CRLs and OCSP responses for the relying-party checks")
RULE = "the history changes the revocation status of at least one certificate, or the published list or response was made for the case and names at least one certificate"
ASSUMPTIONS = ["updated certificates count as revoked by the documented default of the database: both answers must then agree, with reason 'superseded'", "a certificate that is not known may be answered with 'unknown' or 'unauthorized'",
               "CRLs are signed with classical keys (the suite's documented limit)", "CRLs of another issuer are out of the domain of the serial-number check"]
ERR = (ValueError, Exception)
NAMEOF = {v: k for k, v in M.REASONS.items()}
HASHES = ["sha1", "sha224", "sha256", "sha384", "sha512"]
HOID = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}


def when(tlv):
    s = D.octets_value(D.retag(4, tlv)).decode() if False else tlv[2:].decode()
    f = "%y%m%d%H%M%SZ" if tlv[0] == 0x17 else "%Y%m%d%H%M%SZ"
    return datetime.datetime.strptime(s, f).replace(tzinfo=datetime.timezone.utc).timestamp()


def oidv(tlv):
    return sigs.oid_str(tlv)


def num(tlv):
    return int.from_bytes(D.octets_value(D.tlv(4, tlv[D.read(tlv)[1]:])) if False else tlv[2:], "big", signed=True) if tlv[1] < 128 else int.from_bytes(tlv[D.read(tlv)[1]:], "big")


def ext_map(seq):
    out = {}
    for e in D.split(seq):
        p = D.split(e)
        out[oidv(p[0])] = D.octets_value(p[-1])
    return out


class Crl:
    def __init__(self, der):
        tbs, self.alg, sig = D.split(der)
        self.tbs, self.sig = tbs, sigs.bits(sig)
        p = D.split(tbs)
        assert num(p[0]) == 1
        self.inner, self.issuer, self.this, self.next = p[1], p[2], when(p[3]), when(p[4])
        p = p[5:]
        self.rows, self.exts = {}, {}
        self.double = False
        if p and p[0][0] == 0x30:
            for row in D.split(p[0]):
                r = D.split(row)
                reason = None
                if len(r) > 2:
                    x = ext_map(r[2]).get("2.5.29.21")
                    reason = NAMEOF.get(x[2], x[2]) if x is not None else None
                n = num(r[0])
                self.double = self.double or n in self.rows
                self.rows[n] = (reason, when(r[1]))
            p = p[1:]
        if p:
            self.exts = ext_map(D.split(p[0])[0])


def ocsp_request(name, key_bits, ser, h, nonce=None):
    cid = D.seq(D.seq(D.oid(HOID[h]), D.null()), D.octets(hashlib.new(h, name).digest()), D.octets(hashlib.new(h, key_bits).digest()), D.integer(ser))
    ext = [] if nonce is None else [D.ctx(2, D.seq(D.seq(D.oid("1.3.6.1.5.5.7.48.1.2"), D.octets(D.octets(nonce)))))]
    return D.seq(D.seq(D.seq(D.seq(cid)), *ext))


class Ocsp:
    """A decoded OCSP response: .status (responseStatus), and for 0: .alg .tbs .sig .state .reason .time .cid .nonce"""

    def __init__(self, der):
        p = D.split(der)
        self.status = p[0][2]
        if self.status:
            return
        typ, oct_ = D.split(D.split(p[1])[0])
        assert oidv(typ) == "1.3.6.1.5.5.7.48.1.1"
        b = D.split(D.octets_value(oct_))
        self.tbs, self.alg, self.sig = b[0], b[1], sigs.bits(b[2])
        q = D.split(self.tbs)
        if q[0][0] == 0xA0:
            q = q[1:]
        self.rid, self.at, rs = q[0], when(q[1]), D.split(q[2])
        self.nonce = None
        if len(q) > 3:
            x = ext_map(D.split(q[3])[0]).get("1.3.6.1.5.5.7.48.1.2")
            self.nonce = None if x is None else (D.octets_value(x))
        self.n = len(rs)
        r = D.split(rs[0])
        self.cid = r[0]
        self.reason, self.time = None, None
        t = r[1][0]
        self.state = {0x80: "good", 0xA1: "revoked", 0x82: "unknown"}.get(t, hex(t))
        if t == 0xA1:
            x = D.split(r[1])
            self.time = when(x[0])
            if len(x) > 1:
                self.reason = NAMEOF.get(D.split(x[1])[0][2])
        self.this = when(r[2])


def bits_of(spki_der):
    return sigs.bits(D.split(spki_der)[1])


# ------------------------------------------------------------------ histories at the CA

@st.composite
def history(draw):
    n = draw(st.integers(2, 12))
    op = st.sampled_from(["enrol", "enrol", "revoke", "revoke", "revoke", "revive", "revive", "update", "bad", "look"])
    return {"ca": draw(st.integers(0, 3)), "ops": [[draw(op), draw(st.integers(0, 7)), draw(st.integers(0, 7)), draw(st.sampled_from(CODES)), draw(st.integers(0, 8))] for _ in range(n)],
            "hash": draw(st.sampled_from(HASHES)), "nonce": draw(st.none() | st.binary(min_size=1, max_size=32)), "rand": draw(st.integers(1 << 40, 1 << 100)), "pick": draw(st.integers(0, 7))}


class View:
    def __init__(self, env, ctx, case):
        self.env, self.ctx, self.case, self.crl_no = env, ctx, case, 0
        self.spki = pki.spki(*env.ca.key)

    def crl(self, model, what):
        import time
        ctx, env = self.ctx, self.env
        der = env.ca.h.get_current_crl()
        c = Crl(der)
        ctx.op(1)
        ctx.check(sigs.verify(c.alg, self.spki, c.tbs, c.sig), what + ": the CRL is not signed by the CA", key="crl-sig")
        ctx.eq(c.inner, c.alg, "algorithm inside and outside", key="crl-alg")
        ctx.eq(c.issuer, env.ca.name, "issuer of the CRL", key="crl-issuer")
        ctx.check(c.this <= time.time() <= c.next, "the CRL is not current", key="crl-time")
        no = int.from_bytes(c.exts["2.5.29.20"][2:], "big")
        ctx.check(no > self.crl_no, f"CRL number {no} after {self.crl_no}", key="crl-number")
        self.crl_no = no
        ctx.check(not c.double, what + ": a certificate is listed twice", key="crl-double")
        want = {s: m for s, m in model.items() if m["state"] in ("revoked", "updated")}
        ctx.eq(sorted(c.rows), sorted(want), f"{what}: listed serial numbers", key="crl-list")
        for s, m in want.items():
            reason, t = c.rows[s]
            ctx.check(reason == m["reason"] or (m["reason"] == "unspecified" and reason is None), f"{what}: listed with reason {reason}, revoked for {m['reason']}", key="crl-reason")
            ctx.check(t <= time.time() + 1, "the revocation date is in the future", key="crl-date")
            if m.get("at"):
                ctx.check(abs(t - m["at"]) <= 300, f"the revocation date is {t - m['at']} s away from the revocation", key="crl-date")
        return der

    def ask(self, ser, h, nonce, name=None, spki=None):
        der = ocsp_request(name or self.env.ca.name, bits_of(spki or self.spki), ser, h, nonce)
        out = self.env.ca.h.process_ocsp_request(der)
        return Ocsp(out), out

    def ocsp(self, ser, m, what):
        import time
        ctx, h, nonce = self.ctx, self.case["hash"], self.case["nonce"]
        o, raw = self.ask(ser, h, nonce)
        ctx.op(1)
        if m is None:
            ctx.check(o.status == 6 or (o.status == 0 and o.state == "unknown"), f"{what}: answered {o.status} {getattr(o, 'state', '')}", key="ocsp-unknown")
            return raw
        if not ctx.eq(o.status, 0, what + ": responseStatus", key="ocsp-status"):
            return raw
        ctx.check(sigs.verify(o.alg, self.spki, o.tbs, o.sig), what + ": the response is not signed by the CA", key="ocsp-sig")
        ctx.eq(o.n, 1, "responses", key="ocsp-n")
        q = D.split(D.split(D.split(D.split(D.split(ocsp_request(self.env.ca.name, bits_of(self.spki), ser, h)[0:])[0])[0])[0])[0])
        ctx.eq(D.split(o.cid)[1:], q[1:], what + ": certificate identified by the response", key="ocsp-id")
        ctx.eq(D.split(D.split(o.cid)[0])[0], D.split(q[0])[0], "hash algorithm of the response", key="ocsp-id")
        ctx.eq(o.nonce, nonce, "nonce", key="ocsp-nonce")
        want = "revoked" if m["state"] in ("revoked", "updated") else "good"
        ctx.eq(o.state, want, what + ": OCSP status", key="ocsp-state")
        if want == "revoked":
            ctx.check(o.reason == m["reason"] or (m["reason"] == "unspecified" and o.reason is None), f"{what}: OCSP reason {o.reason}, revoked for {m['reason']}", key="ocsp-reason")
            ctx.check(o.time <= time.time() + 1 and (not m.get("at") or abs(o.time - m["at"]) <= 300), "the revocation time does not fit", key="ocsp-date")
        return raw


def run_history(case, ctx):
    import time
    alg = M.ALGS[case["ca"]]
    env = R.Env((alg, 1 if alg == "ed448" else 0))
    env.ca.h.state.certificate_db.updated_cert_timeout = 10 ** 6
    v = View(env, ctx, case)
    ents, model = [], {}
    changed = 0
    v.crl(model, "before everything")
    for n, (op, a, b, why, k) in enumerate(case["ops"]):
        key = R.KEYS[k]
        if op == "enrol" or not ents:
            subj = pki.name("End Entity %d" % n)
            r = M.Resp(env.ca.send(M.message(M.simple("ir", key, subj), Prot(secret=env.ca.secret, kind="hmac"), env.rnd(), env.rnd(), implicit=True)))
            if not ctx.check(r.accepted, "enrolment: " + r.text[:150], key="enrol"):
                return
            c = r.certs[0]
            ents.append({"party": Party(key, subj, [c, env.ca.cert]), "cert": c, "serial": serial(c), "state": "good", "key": key, "keys": {key}})
            model[serial(c)] = ents[-1]
        elif op in ("revoke", "bad"):
            t, s = ents[a % len(ents)], ents[b % len(ents)]
            r = M.Resp(env.ca.send(rr(env, s["party"], t["serial"], M.REASONS[why], **({"damage": R.flip(n * 37 + 5)} if op == "bad" else {}))))
            if op == "bad":
                ctx.check(not r.accepted, "a damaged revocation request was accepted", key="bad-rr")
            elif r.accepted:
                ctx.check(s["state"] == "good", "a revoked certificate revoked another", key="rev-signer")
                t.update(state="revoked", reason=why, at=time.time())
                changed += 1
            else:
                ctx.check(not (s["state"] == "good" and t["state"] == "good"), "revocation refused: " + r.text[:120], key="rev-refused")
        elif op == "revive":
            gone = [e for e in ents if e["state"] == "revoked"]
            if not gone:
                continue
            t = gone[a % len(gone)]
            s = t if b % 2 else ents[b % len(ents)]
            r = M.Resp(env.ca.send(rr(env, s["party"], t["serial"], 8)))
            if r.accepted:
                t.update(state="good", reason=None, at=None)
                changed += 1
            else:
                ctx.check(s is not t and s["state"] != "good", "revival refused: " + r.text[:120], key="revive-refused")
        elif op == "update":
            t = ents[a % len(ents)]
            if t["state"] != "good" or key in t["keys"]:
                continue
            r = M.Resp(env.ca.send(M.message(M.simple("kur", key, t["party"].subject), Prot(party=t["party"]), env.rnd(), env.rnd(), implicit=True)))
            if not r.accepted:
                continue
            c = r.certs[0]
            t.update(state="updated", reason="superseded", at=None)
            ents.append({"party": Party(key, t["party"].subject, [c, env.ca.cert]), "cert": c, "serial": serial(c), "state": "good", "key": key, "keys": t["keys"] | {key}})
            model[serial(c)] = ents[-1]
            changed += 1
        else:
            v.crl(model, f"after {n} steps")
            e = ents[a % len(ents)]
            v.ocsp(e["serial"], e, f"after {n} steps, {e['state']}")
    if changed:
        ctx.nontrivial()
    ctx.label("CA:" + alg, "status:" + ",".join(sorted({e["state"] for e in ents})), *(["nonce"] if case["nonce"] else []))
    crl = v.crl(model, "at the end")
    path = os.path.abspath("current.crl")
    with open(path, "wb") as f:
        f.write(crl)
    raws = {}
    for e in ents:
        raws[e["serial"]] = v.ocsp(e["serial"], e, "at the end, " + e["state"])
    v.ocsp(case["rand"], None, "a serial number never issued") if case["rand"] not in model else None
    e = ents[case["pick"] % len(ents)]
    o, _ = v.ask(e["serial"], case["hash"], None, name=pki.name("Another CA"))
    ctx.check(o.status != 0 or o.state == "unknown", f"a certificate of another CA with the same serial number is reported {getattr(o, 'state', '')}", key="ocsp-issuer")
    o, _ = v.ask(e["serial"], case["hash"], None, spki=pki.spki("ec:secp384r1", 1))
    ctx.check(o.status != 0 or o.state == "unknown", f"a certificate of a CA with another key is reported {getattr(o, 'state', '')}", key="ocsp-issuer")
    # relying parties agree with what was published
    from cryptography.x509 import ocsp
    for e in ents:
        cert = pki.obj(e["cert"])
        bad = e["state"] != "good"
        if bad:
            ctx.rejects("CRL check of a revoked certificate", certutils.check_if_cert_is_revoked_crl, cert, crl_file_path=path, exc=CertRevoked, key="rp-crl")
        else:
            ctx.accepts("CRL check of a good certificate", certutils.check_if_cert_is_revoked_crl, cert, crl_file_path=path, key="rp-crl")
        resp = ocsp.load_der_ocsp_response(raws[e["serial"]])
        for s in ("good", "revoked", "unknown"):
            if s == ("revoked" if bad else "good"):
                ctx.accepts(f"OCSP response {s}", certutils.check_ocsp_response, resp, cert, expected_status=s, key="rp-ocsp")
            else:
                ctx.rejects(f"OCSP response where {s} is expected ({e['state']})", certutils.check_ocsp_response, resp, cert, expected_status=s, exc=ValueError, key="rp-ocsp")
        for f in ents:
            if f is not e:
                fr = ocsp.load_der_ocsp_response(raws[f["serial"]])
                for s in ("good", "revoked"):
                    ctx.rejects("OCSP response about another certificate", certutils.check_ocsp_response, fr, cert, expected_status=s, exc=ValueError, key="rp-ocsp-other")
        combined(ctx, v, e, crl)
    obj = certutils.parse_crl(crl)
    ctx.accepts("the CA's CRL with the CA's certificate", certutils.verify_openssl_crl, [obj, pki.obj(env.ca.cert)], key="rp-crl-openssl")


class Answer:
    def __init__(self, content):
        self.content, self.status_code, self.text = content, 200, ""

    def raise_for_status(self):
        return None


def combined(ctx, v, e, crl):
    """validate_if_certificate_is_revoked against the CA's two services."""
    import types
    seen = []

    def post(url, **kw):
        seen.append("ocsp")
        data = kw.get("ocsp_request_data") or kw.get("data")
        return Answer(v.env.ca.h.process_ocsp_request(data))

    def get(url, **kw):
        seen.append("crl")
        return Answer(crl)

    old = certutils.requests
    certutils.requests = types.SimpleNamespace(post=post, get=get, exceptions=old.exceptions, RequestException=old.RequestException, Timeout=old.Timeout, Session=old.Session, ConnectionError=old.ConnectionError)
    try:
        cert, ca = pki.obj(e["cert"]), pki.obj(v.env.ca.cert)
        bad = e["state"] != "good"
        for kw in (dict(ca_cert=ca, ocsp_url="http://ca/ocsp", crl_url="http://ca/crl"), dict(crl_url="http://ca/crl"), dict(ca_cert=ca)):
            if "crl_url" not in kw and b"\x2b\x06\x01\x05\x05\x07\x30\x01" not in e["cert"]:
                ctx.rejects("no service is named in the certificate", lambda: certutils.validate_if_certificate_is_revoked(cert, **kw), exc=ERR, key="rp-none")
                continue
            f = lambda **x: certutils.validate_if_certificate_is_revoked(cert, **kw, **x)  # noqa: E731
            if bad:
                ctx.rejects("a revoked certificate", f, exc=CertRevoked, key="rp-both")
                ctx.accepts("a revoked certificate expected to be revoked", f, expected_to_be_revoked=True, key="rp-both")
            else:
                ctx.accepts("a good certificate", f, key="rp-both")
                ctx.rejects("a good certificate expected to be revoked", f, expected_to_be_revoked=True, exc=ValueError, key="rp-both")
        ctx.check("crl" in seen and "ocsp" in seen, "no service was asked", key="rp-asked")
    finally:
        certutils.requests = old


# ------------------------------------------------------------------ published lists and relying parties

SIGNERS = ["rsa2048", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ed25519", "ed448", "ec:brainpoolP256r1", "ml-dsa-44"]


@st.composite
def lists(draw):
    return {"key": draw(st.sampled_from(SIGNERS)), "h": draw(st.sampled_from(["sha256", "sha384", "sha512"])), "pss": draw(st.booleans()), "serials": draw(st.lists(st.integers(1, 1 << 80) | st.integers(1, 70000), unique=True, max_size=8)),
            "mine": draw(st.sampled_from(["listed", "not", "near"])), "pick": draw(st.integers(0, 7)), "pem": draw(st.booleans()), "ext": draw(st.booleans()), "how": draw(st.sampled_from(["ok", "ok", "sig", "tbs", "key", "name", "alg"])),
            "bit": draw(st.integers(0, 4000)), "decoys": draw(st.integers(0, 2)), "first": draw(st.booleans()), "old": draw(st.booleans())}


def run_lists(case, ctx):
    import base64
    key = (case["key"], 0)
    h, pss = case["h"], case["pss"] and case["key"].startswith("rsa")
    if pss:
        h = "sha256"
    ca_name = pki.name("CRL CA")
    ca = pki.make(ca_name, key, exts=[pki.bc(True), pki.ski(*key), pki.ku("keyCertSign", "cRLSign")], h=h, pss=pss, serial=99)
    serials = list(case["serials"])
    mine = 4711
    if case["mine"] == "listed" and mine not in serials:
        serials.insert(case["pick"] % (len(serials) + 1), mine)
    elif case["mine"] != "listed":
        serials = [s for s in serials if s != mine]
        if case["mine"] == "near":
            serials = [s for s in (4710, 4712, 4711 + 65536, 4711 << 8) if s not in serials] + serials
    if not serials:
        raise Skip("empty list")
    ctx.nontrivial()
    leaf = pki.make(pki.name("Leaf"), ("ec:secp256r1", 1), issuer=ca_name, by=key, serial=mine, exts=[pki.aki(*key)], h=h, pss=pss)
    a = pki.alg(key[0], h, pss)
    nb = pki.NOW - 40 * pki.DAY if case["old"] else pki.NOW - pki.DAY
    rows = [D.seq(D.integer(s), pki.stamp(pki.NOW - 2 * pki.DAY), *([D.seq(D.seq(D.oid("2.5.29.21"), D.octets(b"\x0a\x01\x01")))] if i % 2 else [])) for i, s in enumerate(serials)]
    exts = [D.ctx(0, D.seq(pki.ext("2.5.29.20", D.integer(7)), pki.aki(*key)))] if case["ext"] else []
    version = [D.integer(1)]
    tbs = D.seq(*version, a, ca_name if case["how"] != "name" else pki.name("Other CA"), pki.stamp(nb), pki.stamp(pki.NOW + 9 * pki.DAY), D.seq(*rows), *exts)
    by = key if case["how"] != "key" else (key[0], 1)
    sig = pki.sign(by[0], by[1], tbs, h, pss)
    if case["how"] == "sig":
        sig = bytearray(sig)
        sig[case["bit"] % len(sig)] ^= 1
        sig = bytes(sig)
    if case["how"] == "tbs":
        tbs = D.seq(*version, a, ca_name, pki.stamp(nb), pki.stamp(pki.NOW + 9 * pki.DAY), D.seq(*rows, D.seq(D.integer(123456789), pki.stamp(pki.NOW))), *exts)
    outer = a
    if case["how"] == "alg":
        if case["key"].startswith(("ed", "ml")):
            raise Skip("one algorithm only")
        outer = pki.alg(key[0], "sha512" if h != "sha512" else "sha256", False)
    der = D.seq(tbs, outer, D.bits(sig))
    ctx.label(case["how"], case["mine"], "pem" if case["pem"] else "der", case["key"] + ("/pss" if pss else ""))
    path = os.path.abspath("list.crl")
    with open(path, "wb") as f:
        f.write(b"-----BEGIN X509 CRL-----\n" + base64.encodebytes(der) + b"-----END X509 CRL-----\n" if case["pem"] else der)
    cert = pki.obj(leaf)
    if case["mine"] == "listed":
        ctx.rejects("CRL check of a listed certificate", certutils.check_if_cert_is_revoked_crl, cert, crl_file_path=path, exc=CertRevoked, key="list")
        ctx.accepts("a listed certificate expected to be revoked", certutils.validate_if_certificate_is_revoked, cert, crl_file_path=path, expected_to_be_revoked=True, key="list")
    else:
        ctx.accepts("CRL check of a certificate not listed", certutils.check_if_cert_is_revoked_crl, cert, crl_file_path=path, key="list")
        ctx.rejects("not listed, but expected to be revoked", certutils.validate_if_certificate_is_revoked, cert, crl_file_path=path, expected_to_be_revoked=True, exc=ValueError, key="list")
    # who signed the list
    obj = certutils.parse_crl(der)
    decoys = [pki.make(ca_name, (case["key"], 1), exts=[pki.bc(True)], h=h, serial=5), pki.make(pki.name("Unrelated"), ("ec:secp384r1", 0), exts=[pki.bc(True)])][: case["decoys"]]
    if case["how"] == "key" and decoys:
        decoys = decoys[1:]
    pool = [pki.obj(c) for c in (decoys + [ca] if case["first"] else [ca] + decoys)]
    if case["how"] == "ok":
        got = ctx.accepts("signer of the CRL", lambda: certutils.find_crl_signer_cert(obj, certs=list(pool)), key="signer")
        if got is not None:
            ctx.eq(cmpx.enc(got), ca, "the certificate found as signer", key="signer")
        if not case["key"].startswith("ml"):
            ctx.accepts("openssl check of the CRL", certutils.verify_openssl_crl, [obj, pki.obj(ca)], key="openssl")
    else:
        ctx.rejects(f"signer of a CRL with a wrong {case['how']}", lambda: certutils.find_crl_signer_cert(obj, certs=list(pool)), exc=ERR, key="signer-bad")
        if case["how"] != "alg" and not case["key"].startswith("ml"):
            ctx.rejects(f"openssl check of a CRL with a wrong {case['how']}", certutils.verify_openssl_crl, [obj, pki.obj(ca)], exc=ERR, key="openssl-bad")
    # chain validation with the list
    if case["how"] == "ok" and case["ext"] and not case["key"].startswith("ml"):
        f = lambda: certutils.verify_cert_chain_openssl([cert, pki.obj(ca)], crl_check=True, crl_path=path, verbose=False)  # noqa: E731
        if case["mine"] == "listed":
            ctx.rejects("chain with a revoked certificate", f, exc=ERR, key="chain")
        else:
            ctx.accepts("chain with a good certificate", f, key="chain")


SUBS = [
    Sub("history", history(), run_history, quick=110, thorough=2500, shards=4, text="histories at the Mock CA, then CRL, OCSP and relying-party checks for every certificate"),
    Sub("lists", lists(), run_lists, quick=300, thorough=5000, shards=4, text="generated CRLs (keys, reasons, encodings, damage) against the relying-party checks and the search for the signer"),
]
