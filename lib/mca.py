"""A Mock CA to talk to, and a CMP client that assembles and reads the messages octet by octet."""
import hashlib
import os

from checks.c02 import expected
from lib import cmpx, der as D, keys, pki, sigs
from lib.cmpx import Wire

SECRET = b"SiemensIT"
ALGS = ["ed25519", "ec:secp256r1", "ed448", "rsa2048"]
BODY = {"ir": 0, "ip": 1, "cr": 2, "cp": 3, "p10cr": 4, "popdecc": 5, "popdecr": 6, "kur": 7, "kup": 8, "krr": 9, "krp": 10, "rr": 11, "rp": 12, "ccr": 13, "ccp": 14, "ckuann": 15, "cann": 16, "rann": 17,
        "crlann": 18, "pkiconf": 19, "nested": 20, "genm": 21, "genp": 22, "error": 23, "certConf": 24, "pollReq": 25, "pollRep": 26}
BNAME = {v: k for k, v in BODY.items()}
ANSWER = {"ir": "ip", "cr": "cp", "p10cr": "cp", "kur": "kup", "ccr": "ccp", "rr": "rp", "certConf": "pkiconf", "genm": "genp"}
FAIL = ["badAlg", "badMessageCheck", "badRequest", "badTime", "badCertId", "badDataFormat", "wrongAuthority", "incorrectData", "missingTimeStamp", "badPOP", "certRevoked", "certConfirmed", "wrongIntegrity",
        "badRecipientNonce", "timeNotAvailable", "unacceptedPolicy", "unacceptedExtension", "addInfoNotAvailable", "badSenderNonce", "badCertTemplate", "signerNotTrusted", "transactionIdInUse",
        "unsupportedVersion", "notAuthorized", "systemUnavail", "systemFailure", "duplicateCertReq"]
HDR = ["messageTime", "protectionAlg", "senderKID", "recipKID", "transactionID", "senderNonce", "recipNonce", "freeText", "generalInfo"]
IMPLICIT = D.seq(D.oid("1.3.6.1.5.5.7.4.13"), D.null())
PBM_OID, PBMAC1 = "1.2.840.113533.7.66.13", "1.2.840.113549.1.5.14"
H = {"sha1": ("1.3.14.3.2.26", "1.3.6.1.5.5.8.1.2"), "sha256": ("2.16.840.1.101.3.4.2.1", "1.2.840.113549.2.9"), "sha384": ("2.16.840.1.101.3.4.2.2", "1.2.840.113549.2.10"),
     "sha512": ("2.16.840.1.101.3.4.2.3", "1.2.840.113549.2.11")}
REASONS = {"unspecified": 0, "keyCompromise": 1, "cACompromise": 2, "affiliationChanged": 3, "superseded": 4, "cessationOfOperation": 5, "certificateHold": 6, "removeFromCRL": 8, "privilegeWithdrawn": 9,
           "aACompromise": 10}

_patched = False


def patch():
    """Speed only: the fixed key files of the Mock CA are loaded once, its internal hybrid key comes from the key pool."""
    global _patched
    if _patched:
        return
    _patched = True
    import unit_tests.utils_for_test as U
    from mock_ca import ca_handler as C
    orig = C.generate_key
    C.generate_key = lambda *a, **k: keys.get("composite-sig:ml-dsa-44:ed25519") if a == ("composite-sig",) and not k else orig(*a, **k)
    cache = {}

    def memo(fn):
        def call(*a, **k):
            kk = (fn.__module__, fn.__name__, repr(a), repr(sorted(k.items())))
            if kk not in cache:
                cache[kk] = fn(*a, **k)
            return cache[kk]
        return call
    import importlib
    from resources import certutils
    if hasattr(certutils, "load_os_truststore"):
        certutils.load_os_truststore = memo(certutils.load_os_truststore)
    env = memo(U.load_env_data_certs) if hasattr(U, "load_env_data_certs") else None
    for m in ("ca_handler", "cert_req_handler", "hybrid_handler", "challenge_handler", "prot_handler", "operation_dbs", "general_msg_handler"):
        M = importlib.import_module("mock_ca." + m)
        if env is not None and hasattr(M, "load_env_data_certs"):
            def fresh(*a, **k):
                return dict(env(*a, **k))
            M.load_env_data_certs = fresh
        if hasattr(M, "load_private_key_from_file"):
            M.load_private_key_from_file = memo(M.load_private_key_from_file)


class CA:
    """A handler with a root of its own; `key` is a pool key."""

    def __init__(self, key=("ed25519", 0), cn="Verif Root", secret=SECRET, **kw):
        from mock_ca import ca_handler
        patch()
        self.key, self.name, self.secret = key, pki.name(cn), secret
        self.cert = pki.make(self.name, key, serial=7, exts=[pki.bc(), pki.ku("digitalSignature", "keyCertSign", "cRLSign"), pki.ski(*key)])
        assert not os.path.realpath(os.getcwd()).startswith("/repo")
        with open("data/mock_ca/trustanchors/verif_root.pem", "wb") as f:
            import base64
            b = base64.b64encode(self.cert)
            f.write(b"-----BEGIN CERTIFICATE-----\n" + b"\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + b"\n-----END CERTIFICATE-----\n")
        self.h = ca_handler.CAHandler(ca_cert=pki.obj(self.cert), ca_key=keys.get(*key), pre_shared_secret=secret, **kw)
        self.spki = pki.spki(*key)
        self.n = 0

    def party(self, key, cn, serial=100, **kw):
        """A signer whose certificate the root issued outside the protocol."""
        s = pki.name(cn)
        c = pki.make(s, key, self.name, self.key, serial=serial, exts=kw.get("exts") or [pki.ku(*kw.get("ku", ["digitalSignature"])), pki.ski(*key)])
        return Party(key, s, [c, self.cert])

    def fresh(self):
        self.n += 1
        return hashlib.sha256(b"%d" % self.n).digest()[:16]

    def send(self, der, entry="process_normal_request"):
        """The response octets to the request octets."""
        msg = cmpx.parse(der)
        return cmpx.enc(getattr(self.h, entry)(msg))

    def snapshot(self):
        """Every certificate in the data base of the CA with its state."""
        db = self.h.state.certificate_db
        return sorted((hashlib.sha256(cmpx.enc(e.cert)).hexdigest()[:16], e.cert_state.name) for e in db._certs)

    def certs(self):
        return [cmpx.enc(e.cert) for e in self.h.state.certificate_db._certs]


class Party:
    def __init__(self, key, subject, chain, h="sha256", pss=False):
        self.key, self.subject, self.chain, self.h, self.pss = key, subject, chain, h, pss

    def kid(self):
        return pki.kid(*self.key)


def general(name_der):
    return D.ctx(4, name_der)


def mac_alg(kind="pbm", h="sha256", salt=b"0123456789abcdef", iterations=1000):
    dig, mac = H[h]
    if kind == "pbm":
        return D.seq(D.oid(PBM_OID), D.seq(D.octets(salt), D.seq(D.oid(dig)), D.integer(iterations), D.seq(D.oid(mac), D.null())))
    if kind == "pbmac1":
        kdf = D.seq(D.oid("1.2.840.113549.1.5.12"), D.seq(D.octets(salt), D.integer(iterations), D.integer(hashlib.new(h).digest_size), D.seq(D.oid(mac), D.null())))
        return D.seq(D.oid(PBMAC1), D.seq(kdf, D.seq(D.oid(mac), D.null())))
    return D.seq(D.oid(mac), D.null())


class Prot:
    """How a message is protected: Prot(party=…), Prot(secret=…, kind=…) or none()."""

    def __init__(self, party=None, secret=None, kind="pbm", h="sha256", cn="MAC Client"):
        self.party, self.secret, self.kind, self.h, self.cn = party, secret, kind, h, cn

    def sender(self):
        return self.party.subject if self.party else pki.name(self.cn)

    def alg(self):
        if self.party:
            return pki.alg(self.party.key[0], self.party.h, self.party.pss)
        return mac_alg(self.kind, self.h) if self.secret is not None else None

    def kid(self):
        return self.party.kid() if self.party else self.cn.encode() if self.secret is not None else None

    def certs(self):
        return list(self.party.chain) if self.party else []

    def value(self, data):
        if self.party:
            return pki.sign(self.party.key[0], self.party.key[1], data, self.party.h, self.party.pss)
        return expected(self.alg(), self.secret, data)


def body(name, content):
    return D.ctx(BODY[name], content)


def stamp(t):
    import datetime
    return D.gtime(datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y%m%d%H%M%SZ"))


def now():
    import time
    return int(time.time())


def message(bod, prot, tx, nonce, recip=None, implicit=False, general_info=(), pvno=2, recipient=None, certs=None, time=None, damage=None, **over):
    """A whole PKIMessage; `over` replaces (DER) or drops (None) header fields; damage(prot_value) alters the protection."""
    f = {"messageTime": stamp(now() if time is None else time), "transactionID": D.octets(tx), "senderNonce": D.octets(nonce)}
    if recip is not None:
        f["recipNonce"] = D.octets(recip)
    if prot.alg() is not None:
        f["protectionAlg"] = prot.alg()
    if prot.kid() is not None:
        f["senderKID"] = D.octets(prot.kid())
    gi = ([IMPLICIT] if implicit else []) + list(general_info)
    if gi:
        f["generalInfo"] = D.seq(*gi)
    sender = over.pop("sender", general(prot.sender()))
    f.update(over)
    header = D.seq(D.integer(pvno), sender, recipient or general(pki.name("Verif Root")), *[D.ctx(i, f[n]) for i, n in enumerate(HDR) if f.get(n) is not None])
    cs = prot.certs() if certs is None else certs
    parts = [header, bod]
    if prot.alg() is not None:
        v = prot.value(D.seq(header, bod))
        parts.append(D.ctx(0, D.bits(damage(v) if damage else v)))
    if cs:
        parts.append(D.ctx(1, D.seq(*cs)))
    return D.seq(*parts)


# ---- request bodies
def template(subject=None, spki=None, exts=None, issuer=None, serial=None, version=None, extra=()):
    p = []
    if version is not None:
        p.append(D.retag(0, D.integer(version)))
    if serial is not None:
        p.append(D.retag(1, D.integer(serial)))
    if issuer is not None:
        p.append(D.ctx(3, issuer))
    if subject is not None:
        p.append(D.ctx(5, subject))
    if spki is not None:
        p.append(D.retag(6, spki))
    if exts:
        p.append(D.retag(9, D.seq(*exts)))
    return D.seq(*p, *extra)


def cert_request(rid, tmpl, controls=()):
    return D.seq(D.integer(rid), tmpl, *([D.seq(*controls)] if controls else []))


def popo(key, i, req, h="sha256", pss=False, damage=None):
    s = pki.sign(key, i, req, h, pss)
    return D.retag(1, D.seq(pki.alg(key, h, pss), D.bits(damage(s) if damage else s)))


RA_VERIFIED = D.retag(0, D.null())


def cert_req_msg(req, proof=None, reg=()):
    return D.seq(req, *([proof] if proof else []), *([D.seq(*reg)] if reg else []))


def simple(name, key, subject, rid=0, exts=None, controls=(), h="sha256", damage=None, proof_key=None):
    req = cert_request(rid, template(subject, pki.spki(*key), exts), controls)
    pk = proof_key or key
    return body(name, D.seq(cert_req_msg(req, popo(pk[0], pk[1], req, h, damage=damage))))


def csr(key, subject, exts=None, h="sha256", damage=None, proof_key=None):
    attrs = D.retag(0, D.set_of(D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(D.seq(*exts))))) if exts else D.retag(0, D.set_of())
    info = D.seq(D.integer(0), subject, pki.spki(*key), attrs)
    pk = proof_key or key
    s = pki.sign(pk[0], pk[1], info, h)
    return D.seq(info, pki.alg(pk[0], h), D.bits(damage(s) if damage else s))


def rr_body(*entries):
    """entries (issuer DER, serial, reason number or None)."""
    out = []
    for issuer, serial, reason in entries:
        det = template(issuer=issuer, serial=serial)
        out.append(D.seq(det, *([D.seq(D.seq(D.oid("2.5.29.21"), D.octets(D.tlv(10, D.int_body(reason)))))] if reason is not None else [])))
    return body("rr", D.seq(*out))


def conf_body(*entries):
    """entries (hash, certReqId, status number or None, hash algorithm name or None)."""
    out = []
    for digest, rid, status, h in entries:
        p = [D.octets(digest), D.integer(rid)]
        if status is not None:
            p.append(D.seq(D.integer(status)))
        if h is not None:  # first, where the suite has this field (finding certConf-hashAlg-position of C01)
            p.insert(0, D.ctx(0, D.seq(D.oid(pki.HASH_OID[h]))))
        out.append(D.seq(*p))
    return body("certConf", D.seq(*out))


def genm(*itavs):
    return body("genm", D.seq(*itavs))


# ---- responses
def num(der):
    _t, _h, c, e = D.read(der)
    return int.from_bytes(der[c:e], "big", signed=True)


def inner(der):
    _t, _h, c, e = D.read(der)
    return der[c:e]


class Status:
    def __init__(self, der):
        p = D.split(der)
        self.value = num(p[0])
        self.fail, self.text = set(), ""
        for x in p[1:]:
            if x[0] == 3:
                b = inner(x)
                self.fail = {i for i in range(8 * len(b) - 8 - b[0]) if b[1 + i // 8] >> (7 - i % 8) & 1}
            elif x[0] == 0x30:
                self.text = " ".join(inner(t).decode("utf8", "replace") for t in D.split(x))

    @property
    def names(self):
        return {FAIL[i] if i < len(FAIL) else str(i) for i in self.fail}


class Resp:
    def __init__(self, der):
        self.der = der
        self.w = w = Wire(der)
        self.tag = w.body[0] & 31 if w.body[0] & 31 != 31 else 31
        self.type = BNAME.get(self.tag, "?")
        f = w.fields()
        self.f = f
        g = lambda n: D.octets_value(f[n]) if n in f and f[n] is not None else None
        self.tx, self.nonce, self.recip = g("transactionID"), g("senderNonce"), g("recipNonce")
        self.alg = f.get("protectionAlg")
        h = D.split(w.header)
        self.pvno, self.sender, self.recipient = num(h[0]), h[1], h[2]
        self.extra = list(w.certs or [])
        c = inner(w.body)
        self.statuses, self.ids, self.certs, self.answers = [], [], [], []
        if self.type in ("ip", "cp", "kup", "ccp"):
            rs = [x for x in D.split(c) if x[0] == 0x30]
            for r in D.split(rs[0]):
                p = D.split(r)
                self.answers.append(p)
                self.ids.append(num(p[0]))
                self.statuses.append(Status(p[1]))
                cert = None
                for x in p[2:]:
                    if x[0] == 0x30:
                        ce = D.split(x)[0]
                        cert = inner(ce) if ce[0] == 0xA0 else ("encrypted", ce)
                self.certs.append(cert)
        elif self.type == "rp":
            self.statuses = [Status(s) for s in D.split(D.split(c)[0])]
        elif self.type == "error":
            self.statuses = [Status(D.split(c)[0])]

    @property
    def accepted(self):
        return self.type != "error" and all(s.value in (0, 1) for s in self.statuses)

    @property
    def fails(self):
        out = set()
        for s in self.statuses:
            out |= s.names
        return out

    @property
    def text(self):
        return " | ".join(s.text for s in self.statuses)


def protected_ok(r, ca, macs=()):
    """None, or what is wrong with the protection of the response; `macs`: secrets that may be in use."""
    if r.alg is None or r.w.prot is None:
        return "the response is not protected"
    v = r.w.prot
    oid = sigs.oid_str(D.split(r.alg)[0])
    if oid in (PBM_OID, PBMAC1) or oid.startswith("1.2.840.113549.2.") or oid.startswith("1.3.6.1.5.5.8.1."):
        if any(expected(r.alg, s, r.w.protected) == v for s in macs):
            return None
        return "the MAC of the response does not verify"
    if not r.extra:
        return "no certificate for the signature of the response"
    from checks.c11 import Cert
    c = Cert(r.extra[0])
    if r.extra[0] != ca.cert and not sigs.cert_ok(r.extra[0], ca.spki):
        return "the response is signed with a certificate the CA did not issue"
    if not sigs.verify(r.alg, c.spki, r.w.protected, v):
        return "the signature of the response does not verify"
    return None


def envelope(ctx, ca, req, resp, what="", macs=None, internal=True):
    """The response rules of C19 for one request; returns the parsed response."""
    q = Wire(req)
    r = Resp(resp)
    qn = BNAME.get(q.body[0] & 31)
    f = q.fields()
    g = lambda n: D.octets_value(f[n]) if f.get(n) is not None else None
    ctx.check(D.minimal(resp), f"{what}: response is not DER")
    if g("transactionID"):  # an empty one identifies nothing
        ctx.eq(r.tx, g("transactionID"), f"{what}: transactionID of the response")
    if g("senderNonce"):
        ctx.eq(r.recip, g("senderNonce"), f"{what}: recipNonce of the response")
    ctx.check(r.nonce is not None, f"{what}: the response has no senderNonce")
    want = ANSWER.get(qn)
    if r.type != "error":
        ctx.eq(r.type, want, f"{what}: body type answering {qn}")
    else:
        ctx.check(r.statuses[0].value == 2, f"{what}: an error message with status {r.statuses[0].value}")
    for s in r.statuses:
        ctx.check(not internal or "An error occurred while processing the request" not in s.text, f"{what}: internal failure: {s.text[:300]}")
    bad = protected_ok(r, ca, [ca.secret] if macs is None else macs)
    ctx.check(bad is None, f"{what}: {bad}")
    return r
