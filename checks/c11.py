"""C11: issued certificates carry what was requested and are correctly signed."""
import datetime
import time

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from hypothesis import strategies as st

from checks.c06 import COMPS, genuine, key_of, sign_over, who
from lib import comp, cmpx, der as D, keys
from lib.certs import cert_for
from lib.harness import Skip, Sub
from pyasn1.codec.der import decoder
from pyasn1.error import PyAsn1Error
from pyasn1_alt_modules import rfc4211, rfc5280, rfc6402, rfc9480
from resources import certbuildutils as CB, certutils, convertutils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C11"
TECHNIQUE = ("generated templates, PKCS#10 requests and keys turned into certificates, parsed and verified independently of the suite; generated single-position damage of certificates and requests")
RULE = ("Subjects of several attributes, all key types, valid extension sets, validities on both sides of 2050, serial numbers up to 20 octets, every issuer key type. Non-trivial: the certificate "
        "was parsed and its signature verified independently, or the damaged bytes differed from the genuine ones.")
ASSUMPTIONS = ["RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA and composite signatures are re-implemented in lib/, SLH-DSA is decided by C15",
               "keyUsage is always made critical and subjectAltName critical for an empty subject only, as the suite documents: criticality of those is not compared with the request"]
OK = (ValueError, TypeError, InvalidSignature, UnsupportedAlgorithm, CMPTestSuiteError, PyAsn1Error)

ATTR = {"CN": ("2.5.4.3", 0x0C), "O": ("2.5.4.10", 0x0C), "OU": ("2.5.4.11", 0x13), "C": ("2.5.4.6", 0x13), "L": ("2.5.4.7", 0x0C), "ST": ("2.5.4.8", 0x13), "SN": ("2.5.4.5", 0x13), "DC": ("0.9.2342.19200300.100.1.25", 0x16)}
val = st.text(alphabet="abcXYZ 019-.", min_size=1, max_size=14).map(lambda s: "x" + s + "y")
uni = st.text(alphabet="äß漢é aB,=+\"", min_size=1, max_size=8).map(lambda s: "u" + s + "v")
rdn = st.one_of(st.tuples(st.just("C"), st.sampled_from(["DE", "US", "FI"])), st.tuples(st.sampled_from(["CN", "O", "L"]), uni), st.tuples(st.sampled_from(["CN", "O", "OU", "L", "ST", "SN", "DC"]), val))
NAME = st.lists(rdn.map(list), min_size=1, max_size=5)
SUBJ = ["rsa2048", "ec:secp256r1", "ec:secp521r1", "ec:brainpoolP384r1", "ed25519", "ed448", "x25519", "x448", "ml-dsa-44", "ml-dsa-87", "slh-dsa-sha2-128f", "ml-kem-512", "ml-kem-1024", "xwing", "frodokem-640-aes",
        "composite-sig:ml-dsa-44:ed25519", "composite-kem:ml-kem-768:x25519", "chempat:ml-kem-768:x25519", "dsa2048"]
SIGKU, ALLKU = ["digitalSignature", "nonRepudiation", "keyCertSign", "cRLSign"], ["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign", "cRLSign"]
KUBIT = {n: i for i, n in enumerate(["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign", "cRLSign", "encipherOnly", "decipherOnly"])}
OID = {"ku": "2.5.29.15", "ski": "2.5.29.14", "aki": "2.5.29.35", "eku": "2.5.29.37", "bc": "2.5.29.19", "san": "2.5.29.17"}
NOW = 1772020800
UTC = datetime.timezone.utc


def name_der(rdns):
    return D.seq(*[D.set_of(D.seq(D.oid(ATTR[a][0]), D.tlv(ATTR[a][1], v.encode("utf-8" if ATTR[a][1] == 0x0C else "ascii")))) for a, v in rdns])


def ku_of(key, pick):
    if key.startswith(("ml-kem", "xwing", "frodo", "composite-kem", "chempat")):
        return ["keyEncipherment"]
    if key in ("x25519", "x448"):
        return ["keyAgreement"]
    pool = ALLKU if key.startswith("rsa") else SIGKU + ["keyAgreement"] if key.startswith("ec:") else SIGKU
    return [n for i, n in enumerate(pool) if pick >> i & 1] or pool[:1]


def gn(kind, v):
    return {"dns": lambda: D.ctxp(2, v.encode()), "mail": lambda: D.ctxp(1, v.encode() + b"@x.y"), "uri": lambda: D.ctxp(6, b"http://" + v.encode()), "ip": lambda: D.ctxp(7, bytes(v.encode()[:4].ljust(4, b"1"))),
            "dn": lambda: D.ctx(4, name_der([["CN", v]]))}[kind]()


GN = st.tuples(st.sampled_from(["dns", "dns", "mail", "uri", "ip", "dn"]), st.text(alphabet="abc019", min_size=1, max_size=10)).map(list)
EXT = st.fixed_dictionaries({"ku": st.one_of(st.none(), st.integers(0, 255)), "eku": st.one_of(st.none(), st.lists(st.sampled_from(["1.3.6.1.5.5.7.3.1", "1.3.6.1.5.5.7.3.2", "1.3.6.1.5.5.7.3.27", "1.3.6.1.5.5.7.3.32", "2.5.29.37.0"]), min_size=1, max_size=3, unique=True)),
                             "bc": st.sampled_from([None, None, "ee", "ca", "ca1", "ca9"]), "san": st.one_of(st.none(), st.lists(GN, min_size=1, max_size=4)), "ski": st.booleans(), "aki": st.booleans(), "rot": st.integers(0, 5), "crit": st.integers(0, 63)})


def ski(spki):
    import hashlib
    bs = D.split(spki)[1]
    _t, _h, c, e = D.read(bs)
    return hashlib.sha1(bs[c + 1:e]).digest()


def ext_list(e, key, spki, ca_spki):
    """[(name, critical, value)] of a valid set of extensions."""
    out = []
    ku = e["ku"] is not None and ku_of(key, e["ku"])
    bc = e["bc"]
    if ku and "keyCertSign" in ku and bc == "ee":
        bc = None
    if ku:
        out.append(("ku", bool(e["crit"] & 1), D.bits_from_set([KUBIT[n] for n in ku])))
    if e["eku"]:
        out.append(("eku", bool(e["crit"] & 2), D.seq(*map(D.oid, e["eku"]))))
    if bc:
        out.append(("bc", bool(e["crit"] & 4), {"ee": D.seq(), "ca": D.seq(D.boolean(True)), "ca1": D.seq(D.boolean(True), D.integer(1)), "ca9": D.seq(D.boolean(True), D.integer(9))}[bc]))
    if e["san"]:
        out.append(("san", bool(e["crit"] & 8), D.seq(*[gn(*g) for g in e["san"]])))
    if e["ski"]:
        out.append(("ski", False, D.octets(ski(spki))))
    if e["aki"]:
        out.append(("aki", False, D.seq(D.ctxp(0, ski(ca_spki)))))
    r = e["rot"] % len(out) if out else 0
    return out[r:] + out[:r]


def exts_der(es):
    return D.seq(*[D.seq(D.oid(OID[n]), D.boolean(True) if c else b"", D.octets(v)) for n, c, v in es])


def exts_obj(es):
    return decoder.decode(exts_der(es), asn1Spec=rfc9480.Extensions())[0]


def spki_of(name, i=0):
    return cmpx.enc(convertutils.subject_public_key_info_from_pubkey(keys.get(name, i).public_key()))


def stamp(t, generalized=None):
    d = datetime.datetime.fromtimestamp(t, UTC)
    if generalized is None:
        generalized = d.year >= 2050
    return D.gtime(d.strftime("%Y%m%d%H%M%SZ")) if generalized else D.utime(d.strftime("%y%m%d%H%M%SZ"))


def when(x):
    """Unix time of an encoded UTCTime or GeneralizedTime."""
    t, _h, c, e = D.read(x)
    s = x[c:e].decode()
    if t == 0x17:
        s = ("19" if s[0] >= "5" else "20") + s
    if len(s) != 15 or not s[:14].isdigit() or s[14] != "Z":
        return None
    return int(datetime.datetime.strptime(s, "%Y%m%d%H%M%SZ").replace(tzinfo=UTC).timestamp())


def pss_of(s):
    return s["prot"] == "rsassa-pss" or (s["prot"] == "composite" and comp.BY_NAME[s["key"]].pss)


def issuer(s, n):
    """The CA certificate of issuer key `s`."""
    return cert_for(*who_name(s), True, cn=f"CA {n % 3}", is_ca=True, key_usage="keyCertSign,cRLSign", hash_alg=s["hash"] if s["prot"] != "composite" else "sha256", use_rsa_pss=pss_of(s) and s["prot"] == "composite")


def who_name(s):
    if s["prot"] == "composite":
        a = comp.BY_NAME[s["key"]]
        return f"composite-sig:{a.pq}:{a.trad}", s["i"]
    return s["key"], s["i"]


class Cert:
    """The fields of a certificate read without the suite."""

    def __init__(self, der):
        self.der = der
        self.tbs, self.outer, bs = D.split(der)
        _t, _h, c, e = D.read(bs)
        self.sig = bs[c + 1:e]
        p = D.split(self.tbs)
        self.version = p.pop(0) if p[0][0] == 0xA0 else None
        self.serial, self.inner, self.issuer, self.validity, self.subject, self.spki = p[:6]
        self.exts = None
        if len(p) > 6:
            assert p[6][0] == 0xA3 and len(p) == 7
            self.exts = []
            for x in D.split(D.split(p[6])[0]):
                q = D.split(x)
                v = q[-1]
                _t, _h, c, e = D.read(v)
                self.exts.append((q[0], len(q) == 3, v[c:e]))


def judge(ctx, cert, s, cc, subject, spki, serial=None, validity=None, want=(), exact=False, extra=()):
    """Compare an issued certificate with the request."""
    der = cmpx.enc(cert)
    c = Cert(der)
    ctx.eq(c.version, D.ctx(0, D.integer(2)), "version", key="version")
    ctx.eq(c.subject, subject, "subject", key="subject")
    ctx.eq(c.spki, spki, "public key", key="spki")
    ctx.eq(c.issuer, cc.subject, "issuer name", key="issuer")
    _t, _h, a, e = D.read(c.serial)
    if serial is None:
        ctx.check(1 <= e - a <= 20 and c.serial[a] < 0x80, "serial number is not positive or has more than 20 octets", key="serial")
    else:
        ctx.eq(c.serial, D.integer(serial), "serial number", key="serial")
    ctx.eq(c.inner, c.outer, "the signature algorithm inside and outside", key="alg-inner-outer")
    ctx.check(genuine(s, c.tbs, c.outer, c.sig), f"independent verification of the certificate signature ({s})", key="signature")
    nb, na = D.split(c.validity)
    for x in (nb, na):
        ctx.check(when(x) is not None, f"the date {x!r} is not in the form RFC 5280 demands", key="date-form")
        ctx.eq(x, stamp(when(x)), "encoding of a date (UTCTime before 2050, GeneralizedTime from then on)", key="date-form")
    if validity is not None:
        vb, va = validity
        if vb is not None:
            ctx.eq(when(nb), vb, "notBefore", key="notBefore")
        else:
            ctx.check(when(nb) <= time.time(), "a default notBefore lies in the future", key="notBefore")
        if va is not None:
            ctx.eq(when(na), va, "notAfter", key="notAfter")
        else:
            ctx.check(when(na) > time.time(), "a default notAfter lies in the past", key="notAfter")
    got = c.exts or []
    ids = [x[0] for x in got]
    ctx.eq(len(ids), len(set(ids)), "an extension is contained more than once", key="ext-twice")
    for n, crit, v in want:
        m = [x for x in got if x[0] == D.oid(OID[n])]
        ctx.check(bool(m), f"the requested extension {n} is missing", key=f"ext-{n}-missing")
        ctx.eq(m[0][2], v, f"value of the requested extension {n}", key=f"ext-{n}")
        if n in ("eku", "bc", "ski") or exact:
            ctx.eq(m[0][1], crit, f"criticality of the requested extension {n}", key=f"ext-{n}-critical")
    allowed = {D.oid(OID[n]) for n, _c, _v in want} | {D.oid(OID[n]) for n in extra}
    ctx.check(set(ids) <= allowed, "the certificate contains an extension nobody asked for", key="ext-extra")
    for n, v in (("ski", D.octets(ski(spki))), ("aki", D.seq(D.ctxp(0, ski(cc.spki))))):
        for x in got:
            if x[0] == D.oid(OID[n]) and n in extra:
                ctx.eq(x[2], v, f"value of the added extension {n}", key=f"ext-{n}")
    ctx.nontrivial()
    return c


DATE = st.one_of(st.none(), st.integers(0, 60 * 365), st.sampled_from([24 * 365 + 100 - 54, 8700, 8701, 8711, 9000, 20000]))
WHO = who()
TPL = st.fixed_dictionaries({"s": WHO, "n": st.integers(0, 2), "key": st.sampled_from(SUBJ), "i": st.integers(0, 1), "name": NAME, "ext": EXT, "serial": st.one_of(st.none(), st.integers(1, 2**159 - 1), st.sampled_from([1, 127, 128, 2**63, 2**159 - 1])),
                             "nb": DATE, "na": DATE, "gt": st.booleans(), "other": st.booleans(), "san_only": st.booleans()})


def dates(case):
    nb = None if case["nb"] is None else NOW + 86400 * case["nb"] - 3 * 86400
    na = None if case["na"] is None else (NOW if nb is None else nb) + 86400 * (1 + case["na"]) + 7
    return nb, na


def other_exts():
    """An extension the CA adds of its own accord."""
    return decoder.decode(D.seq(D.seq(D.oid("2.5.29.31"), D.octets(D.seq(D.seq(D.ctx(0, D.ctx(0, D.ctxp(6, b"http://crl"))))))), D.seq(D.oid("2.5.29.37"), D.octets(D.seq(D.oid("1.3.6.1.5.5.7.3.4"))))), asn1Spec=rfc9480.Extensions())[0]


OID["cdp"] = "2.5.29.31"
CDP = D.seq(D.seq(D.ctx(0, D.ctx(0, D.ctxp(6, b"http://crl")))))


def template(case, ctx):
    s = case["s"]
    key, cc = key_of(s), issuer(s, case["n"])
    ccd = Cert(cmpx.enc(cc))
    spki = spki_of(case["key"], case["i"])
    es = ext_list(case["ext"], case["key"], spki, ccd.spki)
    subject = name_der(case["name"])
    if case["san_only"] and any(n == "san" for n, _c, _v in es):
        subject = D.seq()
    nb, na = dates(case)
    gt = (lambda t: stamp(t, True)) if case["gt"] else stamp
    val_ = b"" if nb is None and na is None else D.ctx(4, b"" if nb is None else D.ctx(0, gt(nb)), b"" if na is None else D.ctx(1, gt(na)))
    der = D.seq(b"" if case["serial"] is None else D.retag(1, D.integer(case["serial"])), val_, D.ctx(5, subject), D.retag(6, spki), D.retag(9, exts_der(es)) if es else b"")
    t, rest = decoder.decode(der, asn1Spec=rfc4211.CertTemplate())
    assert not rest
    ctx.label(s["prot"], case["key"].split(":")[0])
    kw = {"hash_alg": s["hash"], "use_rsa_pss": pss_of(s)}
    if case["other"]:
        kw["extensions"] = other_exts()
    cert = ctx.accepts("building from a template", lambda: CB.build_cert_from_cert_template(t, ca_cert=cc, ca_key=key, **kw), key="build-template")
    want = list(es)
    if case["other"]:
        want.append(("cdp", False, CDP))
        if not case["ext"]["eku"]:
            want.append(("eku", False, D.seq(D.oid("1.3.6.1.5.5.7.3.4"))))
    c = judge(ctx, cert, s, ccd, subject, spki, case["serial"], (nb, na), want, extra=("ski", "aki"))
    if subject == D.seq():
        ctx.check(any(x[0] == D.oid(OID["san"]) and x[1] for x in c.exts), "subjectAltName is not critical although the subject is empty", key="san-critical")
    ctx.accepts("verifying the issued certificate", lambda: certutils.verify_cert_signature(cmpx_cert(c.der), key.public_key()), key="verify-genuine")


def cmpx_cert(der):
    c, rest = decoder.decode(der, asn1Spec=rfc9480.CMPCertificate())
    if rest:
        raise ValueError("trailing data")
    return c


CSR = st.fixed_dictionaries({"s": WHO, "n": st.integers(0, 2), "k": WHO, "name": NAME, "ext": EXT, "serial": st.one_of(st.none(), st.integers(1, 2**159 - 1)), "nb": DATE, "na": DATE, "other": st.booleans(), "inc": st.booleans(), "suite": st.booleans()})


def csr(case, ctx):
    s, k = case["s"], case["k"]
    if pss_of(k) and k["prot"] != "composite":
        k = dict(k, prot="signature", hash="sha256")
    key, cc = key_of(s), issuer(s, case["n"])
    ccd = Cert(cmpx.enc(cc))
    spki = cmpx.enc(convertutils.subject_public_key_info_from_pubkey(key_of(k).public_key(), use_rsa_pss=pss_of(k)))
    kind = "composite-sig" if k["prot"] == "composite" else k["key"]
    # a CSR has to ask for critical basicConstraints
    es = [(n, c or n == "bc", v) for n, c, v in ext_list(case["ext"], kind, spki, ccd.spki)]
    subject = name_der(case["name"])
    if case["suite"]:
        req = CB.build_csr(key_of(k), common_name=decoder.decode(subject, asn1Spec=rfc9480.Name())[0], extensions=exts_obj(es) if es else None, hash_alg=k["hash"], use_rsa_pss=pss_of(k))
        info, alg, bs = D.split(cmpx.enc(req))
        _t, _h, a, e = D.read(bs)
        ctx.eq(info, D.seq(D.integer(0), subject, spki, D.ctx(0, D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(exts_der(es))) if es else b"")), "the CSR the suite builds", key="csr-built")
        ctx.check(genuine(k, info, alg, bs[a + 1:e]), f"independent verification of the CSR signature ({k})", key="csr-signature")
    else:
        info = D.seq(D.integer(0), subject, spki, D.ctx(0, D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(exts_der(es))) if es else b""))
        alg, sig = sign_over(k, info)
        req, rest = decoder.decode(D.seq(info, alg, D.bits(sig)), asn1Spec=rfc6402.CertificationRequest())
        assert not rest
    ctx.label(s["prot"], "suite" if case["suite"] else "independent")
    ctx.accepts("verifying the CSR", lambda: certutils.verify_csr_signature(req), key="verify-csr")
    nb, na = dates(case)
    kw = {"hash_alg": s["hash"], "use_rsa_pss": pss_of(s), "include_csr_extensions": case["inc"]}
    valid = None
    if nb is not None and na is not None:
        valid = decoder.decode(D.seq(stamp(nb), stamp(na)), asn1Spec=rfc5280.Validity())[0]
    else:
        nb = na = None
    if case["serial"] is not None:
        kw["serial_number"] = case["serial"]
    if case["other"]:
        kw["extensions"] = other_exts()
    cert = ctx.accepts("building from a CSR", lambda: CB.build_cert_from_csr(req, ca_key=key, ca_cert=cc, validity=valid, **kw), key="build-csr")
    want = list(es) if case["inc"] else []
    if case["other"]:
        want.append(("cdp", False, CDP))
        if not (case["ext"]["eku"] and case["inc"]):
            want.append(("eku", False, D.seq(D.oid("1.3.6.1.5.5.7.3.4"))))
    judge(ctx, cert, s, ccd, subject, spki, case["serial"], (nb, na), want, extra=("ski", "aki"))


KEY = st.fixed_dictionaries({"s": WHO, "n": st.integers(0, 2), "key": st.sampled_from(SUBJ), "i": st.integers(0, 1), "name": NAME, "ext": EXT, "serial": st.one_of(st.none(), st.integers(1, 2**159 - 1)), "days": st.integers(1, 60 * 365),
                             "validity": st.booleans(), "nb": DATE, "na": DATE, "text": st.booleans(), "params": st.booleans(), "self": st.booleans(), "bad": st.integers(0, 5)})


def key(case, ctx):
    s = case["s"]
    ck, cc = key_of(s), issuer(s, case["n"])
    ccd = Cert(cmpx.enc(cc))
    own = case["self"]
    spki = cmpx.enc(convertutils.subject_public_key_info_from_pubkey(ck.public_key())) if own else spki_of(case["key"], case["i"])
    kind = ("composite-sig" if s["prot"] == "composite" else s["key"]) if own else case["key"]
    e = case["ext"]
    kw = {"hash_alg": s["hash"], "use_rsa_pss": pss_of(s)}
    subject = name_der(case["name"])
    if case["params"]:
        want = []
        ku, bc = (ku_of(kind, e["ku"]) if e["ku"] is not None else None), e["bc"] not in (None, "ee")
        if ku:
            kw["key_usage"] = ",".join(ku)
            want.append(("ku", True if False else None, D.bits_from_set([KUBIT[n] for n in ku])))
        if e["ski"]:
            kw["include_ski"] = True
            want.append(("ski", None, D.octets(ski(spki))))
        if e["eku"]:
            kw["eku"] = "cmcCA,cmKGA"
            want.append(("eku", None, None))
        if bc:
            kw["is_ca"] = True
            pl = {"ca": None, "ca1": 1, "ca9": 9}[e["bc"]]
            if pl is not None:
                kw["path_length"] = pl
            want.append(("bc", None, D.seq(D.boolean(True), b"" if pl is None else D.integer(pl))))
        if want:
            kw["critical"] = bool(e["crit"] & 1)
        want = [(n, kw["critical"], v) for n, _c, v in want]
    else:
        want = ext_list(e, kind, spki, ccd.spki)
        if want:
            kw["extensions"] = exts_obj(want)
    nb = na = None
    if case["validity"]:
        nb, na = dates(case)
        if nb is None or na is None:
            nb, na = NOW - 86400, NOW + 86400 * case["days"]
        kw["validity"] = decoder.decode(D.seq(stamp(nb), stamp(na)), asn1Spec=rfc5280.Validity())[0]
    else:
        kw["days"] = case["days"]
    if case["serial"] is not None:
        kw["serial_number"] = case["serial"]
    name = decoder.decode(subject, asn1Spec=rfc9480.Name())[0]
    if not own:
        kw.update(ca_key=ck, ca_cert=cc)
    ctx.label(s["prot"], "self" if own else "issued")
    cert, k2 = ctx.accepts("building from a key", lambda: CB.build_certificate(ck if own else keys.get(case["key"], case["i"]), common_name=name, **kw), key="build-key")
    if case["params"] and e["eku"]:
        want = [(n, c, D.seq(D.oid("1.3.6.1.5.5.7.3.27"), D.oid("1.3.6.1.5.5.7.3.32")) if n == "eku" else v) for n, c, v in want]
        got = dict((x[0], x[2]) for x in Cert(cmpx.enc(cert)).exts)
        alt = D.seq(D.oid("1.3.6.1.5.5.7.3.32"), D.oid("1.3.6.1.5.5.7.3.27"))
        if got.get(D.oid(OID["eku"])) == alt:
            want = [(n, c, alt if n == "eku" else v) for n, c, v in want]
    class Self:
        pass
    me = ccd
    if own:
        me = Self()
        me.subject, me.spki = subject, spki
    c = judge(ctx, cert, s, me, subject, spki, case["serial"], (nb, na) if case["validity"] else None, want, exact=True)
    if not case["validity"]:
        nb, na = map(when, D.split(c.validity))
        ctx.eq(na - nb, 86400 * case["days"], "days of validity", key="days")
        ctx.check(nb <= time.time(), "notBefore lies in the future", key="notBefore")
    ctx.accepts("verifying the certificate", lambda: certutils.verify_cert_signature(cmpx_cert(c.der), ck.public_key()), key="verify-genuine")
    if case["bad"] == 0:
        bad, _ = CB.build_certificate(ck if own else keys.get(case["key"], case["i"]), common_name=name, bad_sig=True, **kw)
        ctx.rejects("bad_sig", lambda: certutils.verify_cert_signature(bad, ck.public_key()), exc=OK, key="bad-sig")


DMG = st.fixed_dictionaries({"s": WHO, "n": st.integers(0, 2), "name": NAME, "ext": EXT, "how": st.sampled_from(["flip", "flip", "flip", "flip", "sig", "sig-cut", "key", "outer", "inner", "swap", "csr", "csr", "csr-key", "csr-alg"]), "p": st.integers(0, 2**24), "bit": st.integers(0, 2**16), "s2": WHO})


def damage(case, ctx):
    s, how = case["s"], case["how"]
    k = key_of(s)
    name = decoder.decode(name_der(case["name"]), asn1Spec=rfc9480.Name())[0]
    ctx.label(how, s["prot"])
    spki = cmpx.enc(convertutils.subject_public_key_info_from_pubkey(k.public_key()))
    other = key_of(dict(s, i=1 - s["i"]))
    if how.startswith("csr"):
        info = D.seq(D.integer(0), name_der(case["name"]), cmpx.enc(convertutils.subject_public_key_info_from_pubkey(k.public_key(), use_rsa_pss=False)), D.ctx(0))
        alg, sig = sign_over(s, info)
        good = D.seq(info, alg, D.bits(sig))

        def verify(d):
            c, rest = decoder.decode(d, asn1Spec=rfc6402.CertificationRequest())
            if rest:
                raise ValueError("trailing data")
            certutils.verify_csr_signature(c)
        if how == "csr":
            bad = cmpx.flip_leaf(good, case["p"], case["bit"])
        elif how == "csr-alg":
            a2, _ = sign_over(case["s2"], b"")
            bad = D.seq(info, a2, D.bits(sig))
        else:
            bad = D.seq(D.seq(D.integer(0), name_der(case["name"]), cmpx.enc(convertutils.subject_public_key_info_from_pubkey(other.public_key())), D.ctx(0)), alg, D.bits(sig))
    else:
        es = ext_list(case["ext"], "composite-sig" if s["prot"] == "composite" else s["key"], spki, spki)
        cert, _ = CB.build_certificate(k, common_name=name, hash_alg=s["hash"], use_rsa_pss=pss_of(s), extensions=exts_obj(es) if es else None)
        good = cmpx.enc(cert)
        c = Cert(good)
        pub = k.public_key()

        def verify(d):
            certutils.verify_cert_signature(cmpx_cert(d), pub)
        if how == "flip":
            bad = cmpx.flip_leaf(good, case["p"], case["bit"])
        elif how == "sig":
            x = bytearray(c.sig)
            x[case["p"] % len(x)] ^= 1 << case["bit"] % 8
            bad = D.seq(c.tbs, c.outer, D.bits(bytes(x)))
        elif how == "sig-cut":
            bad = D.seq(c.tbs, c.outer, D.bits(c.sig[:-1 - case["p"] % 3] if case["bit"] % 2 else c.sig + b"\0"))
        elif how == "key":
            bad, pub = good, other.public_key()
        elif how == "outer":
            a2, _ = sign_over(case["s2"], b"")
            bad = D.seq(c.tbs, a2, D.bits(c.sig))
        elif how == "inner":
            a2, _ = sign_over(case["s2"], b"")
            bad = D.seq(c.tbs.replace(c.inner, a2), c.outer, D.bits(c.sig)) if len(a2) == len(c.inner) else D.seq(D.seq(*[a2 if x == c.inner else x for x in D.split(c.tbs)]), c.outer, D.bits(c.sig))
        else:
            c2, _ = CB.build_certificate(k, common_name=name, hash_alg=s["hash"], use_rsa_pss=pss_of(s), serial_number=5)
            bad = D.seq(Cert(cmpx.enc(c2)).tbs, c.outer, D.bits(c.sig))
    if bad == good and how != "key":
        raise Skip("same bytes")
    if how == "key":
        ctx.nontrivial()
        ctx.rejects("another key", lambda: verify(bad), exc=OK, key="accepted-key")
        return
    ctx.accepts("the genuine one", lambda: verify(good), key="verify-genuine")
    try:
        same = cmpx_same(bad, good, how)
    except Exception:  # noqa: BLE001
        same = False
    if same:
        raise Skip("another encoding of the same certificate")
    ctx.nontrivial()
    ctx.rejects(f"{how} of a certificate or request", lambda: verify(bad), exc=OK, key=f"accepted-{how}")


def cmpx_same(bad, good, how):
    """Does the suite's decoder read both as the same value?"""
    spec = rfc6402.CertificationRequest() if how.startswith("csr") else rfc9480.CMPCertificate()
    return cmpx.enc(decoder.decode(bad, asn1Spec=spec)[0]) == good


FOREIGN = st.fixed_dictionaries({"key": st.sampled_from(["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ed25519", "ed448"]), "hash": st.sampled_from(["SHA256", "SHA384", "SHA512", "SHA224", "SHA3_256"]), "pss": st.booleans(), "serial": st.integers(1, 2**100), "v1": st.booleans(), "csr": st.booleans(), "cn": val})


def foreign(case, ctx):
    """Certificates and requests made by another implementation are accepted."""
    k = keys.get(case["key"], 0)
    h = None if case["key"].startswith("ed") else getattr(hashes, case["hash"])()
    kw = {}
    if case["key"].startswith("rsa") and case["pss"] and case["hash"] != "SHA3_256":
        kw["rsa_padding"] = padding.PSS(padding.MGF1(h), h.digest_size)
    name = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, case["cn"])])
    other = keys.get(case["key"], 1)
    if case["csr"]:
        der = x509.CertificateSigningRequestBuilder().subject_name(name).sign(k, h, **kw).public_bytes(cmpx_encoding())
        ctx.accepts("a foreign request", lambda: certutils.verify_csr_signature(decoder.decode(der, asn1Spec=rfc6402.CertificationRequest())[0]), key="foreign-csr")
    else:
        now = datetime.datetime(2026, 1, 1)
        der = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(k.public_key()).serial_number(case["serial"]).not_valid_before(now).not_valid_after(now + datetime.timedelta(days=400)).sign(k, h, **kw).public_bytes(cmpx_encoding())
        ctx.accepts("a foreign certificate", lambda: certutils.verify_cert_signature(cmpx_cert(der)), key="foreign-cert")
        ctx.rejects("a foreign certificate under another key", lambda: certutils.verify_cert_signature(cmpx_cert(der), other.public_key()), exc=OK, key="foreign-other-key")
    ctx.label("csr" if case["csr"] else "cert")
    ctx.nontrivial()


def cmpx_encoding():
    from cryptography.hazmat.primitives.serialization import Encoding
    return Encoding.DER


SUBS = [Sub("template", TPL, template, quick=240, thorough=12000, shards=8, text="build_cert_from_cert_template against the template"),
        Sub("csr", CSR, csr, quick=200, thorough=10000, shards=8, text="build_csr, verify_csr_signature, build_cert_from_csr"),
        Sub("key", KEY, key, quick=200, thorough=10000, shards=8, text="build_certificate with parameters or extensions"),
        Sub("damage", DMG, damage, quick=400, thorough=30000, shards=8, text="changed certificates and requests are refused"),
        Sub("foreign", FOREIGN, foreign, quick=60, thorough=3000, shards=4, text="certificates and requests of another implementation")]
