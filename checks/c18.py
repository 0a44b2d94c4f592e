"""C18: paired (chameleon) and related certificates are reconstructed exactly and bound together."""
import base64
import os
import shutil
import time

from hypothesis import strategies as st
from pyasn1.codec.der import decoder
from pyasn1.error import PyAsn1Error
from pyasn1_alt_modules import rfc5280, rfc6402, rfc9480

from checks.c05 import pub_der
from checks.c11 import Cert
from checks.c17 import ext_objs, shuffle, fetch, STORE
from lib import cmpx, der as D, keys, pki, sigs
from lib.harness import SCRATCH, Skip, Sub
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from pq_logic.hybrid_sig import cert_binding_for_multi_auth as bind, certdiscovery, chameleon_logic as cham
from resources import utils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C18"
TECHNIQUE = ("generated pairs of certificates and paired requests; the rebuilt certificate is compared octet by octet with the original and all signatures are verified without the suite; "
             "search for a change of a request, a binding or its surroundings which is still accepted")
RULE = "the two certificates of a pair differ in at least one field besides the key, or the case changes, exchanges or re-signs something"
ASSUMPTIONS = ["base and delta certificates carry the same extension types in the same order (the draft can express nothing else)", "fetching a location is replaced by a table of generated contents",
               "RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA and SLH-DSA are re-implemented in lib/"]
OK = (ValueError, TypeError, InvalidSignature, UnsupportedAlgorithm, CMPTestSuiteError, PyAsn1Error, OverflowError)

SIGN = ["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65"]
SUBJ = SIGN + ["slh-dsa-sha2-128f", "composite-sig:ml-dsa-44:ed25519", "ec:brainpoolP256r1", "ml-dsa-87"]
HASH = ["sha256", "sha384", "sha512"]
DCD, REQ, REQSIG = str(cham.id_ce_deltaCertificateDescriptor), str(cham.id_at_deltaCertificateRequest), str(cham.id_at_deltaCertificateRequestSignature)
EXTS = ["ku", "bc", "eku", "ski", "opaque", "san"]
WHO = st.tuples(st.sampled_from(SIGN), st.integers(0, 1)).map(list)


def one_ext(kind, v, key, crit=None):
    if kind == "ku":
        return pki.ku(*[["digitalSignature"], ["nonRepudiation"], ["digitalSignature", "nonRepudiation"]][v % 3], critical=crit is not False)
    if kind == "bc":
        return pki.bc(False, critical=bool(v % 2) if crit is None else crit)
    if kind == "eku":
        return pki.eku(["1.3.6.1.5.5.7.3.2", "1.3.6.1.5.5.7.3.4"][v % 2], critical=bool(crit))
    if kind == "ski":
        return pki.ski(*key)
    if kind == "san":
        return pki.ext("2.5.29.17", D.seq(D.ctxp(2, b"host%d" % v)), bool(crit))
    return pki.ext("1.3.6.1.4.1.99999.7", D.octets(b"opaque %d" % v), bool(crit))


NAMES = ["CN=Pair", "CN=Other", "CN=Pair/printable", "CN=pair", "CN=Pair,O=X", "CN=Pair  "]


def name(n):
    t = NAMES[n]
    if t.endswith("/printable"):
        return D.seq(D.set_of(D.seq(D.oid("2.5.4.3"), D.printable("Pair"))))
    return pki.name(*[("2.5.4.3" if x[:2] == "CN" else "2.5.4.10", x.split("=")[1]) for x in t.split(",")])


PAIR = st.fixed_dictionaries({
    "base": st.tuples(st.sampled_from(SUBJ), st.integers(0, 1)).map(list), "delta": st.tuples(st.sampled_from(SUBJ + ["ml-kem-768", "x25519"]), st.integers(0, 1)).map(list),
    "bca": WHO, "dca": WHO, "same_ca": st.booleans(), "bh": st.sampled_from(HASH), "dh": st.sampled_from(HASH), "bpss": st.integers(0, 2).map(lambda x: x == 0), "dpss": st.integers(0, 2).map(lambda x: x == 0),
    "bn": st.integers(0, 5), "dn": st.integers(0, 5), "bi": st.integers(0, 5), "di": st.integers(0, 5), "exts": st.lists(st.sampled_from(EXTS), max_size=5, unique=True), "ev": st.lists(st.integers(0, 2), min_size=12, max_size=12),
    "ec": st.lists(st.sampled_from([None, None, True, False]), min_size=12, max_size=12), "val": st.integers(0, 3), "serial": st.tuples(st.integers(1, 2**158), st.integers(0, 1)).map(list), "crit": st.booleans()})


def make_pair(case):
    """(delta certificate DER, base tbs fields, CA of the base)"""
    bca, dca = tuple(case["bca"]), tuple(case["bca"] if case["same_ca"] else case["dca"])
    pss = lambda k, p: p and k.startswith("rsa")  # noqa: E731
    val = [(-30, 365), (-30, 364), (-29, 365), (-30, 365 * 40)][case["val"]]
    bn = {"key": tuple(case["base"]), "subject": name(case["bn"]), "issuer": name(case["bi"]), "by": bca, "h": case["bh"], "pss": pss(bca[0], case["bpss"]), "serial": case["serial"][0],
          "exts": [one_ext(k, case["ev"][j], tuple(case["base"]), case["ec"][j]) for j, k in enumerate(case["exts"])], "val": (-30, 365)}
    dn = {"key": tuple(case["delta"]), "subject": name(case["dn"]), "issuer": name(case["bi"] if case["same_ca"] else case["di"]), "by": dca, "h": case["bh"] if case["same_ca"] else case["dh"],
          "pss": pss(dca[0], case["bpss"] if case["same_ca"] else case["dpss"]), "serial": case["serial"][0] + case["serial"][1],
          "exts": [one_ext(k, case["ev"][j + 6], tuple(case["delta"]), case["ec"][j + 6]) for j, k in enumerate(case["exts"])], "val": val}

    def tbs(n):
        return D.seq(D.ctx(0, D.integer(2)), D.integer(n["serial"]), pki.alg(n["by"][0], n["h"], n["pss"]), n["issuer"], D.seq(pki.stamp(pki.NOW + n["val"][0] * pki.DAY), pki.stamp(pki.NOW + n["val"][1] * pki.DAY)),
                     n["subject"], pub_der(*n["key"]), *([D.ctx(3, D.seq(*n["exts"]))] if n["exts"] else []))
    d = tbs(dn)
    a = pki.alg(dn["by"][0], dn["h"], dn["pss"])
    delta = D.seq(d, a, D.bits(pki.sign(dn["by"][0], dn["by"][1], d, dn["h"], dn["pss"])))
    return delta, tbs(bn), bn, dn


def dcd_of(c):
    x = [e for e in c.exts or [] if e[0] == D.oid(DCD)]
    return x[0] if len(x) == 1 else None


def check_dcd(ctx, base, delta):
    """The descriptor lists exactly what differs, each field as the delta certificate has it."""
    x = dcd_of(base)
    ctx.check(x is not None, "the base certificate has one delta certificate descriptor", "dcd")
    p = D.split(x[2])
    got = {e[0] & 0x1F: D.split(e)[0] for e in p if e[0] & 0xC0 == 0x80}
    want = {}
    for t, a, b in ((0, base.inner, delta.inner), (1, base.issuer, delta.issuer), (2, base.validity, delta.validity), (3, base.subject, delta.subject)):
        if a != b:
            want[t] = b
    mine = {e[0]: e for e in base.exts if e[0] != D.oid(DCD)}
    diff = [e for e in delta.exts or [] if mine.get(e[0]) != e]
    ctx.eq({k: v for k, v in got.items() if k != 4}, want, "fields of the descriptor", "dcd-fields")
    ctx.eq([D.split(e)[0] for e in D.split(got[4])] if 4 in got else [], [e[0] for e in diff], "extensions of the descriptor", "dcd-exts")
    plain = [e for e in p if e[0] & 0xC0 == 0]
    ctx.eq(plain, [delta.serial, delta.spki, D.bits(delta.sig)], "serial number, key and signature of the descriptor", "dcd-plain")


def pair(case, ctx):
    if tuple(case["base"]) == tuple(case["delta"]):
        raise Skip("the same key")
    delta, tbs, bn, dn = make_pair(case)
    if bn["pss"]:  # the suite signs PSS with SHA-256 only
        case = {**case, "bh": "sha256", "dh": case["dh"]}
        delta, tbs, bn, dn = make_pair(case)
    base_tbs = pki.obj(D.seq(tbs, pki.alg(bn["by"][0], bn["h"], bn["pss"]), D.bits(b"")))["tbsCertificate"]
    dobj = pki.obj(delta)
    paired = ctx.accepts("pairing", lambda: cham.build_chameleon_base_certificate(dobj, base_tbs, keys.get(*bn["by"]), use_rsa_pss=bn["pss"], critical=case["crit"], hash_alg=bn["h"]), key="pairing")
    der = cmpx.enc(paired)
    c, d = Cert(der), Cert(delta)
    ctx.label("same ca" if case["same_ca"] else "other ca", f"exts {len(case['exts'])}")
    ctx.nontrivial(any(bn[k] != dn[k] for k in ("subject", "issuer", "exts", "val", "h", "pss")))
    ctx.eq(cmpx.enc(dobj), delta, "delta certificate after the pairing", "delta-mutated")
    ctx.check(sigs.cert_ok(der, pub_der(*bn["by"])) and c.inner == c.outer, "independent verdict on the base certificate", "base-sig")
    ctx.eq((c.serial, c.issuer, c.validity, c.subject, c.spki, [e for e in c.exts if e[0] != D.oid(DCD)]), (D.integer(bn["serial"]), bn["issuer"], d.validity if bn["val"] == dn["val"] else c.validity, bn["subject"],
                                                                                                           pub_der(*bn["key"]), Cert(D.seq(tbs, c.inner, D.bits(b""))).exts or []), "fields of the base certificate", "base-fields")
    ctx.eq(dcd_of(c) and dcd_of(c)[1], case["crit"], "criticality of the descriptor", "crit")
    check_dcd(ctx, c, d)
    fresh = pki.obj(der)
    back = ctx.accepts("rebuilding the delta certificate", lambda: cham.build_delta_cert_from_paired_cert(fresh), key="rebuild")
    got = cmpx.enc(back)
    ctx.check(got == delta, "the delta certificate is rebuilt exactly", "rebuilt" + ("" if Cert(got).tbs == d.tbs else "-tbs"))
    ctx.eq(cmpx.enc(fresh), der, "paired certificate after the rebuilding", "paired-mutated")
    ctx.eq(cmpx.enc(cham.get_chameleon_delta_public_key(fresh)), pub_der(*dn["key"]), "delta public key", "delta-key")


CSR = st.fixed_dictionaries({
    "base": WHO, "delta": WHO, "n": st.integers(0, 2), "dn": st.integers(0, 3), "bx": st.lists(st.sampled_from(EXTS[:3] + EXTS[4:]), max_size=4, unique=True), "rel": st.sampled_from(["none", "same", "same", "base-only", "delta-only", "subset", "superset", "mixed"]),
    "ev": st.lists(st.integers(0, 2), min_size=12, max_size=12), "h": st.sampled_from(HASH), "pss": st.integers(0, 3).map(lambda x: x == 0), "ca": WHO, "ch": st.sampled_from(HASH), "cpss": st.integers(0, 3).map(lambda x: x == 0),
    "ski": st.sampled_from([None, False, True]), "add": st.integers(0, 3).map(lambda x: x == 0), "strict": st.integers(0, 3).map(lambda x: x == 0), "how": st.just("good"), "pick": st.integers(0, 300), "bit": st.integers(0, 3000)})


def csr_exts(case):
    """Extension kinds of the base request and of the delta request."""
    b, r = list(case["bx"]), case["rel"]
    rest = [k for k in EXTS[:3] + EXTS[4:] if k not in b]
    d = {"none": [], "same": b, "base-only": [], "delta-only": b, "subset": b[:-1], "superset": b + rest[:1], "mixed": b[1:] + rest[:1]}[r]
    if r in ("none", "delta-only"):
        b = []
    return b, d


CSRNAME = ["CN=Pair", "CN=Pair,O=X", "C=DE,CN=P"]
DELTANAME = [None, "CN=Delta", "CN=Pair", "O=Delta Org,CN=d"]


def make_csr(case, bad=False):
    if case["base"] == case["delta"]:
        raise Skip("the same key")
    b, d = csr_exts(case)
    h = case["h"]
    if case["pss"] and (case["base"][0].startswith("rsa") or case["delta"][0].startswith("rsa")):
        h = "sha256"
    kw = {}
    if DELTANAME[case["dn"]]:
        kw["delta_common_name"] = DELTANAME[case["dn"]]
    be = [one_ext(k, case["ev"][j], tuple(case["base"])) for j, k in enumerate(b)]
    de = [one_ext(k, case["ev"][j + 6], tuple(case["delta"])) for j, k in enumerate(d)]
    csr = cham.build_paired_csr(keys.get(*case["base"]), keys.get(*case["delta"]), CSRNAME[case["n"]], base_extensions=ext_objs(be) if be else None, delta_extensions=ext_objs(de) if de else None,
                                use_rsa_pss=case["pss"], hash_alg=h, bad_alt_pop=bad, **kw)
    return cmpx.enc(csr), be, de, h


def parse_csr(der):
    info, alg, sig = D.split(der)
    p = D.split(info)
    attrs = D.split(p[3])
    return {"info": info, "alg": alg, "sig": sigs.bits(sig), "subject": p[1], "spki": p[2], "attrs": attrs, "head": p[:3]}


def attr_val(r, oid):
    hit = [a for a in r["attrs"] if D.split(a)[0] == D.oid(oid)]
    return D.split(D.split(hit[0])[1])[0] if len(hit) == 1 else None


def attr(oid, v):
    return D.seq(D.oid(oid), D.set_of(v))


def csr_info(r, attrs):
    """CertificationRequestInfo with other attributes (a SET OF in DER order)."""
    body = b"".join(sorted(attrs))
    return D.seq(*r["head"], D.retag(0, D.tlv(0x31, body)))


def delta_ok(r):
    req, val = attr_val(r, REQ), attr_val(r, REQSIG)
    if req is None or val is None:
        return False
    p = D.split(req)
    spki = [e for e in p if e[0] == 0x30][0]
    alg = [e for e in p if e[0] & 0x1F == 2 and e[0] & 0xC0]
    rest = [a for a in r["attrs"] if D.split(a)[0] != D.oid(REQSIG)]
    a = r["alg"]
    if alg:
        a = alg[0] if alg[0][0] == 0x30 else (D.split(alg[0])[0] if D.split(alg[0])[0][0] == 0x30 else D.seq(*D.split(alg[0])))
    return sigs.verify(a, spki, csr_info(r, rest), sigs.bits(val))


def csr_ok(r):
    return sigs.verify(r["alg"], r["spki"], r["info"], r["sig"])


def csr_obj(der):
    o, rest = decoder.decode(der, asn1Spec=rfc6402.CertificationRequest())
    if rest:
        raise PyAsn1Error("rest")
    return o


def csr(case, ctx):
    der, be, de, h = make_csr(case)
    r = parse_csr(der)
    b, d = csr_exts(case)
    ctx.label(case["rel"], "named" if case["dn"] else "unnamed")
    ctx.nontrivial(bool(b or d) or case["dn"] > 0)
    ctx.eq((csr_ok(r), delta_ok(r)), (True, True), "independent verdict on both signatures of the request", "csr-sig")
    ctx.eq(r["spki"], pub_der(*case["base"]), "base key of the request", "csr-key")
    req = D.split(attr_val(r, REQ))
    ctx.eq([e for e in req if e[0] == 0x30][0], pub_der(*case["delta"]), "delta key of the request", "csr-delta-key")
    obj = csr_obj(der)
    ctx.accepts("the paired request", lambda: cham.verify_paired_csr_signature(obj), key="csr-rejected")
    ctx.eq(cmpx.enc(obj), der, "request after its verification", "csr-mutated")
    key, sender = cham.load_chameleon_csr_delta_key_and_sender(obj)
    from resources import convertutils
    ctx.eq(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(key)), pub_der(*case["delta"]), "delta key loaded from the request", "csr-load")
    ca = pki.obj(pki.make(pki.name("Pair CA"), tuple(case["ca"]), exts=[pki.bc()]))
    cp = case["cpss"] and case["ca"][0].startswith("rsa")
    ch = "sha256" if cp else case["ch"]
    add = ext_objs([pki.ext("1.3.6.1.4.1.99999.8", D.octets(b"added"))]) if case["add"] else None
    fn = lambda: cham.build_chameleon_cert_from_paired_csr(obj, keys.get(*case["ca"]), ca, use_rsa_pss=cp, hash_alg=ch, include_ski=case["ski"], extensions=add, strict=case["strict"])  # noqa: E731
    if case["strict"] and b and d and set(b) - set(d):
        ctx.rejects("base extensions missing in the delta request (strict)", fn, exc=(CMPTestSuiteError,), key="strict")
        return
    paired, delta = ctx.accepts("issuing", fn, key="issue")
    pder, dder = cmpx.enc(paired), cmpx.enc(delta)
    pc, dc = Cert(pder), Cert(dder)
    for what, c, x in (("base", pc, pder), ("delta", dc, dder)):
        ctx.check(sigs.cert_ok(x, pub_der(*case["ca"])) and c.inner == c.outer, f"independent verdict on the {what} certificate", f"issued-{what}-sig")
        ids = [e[0] for e in c.exts or []]
        ctx.eq(len(set(ids)), len(ids), f"number of different extensions of the {what} certificate", "ext-twice")
    ctx.eq((pc.spki, dc.spki), (pub_der(*case["base"]), pub_der(*case["delta"])), "keys of the certificates", "issued-keys")
    ctx.check(pc.serial != dc.serial, "two serial numbers", "issued-serial")
    ctx.eq(pc.subject, r["subject"], "subject of the base certificate", "issued-subject")
    if not case["dn"]:
        ctx.eq(dc.subject, r["subject"], "subject of the delta certificate", "issued-delta-subject")
    else:
        n = [e for e in req if e[0] == 0xA0][0]
        ctx.eq(dc.subject, D.split(n)[0], "subject of the delta certificate", "issued-delta-subject")
    for c, key in ((pc, case["base"]), (dc, case["delta"])):
        for oid, crit, v in c.exts or []:
            if oid == D.oid("2.5.29.14"):
                ctx.eq(v, D.octets(pki.kid(*key)), "subject key identifier", "issued-ski")
    if b and not d:
        back = cham.build_delta_cert_from_paired_cert(pki.obj(pder))
        if cmpx.enc(back) != dder:
            ctx.fail("only the base request asks for extensions: the issued delta certificate is not the one rebuilt", "base-only-extensions")
        return
    check_dcd(ctx, pc, dc)
    back = ctx.accepts("rebuilding", lambda: cham.build_delta_cert_from_paired_cert(pki.obj(pder)), key="issued-rebuild")
    ctx.check(cmpx.enc(back) == dder, "the issued delta certificate is rebuilt exactly", "issued-rebuilt" + ("" if Cert(cmpx.enc(back)).tbs == dc.tbs else "-tbs"))


CSRF = CSR.flatmap(lambda c: st.sampled_from(["flip"] * 3 + ["flip-resign"] * 5 + ["delta-key", "delta-sig-other", "delta-sig-flip", "drop-req", "drop-sig", "base-key", "other-request", "bad-pop", "alg"]).map(lambda h: {**c, "how": h}))


def csr_forged(case, ctx):
    how = case["how"]
    der, be, de, h = make_csr(case, bad=how == "bad-pop")
    r = parse_csr(der)
    pss = case["pss"] and case["base"][0].startswith("rsa")

    def resign(info, key=None):
        """The base key signs again."""
        k = tuple(key or case["base"])
        return D.seq(info, r["alg"] if key is None else pki.alg(k[0], h, pss and k[0].startswith("rsa")), D.bits(pki.sign(k[0], k[1], info, h, pss and k[0].startswith("rsa"))))

    def swap(oid, v):
        return [a if D.split(a)[0] != D.oid(oid) else attr(oid, v) for a in r["attrs"]]
    val, req = attr_val(r, REQSIG), D.split(attr_val(r, REQ))
    sig = sigs.bits(val)
    if how == "flip":
        bad = cmpx.flip_leaf(der, case["pick"], case["bit"])
    elif how == "flip-resign":
        info = cmpx.flip_leaf(r["info"], case["pick"], case["bit"])
        bad = resign(info)
    elif how in ("delta-key", "delta-sig-other", "delta-sig-flip"):
        other = (case["delta"][0], 1 - case["delta"][1])
        if how == "delta-key":
            at = swap(REQ, D.seq(*[pub_der(*other) if e[0] == 0x30 and e == pub_der(*case["delta"]) else e for e in req]))
        elif how == "delta-sig-other":
            rest = [a for a in r["attrs"] if D.split(a)[0] != D.oid(REQSIG)]
            at = swap(REQSIG, D.bits(pki.sign(other[0], other[1], csr_info(r, rest), h, case["pss"] and other[0].startswith("rsa"))))
        else:
            s = bytearray(sig)
            s[case["pick"] * 7 % len(s)] ^= 1 << case["bit"] % 8
            at = swap(REQSIG, D.bits(bytes(s)))
        bad = resign(csr_info(r, at))
    elif how in ("drop-req", "drop-sig"):
        gone = D.oid(REQ if how == "drop-req" else REQSIG)
        bad = resign(csr_info(r, [a for a in r["attrs"] if D.split(a)[0] != gone]))
    elif how == "base-key":          # somebody else takes over the request with its own base key
        other = (case["base"][0], 1 - case["base"][1])
        q = {**r, "head": [r["head"][0], r["head"][1], pub_der(*other)]}
        bad = resign(csr_info(q, r["attrs"]), other)
    elif how == "other-request":     # the delta part of another request by the same delta key
        o = parse_csr(make_csr({**case, "n": (case["n"] + 1) % 3})[0])
        at = [a for a in r["attrs"] if D.split(a)[0] not in (D.oid(REQ), D.oid(REQSIG))] + [a for a in o["attrs"] if D.split(a)[0] in (D.oid(REQ), D.oid(REQSIG))]
        bad = resign(csr_info(r, at))
    elif how == "alg":               # another signature algorithm named for the delta signature, which its key has signed too
        new = []
        for e in req:
            if e[0] & 0xC0 and e[0] & 0x1F == 2:
                inner = D.seq(D.oid("1.2.840.10045.4.3.%d" % (1 + case["pick"] % 4)))
                e = D.ctx(2, inner) if D.split(e)[0][0] == 0x30 else D.retag(2, inner)
            new.append(e)
        at = swap(REQ, D.seq(*new))
        rest = [a for a in at if D.split(a)[0] != D.oid(REQSIG)]
        d = case["delta"]
        dp = case["pss"] and d[0].startswith("rsa")
        at = [a if D.split(a)[0] != D.oid(REQSIG) else attr(REQSIG, D.bits(pki.sign(d[0], d[1], csr_info(r, rest), h, dp))) for a in at]
        bad = resign(csr_info(r, at))
    else:
        bad = der
    if bad is None or bad == der and how != "bad-pop":
        raise Skip("no change")
    ctx.label(how, case["delta"][0])
    ctx.nontrivial(True)
    try:
        obj = csr_obj(bad)
        if cmpx.enc(obj) != bad:
            raise Skip("another encoding")
    except PyAsn1Error:
        raise Skip("not a request any more")
    try:
        q = parse_csr(bad)
        v = (csr_ok(q), delta_ok(q))
    except Exception:  # noqa: the independent parser needs a well-formed request
        v = (False, False)
    if all(v):
        raise Skip("both signatures are still good")
    ctx.rejects(f"{how}: paired request, expected {v}", lambda: cham.verify_paired_csr_signature(obj), exc=OK, key=f"csr-{how}")
    ca = pki.obj(pki.make(pki.name("Pair CA"), ("ed25519", 0), exts=[pki.bc()]))
    ctx.rejects(f"{how}: issuing", lambda: cham.build_chameleon_cert_from_paired_csr(csr_obj(bad), keys.get("ed25519", 0), ca), exc=OK, key=f"csr-issue-{how}")


# ---- related certificates

RELKEY = ["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "slh-dsa-sha2-128f"]
REL = st.fixed_dictionaries({
    "a": st.tuples(st.sampled_from(RELKEY), st.integers(0, 1)).map(list), "ca": WHO, "h": st.sampled_from(HASH + ["sha224"]), "pss": st.integers(0, 3).map(lambda x: x == 0), "ask": st.sampled_from([None, None, "sha256", "sha512"]),
    "ku": st.lists(st.integers(0, 2), min_size=2, max_size=2), "eku": st.lists(st.sampled_from([0, 0, 1, 2, 3]), min_size=2, max_size=2), "others": st.lists(st.integers(0, 5), max_size=4), "order": st.lists(st.integers(0, 9), max_size=6), "crit": st.booleans(),
    "how": st.sampled_from(["good", "good", "good", "other", "flip", "hash", "missing", "ku"]), "pick": st.integers(0, 200), "bit": st.integers(0, 2000)})
EKUS = [None, ["1.3.6.1.5.5.7.3.2"], ["1.3.6.1.5.5.7.3.4", "1.3.6.1.5.5.7.3.2"], ["1.3.6.1.5.5.7.3.4"]]
KUS = [["digitalSignature"], ["digitalSignature", "nonRepudiation"], None]
RELATED = str(bind.id_relatedCert)


def cert_a_of(case, serial=5, ku=0, eku=None):
    ex = [pki.bc(False)] + ([pki.ku(*KUS[ku])] if KUS[ku] else []) + ([pki.eku(*eku)] if eku else [])
    ca = tuple(case["ca"])
    return pki.make(pki.name("Cert A"), tuple(case["a"]), issuer=pki.name("CA A"), by=ca, serial=serial, h=case["h"], pss=case["pss"] and ca[0].startswith("rsa"), exts=ex)


def sign_hash(case):
    """The hash function of the algorithm which signed certificate A (RFC 9763 uses the one of the signature)."""
    k = case["ca"][0]
    return case["h"] if k.startswith(("rsa", "ec:")) else None


def related(case, ctx):
    import hashlib
    if case["pss"] and case["ca"][0].startswith("rsa"):
        case = {**case, "h": "sha256"}  # the suite knows PSS with SHA-256 only
    a = cert_a_of(case, ku=case["ku"][0], eku=EKUS[case["eku"][0]])
    ca = tuple(case["ca"])
    ask = case["ask"]
    ext = ctx.accepts("preparing the extension", lambda: bind.prepare_related_cert_extension(pki.obj(a), hash_alg=ask, critical=case["crit"]), key="rel-prepare")
    ed = cmpx.enc(ext)
    q = D.split(ed)
    digest = D.octets_value(D.octets_value(q[-1]))
    ctx.eq((q[0], len(q) == 3), (D.oid(RELATED), case["crit"]), "extension identifier and criticality", "rel-ext")
    h = ask or sign_hash(case)
    if h:
        ctx.eq(digest, hashlib.new(h, a).digest(), "digest of the related certificate", "rel-digest")
    how = case["how"]
    b = pki.make(pki.name("Cert B"), ("ed25519", 0), issuer=pki.name("CA B"), by=ca, h=case["h"], pss=case["pss"] and ca[0].startswith("rsa"), serial=9,
                 exts=[pki.bc(False)] + ([pki.ku(*KUS[case["ku"][1]])] if KUS[case["ku"][1]] else [])
                 + ([pki.eku(*EKUS[case["eku"][1]])] if EKUS[case["eku"][1]] else []) + ([] if how == "missing" else [ed]))
    ea, eb = EKUS[case["eku"][0]], EKUS[case["eku"][1]]
    ka, kb = KUS[case["ku"][0]], KUS[case["ku"][1]]
    ku_ok = kb is None or (ka is not None and not set(kb) - set(ka))
    ku_ok = ku_ok and (eb is None or (ea is not None and not set(eb) - set(ea)))
    other = cert_a_of({**case, "a": [case["a"][0], 1 - case["a"][1]]}, ku=case["ku"][0])
    rel, good, use = a, ku_ok, ask
    if how == "other":
        rel, good = other, False
    elif how == "flip":
        rel, good = cmpx.flip_leaf(a, case["pick"], case["bit"]), False
    elif how == "hash":
        use = "sha384" if h != "sha384" else "sha256"
        good = False
    elif how == "missing":
        good = False
    elif how == "ku":
        good = ku_ok
    ctx.label(how, "ku ok" if ku_ok else "ku differs")
    ctx.nontrivial(how != "good" or bool(case["others"]))
    try:
        robj = pki.obj(rel)
        if cmpx.enc(robj) != rel:
            raise Skip("another encoding")
    except PyAsn1Error:
        raise Skip("not a certificate any more")
    bobj = pki.obj(b)
    fn = lambda: bind.validate_related_cert_extension(bobj, robj, hash_alg=use)  # noqa: E731
    if good:
        ctx.accepts("the related certificate", fn, key="rel-rejected")
    else:
        ctx.rejects(f"{how}: related certificate", fn, exc=OK, key=f"rel-{how}" if how != "good" else "rel-ku")
    # among others; without a hash asked for, the reader derives it from the signature of certificate B
    if ask is None and how not in ("missing", "hash"):
        decoys = [[other, cert_a_of(case, serial=6), b, pki.make(pki.name("Cert A"), ("ed448", 0)), cert_a_of(case, ku=(case["ku"][0] + 1) % 3), pki.make(pki.name("Z"), ("ed25519", 1))][x] for x in case["others"]]
        lst = shuffle(decoys + ([rel] if how in ("good", "ku") else []), case["order"])
        if how in ("good", "ku"):
            got = ctx.accepts("the related certificate among others", lambda: bind.get_related_cert_from_list([pki.obj(x) for x in lst], bobj), key="rel-find")
            ctx.check(cmpx.enc(got) == a, "the certificate found", "rel-found")
        else:
            ctx.rejects("the related certificate among others only", lambda: bind.get_related_cert_from_list([pki.obj(x) for x in lst], bobj), exc=OK, key="rel-found-other")


BIND = st.fixed_dictionaries({
    "a": st.tuples(st.sampled_from(RELKEY), st.integers(0, 1)).map(list), "b": WHO, "ca": WHO, "h": st.sampled_from(HASH), "pss": st.just(False), "age": st.sampled_from([0, 0, 0, 1, 10, 499, 500, 501, 502, 100000, -1, -100]), "fresh": st.sampled_from([500, 500, 500, 60]),
    "how": st.sampled_from(["good"] * 5 + ["bad_pop", "serial", "issuer", "other-key", "other-cert", "flip-time", "flip-id", "sig-flip", "drop", "time-moved", "renewed", "a-ca", "b-ca", "anchor", "not-signed"]), "pick": st.integers(0, 200),
    "bit": st.integers(0, 500), "full": st.booleans()})
RELREQ = str(bind.id_aa_relatedCertRequest)


def binding(case, ctx):
    from resources import certbuildutils
    utils.fetch_value_from_location = fetch
    STORE.clear()
    how = case["how"]
    full = case["full"] or how in ("a-ca", "b-ca", "anchor")
    ca = tuple(case["ca"])
    root = pki.make(pki.name("CA A"), ca, exts=[pki.bc(), pki.ku("keyCertSign", "cRLSign"), pki.ski(*ca)], h=case["h"])
    ex = [pki.bc(how == "a-ca"), pki.ku(*(["keyCertSign"] if how == "a-ca" else ["digitalSignature"])), pki.ski(*case["a"]), pki.aki(*ca)]
    a = pki.make(pki.name("Cert A"), tuple(case["a"]), issuer=pki.name("CA A"), by=ca, serial=77, h=case["h"], exts=ex)
    uri = "http://loc/certA"
    STORE[uri] = a
    aobj = pki.obj(a)
    if ca[0] == "ed448" and case["a"][0].startswith(("rsa", "ec:")):
        raise Skip("the hash function of the signature of certificate A cannot be used with its key")
    kw = {}
    if how in ("bad_pop",):
        kw["bad_pop"] = True
    if how == "serial":
        kw["invalid_serial_number"] = True
    if how == "issuer":
        kw["invalid_issuer"] = True
    key = keys.get(case["a"][0], case["a"][1] if how != "other-key" else 1 - case["a"][1])
    now = int(time.time())
    req = ctx.accepts("preparing the request", lambda: bind.prepare_requester_certificate(aobj, key, uri, request_time=now - case["age"] or None, **kw), key="bind-prepare")
    rd = cmpx.enc(req)
    p = D.split(rd)
    if how == "flip-time":
        p[[i for i, e in enumerate(p) if e[0] == 0x02][0]] = D.integer(now - case["age"] - 1)
    elif how == "time-moved":       # an old proof presented as a fresh one
        p[[i for i, e in enumerate(p) if e[0] == 0x02][0]] = D.integer(now - case["age"] + 3)
        if case["age"] < 5:
            raise Skip("in the future")
    elif how == "flip-id":
        i = [i for i, e in enumerate(p) if e[0] == 0x30][0]
        p[i] = cmpx.flip_leaf(p[i], case["pick"], case["bit"])
    elif how == "sig-flip":
        s = bytearray(sigs.bits(p[-1]))
        s[case["pick"] * 7 % len(s)] ^= 1 << case["bit"] % 8
        p[-1] = D.bits(bytes(s))
    elif how == "other-cert":
        STORE[uri] = pki.make(pki.name("Cert A"), (case["a"][0], 1 - case["a"][1]), issuer=pki.name("CA A"), by=ca, serial=77, h=case["h"], exts=ex)
    elif how == "renewed":          # same key and name, another certificate
        STORE[uri] = pki.make(pki.name("Cert A"), tuple(case["a"]), issuer=pki.name("CA A"), by=ca, serial=78, h=case["h"], exts=ex)
    rd = D.seq(*p)
    # the request for certificate B, assembled here
    bk = tuple(case["b"])
    at = ([] if how == "drop" else [attr(RELREQ, rd)]) + [D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(D.seq(pki.bc(how == "b-ca"))))]
    info = D.seq(D.integer(0), pki.name("Cert B"), pub_der(*bk), D.retag(0, D.tlv(0x31, b"".join(sorted(at)))))
    der = D.seq(info, pki.alg(bk[0], case["h"]), D.bits(pki.sign(bk[0], bk[1], info, case["h"])))
    try:
        obj = csr_obj(der)
    except PyAsn1Error:
        raise Skip("not a request")
    good = how in ("good", "a-ca", "b-ca", "anchor", "not-signed") and 0 <= case["age"] <= case["fresh"] and not (case["age"] == case["fresh"])
    if case["age"] in (case["fresh"], case["fresh"] + 1, case["fresh"] - 1, -1) or how == "flip-time" and case["age"] == 0:
        if how != "good":
            raise Skip("at the limit")
        if case["age"] != case["fresh"] + 1:
            raise Skip("at the limit of the clock")
    ctx.label(how, "fresh" if 0 <= case["age"] < case["fresh"] else "stale", "full" if full else "pop")
    ctx.nontrivial(True)
    if case["age"] != 0 or how != "good":
        ctx.label("judged by rule")
    if how in ("good", "a-ca", "b-ca", "anchor", "not-signed"):
        o = [e for e in p if e[0] == 0x02][0] + [e for e in p if e[0] == 0x30][0]
        alg_h = {"alg": pki.alg(ca[0], case["h"])}
        sig = sigs.bits(p[-1])
        hh = case["h"]
        k = case["a"][0]
        oks = [sigs.verify(pki_alg(k, x), pub_der(*case["a"]), o, sig) for x in {hh, "sha512", "sha256", None} if pki_alg(k, x)]
        ctx.check(any(oks), f"the proof is a signature over request time and certificate identifier ({alg_h})", "bind-sig")
    if not full:
        fn = lambda: bind.validate_related_cert_pop(obj, max_freshness_seconds=case["fresh"])  # noqa: E731
    else:
        path = os.path.join(SCRATCH, f"c18-{os.getpid()}-anchors")
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        anchor = root if how != "anchor" else pki.make(pki.name("CA A"), ("ec:secp256k1", 0), exts=[pki.bc()])
        with open(os.path.join(path, "root.pem"), "wb") as f:
            f.write(b"-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(anchor) + b"-----END CERTIFICATE-----\n")
        if case["a"][0].startswith(("ml", "slh")) or ca[0].startswith("ml"):
            openssl = False
        else:
            openssl = True
        fn = lambda: bind.validate_multi_auth_binding_csr(obj, max_freshness_seconds=case["fresh"], trustanchors=path, do_openssl_check=openssl)  # noqa: E731
        good = good and how not in ("a-ca", "b-ca", "anchor")
        if how == "anchor" and not openssl:
            raise Skip("no chain check")
    if good:
        got = ctx.accepts("the binding", fn, key="bind-rejected")
        got = got[0] if isinstance(got, list) else got
        ctx.check(cmpx.enc(got) == a, "the certificate of the binding", "bind-cert")
    else:
        ctx.rejects(f"{how}, age {case['age']}: the binding", fn, exc=OK + (IOError,), key=f"bind-{how}")


def pki_alg(key, h):
    if key.startswith("slh"):
        return D.seq(D.oid("2.16.840.1.101.3.4.3.%d" % {None: 21, "sha256": 36}[h])) if h in (None, "sha256") else None
    if key in pki.ML:
        return D.seq(D.oid("2.16.840.1.101.3.4.3.%d" % (pki.ML[key] + (15 if h == "sha512" else 0)))) if h in (None, "sha512") else None
    return pki.alg(key, h) if h or key.startswith("ed") else None


DISC = st.fixed_dictionaries({
    "a": st.tuples(st.sampled_from(RELKEY[:-1]), st.integers(0, 1)).map(list), "ca": WHO, "h": st.sampled_from(HASH), "pss": st.booleans(), "with": st.integers(0, 3), "via": st.booleans(), "crit": st.booleans(),
    "how": st.sampled_from(["good", "good", "other-sigalg", "other-keyalg", "no-loc", "garbage", "other-hash"]), "k2": WHO})


def discovery(case, ctx):
    utils.fetch_value_from_location = fetch
    STORE.clear()
    ca = tuple(case["ca"])
    pss = case["pss"] and ca[0].startswith("rsa")

    def make(key, by, h, p):
        return pki.make(pki.name("Second"), tuple(key), issuer=pki.name("CA 2"), by=by, h=h, pss=p, serial=4, exts=[pki.bc(False)])
    other = make(case["a"], ca, case["h"], pss)
    how = case["how"]
    uri = "http://loc/second"
    kw = {"other_cert": pki.obj(other)}
    if case["via"]:
        kw = {}
        sa, ka = pki.alg(ca[0], case["h"], pss), D.split(pub_der(*case["a"]))[0]
        if case["with"] & 1:
            kw["signature_algorithm"] = decoder.decode(sa, asn1Spec=rfc5280.AlgorithmIdentifier())[0]
        if case["with"] & 2:
            kw["public_key_algorithm"] = decoder.decode(ka, asn1Spec=rfc5280.AlgorithmIdentifier())[0]
    ext = ctx.accepts("preparing the descriptor", lambda: certdiscovery.prepare_subject_info_access_syntax_extension(uri, critical=case["crit"], **kw), key="disc-prepare")
    prim = pki.make(pki.name("Primary"), ("ed25519", 0), exts=[pki.bc(False), cmpx.enc(ext)])
    pobj = pki.obj(prim)
    ctx.check(certdiscovery.is_cert_discovery_cert(pobj) is True and certdiscovery.is_cert_discovery_cert(pki.obj(other)) is False, "recognition of certificate discovery", "disc-is")
    has = (True, True) if not case["via"] else (bool(case["with"] & 1), bool(case["with"] & 2))
    served, good = other, True
    if how == "other-sigalg":
        k2 = tuple(case["k2"])
        served = make(case["a"], k2, case["h"], False)
        good = not has[0] or pki.alg(k2[0], case["h"]) == pki.alg(ca[0], case["h"], pss)
    elif how == "other-hash":
        h2 = "sha384" if case["h"] != "sha384" else "sha256"
        served = make(case["a"], ca, h2, pss)
        good = not has[0] or pki.alg(ca[0], h2, pss) == pki.alg(ca[0], case["h"], pss)
    elif how == "other-keyalg":
        served = make(case["k2"], ca, case["h"], pss)
        good = not has[1] or D.split(pub_der(*case["k2"]))[0] == D.split(pub_der(*case["a"]))[0]
    elif how == "garbage":
        served, good = other + b"\0", False
    if how != "no-loc":
        STORE[uri] = served
    ctx.label(how, f"fields {has}")
    ctx.nontrivial(how != "good" or case["via"])
    desc = ctx.accepts("reading the descriptor", lambda: certdiscovery.extract_related_cert_des_from_sis_extension(pki.obj(prim)["tbsCertificate"]["extensions"][1]), key="disc-read")
    ctx.eq(str(desc["uniformResourceIdentifier"]), uri, "location", "disc-uri")
    ctx.eq((desc["signatureAlgorithm"].isValue, desc["publicKeyAlgorithm"].isValue), has, "algorithms present in the descriptor", "disc-fields")
    if how in ("no-loc", "garbage"):
        ctx.rejects(f"{how}: fetching", lambda: certdiscovery.get_cert_discovery_cert(pobj), exc=OK + (IOError,), key="disc-fetch")
        return
    got = ctx.accepts("fetching the second certificate", lambda: certdiscovery.get_cert_discovery_cert(pobj), key="disc-get")
    ctx.check(cmpx.enc(got) == served, "the second certificate", "disc-cert")
    fn = lambda: certdiscovery.validate_related_certificate_descriptor_alg_ids(got, desc)  # noqa: E731
    if good:
        ctx.accepts("the algorithms of the second certificate", fn, key="disc-alg-rejected")
    else:
        ctx.rejects(f"{how}: algorithms of the second certificate", fn, exc=OK, key=f"disc-{how}")


SUBS = [
    Sub("pair", PAIR, pair, quick=130, thorough=12000, shards=8, text="pairs assembled from any equal or different fields, and their reconstruction"),
    Sub("csr", CSR, csr, quick=110, thorough=8000, shards=8, text="paired requests, the certificates issued for them and their reconstruction"),
    Sub("csr-forged", CSRF, csr_forged, quick=110, thorough=10000, shards=8, text="changed paired requests, mostly re-signed by the base key"),
    Sub("related", REL, related, quick=120, thorough=8000, shards=8, text="relatedCertificate extensions for the right, changed and other certificates"),
    Sub("binding", BIND, binding, quick=100, thorough=8000, shards=8, text="requests that bind an existing certificate: proof, identifier, age and trust"),
    Sub("discovery", DISC, discovery, quick=80, thorough=6000, shards=8, text="certificate discovery descriptors against what the location serves"),
]
