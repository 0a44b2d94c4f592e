"""C17: catalyst and Sun-hybrid certificates bind both keys and both signatures."""
import hashlib

from hypothesis import strategies as st
from pyasn1.error import PyAsn1Error

from checks.c05 import pub_der
from checks.c11 import Cert
from lib import cmpx, der as D, keys, pki, sigs
from lib.harness import Skip, Sub
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from pq_logic import pq_verify_logic
from pq_logic.hybrid_sig import catalyst_logic as cat, sun_lamps_hybrid_scheme_00 as sun
from resources import certbuildutils, certutils, utils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C17"
TECHNIQUE = ("generated key pairs, names, extensions and options; the certificates are parsed and both signatures verified without the suite over independently assembled data; "
             "search for a change which one of the two verifications misses although the signer of the other one co-operates")
RULE = "always: every case builds a hybrid certificate or CRL with its own keys, name and extensions; non-trivial cases damage it, convert its form, or hide it among look-alikes"
ASSUMPTIONS = ["the alternative key of a catalyst certificate is the alternative key of its signer (the suite's construction)", "fetching a location is replaced by a table of generated contents",
               "RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA, SLH-DSA and composite signatures are re-implemented in lib/"]
OK = (ValueError, TypeError, InvalidSignature, UnsupportedAlgorithm, CMPTestSuiteError, PyAsn1Error, OverflowError)   # OverflowError: pyasn1 on absurd lengths

TRAD = ["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ed25519", "ed448", "ec:brainpoolP256r1"]
PQ = ["ml-dsa-44", "ml-dsa-44", "ml-dsa-44", "ml-dsa-44", "ml-dsa-65", "ml-dsa-65", "ml-dsa-87", "ml-dsa-87", "slh-dsa-sha2-128f", "slh-dsa-shake-128f"]
SHAKE = "2.16.840.1.101.3.4.2.12"
CLIENT = TRAD + ["ml-dsa-44", "x25519", "ml-kem-768"]
COMP = ["composite-sig:ml-dsa-44:rsa2048", "composite-sig:ml-dsa-44:ed25519", "composite-sig:ml-dsa-44:ec:secp256r1", "composite-sig:ml-dsa-65:rsa3072", "composite-sig:ml-dsa-65:ec:secp384r1",
        "composite-sig:ml-dsa-65:ed25519", "composite-sig:ml-dsa-87:ec:secp384r1", "composite-sig:ml-dsa-87:ed448", "composite-sig:ml-dsa-65:ec:brainpoolP256r1", "composite-sig:ml-dsa-87:ec:secp521r1"]
HASH = ["sha256", "sha384", "sha512"]
ALT_SPKI, ALT_ALG, ALT_VAL = "2.5.29.72", "2.5.29.73", "2.5.29.74"
SUN_PK, SUN_SIG = str(sun.id_altSubPubKeyExt), str(sun.id_altSignatureExt)
STORE = {}


def fetch(location, timeout=20):
    if not location:
        return None
    try:
        return STORE[str(location)]
    except KeyError:
        raise IOError(f"nothing at {location}") from None


@st.composite
def common(draw):
    return {"trad": draw(st.sampled_from(TRAD)), "i": draw(st.integers(0, 1)), "pq": draw(st.sampled_from(PQ)), "j": draw(st.integers(0, 1)), "h": draw(st.sampled_from(HASH)),
            "ah": draw(st.sampled_from([None, None, "sha256", "sha512"])), "pss": draw(st.integers(0, 3)) == 0, "key": draw(st.sampled_from(CLIENT)), "k": draw(st.integers(0, 1)),
            "name": draw(st.sampled_from(["CN=Hybrid", "CN=Hybrid,O=Org,C=DE", "O=Only Org"])), "exts": draw(st.lists(st.integers(0, 3), max_size=4, unique=True)), "crit": draw(st.booleans())}


def same(obj, der):
    try:
        return cmpx.enc(obj) == der
    except PyAsn1Error:
        return False


def some_exts(pick, key="rsa2048"):
    return [[pki.ku("digitalSignature"), pki.bc(False), pki.eku("1.3.6.1.5.5.7.3.2"), pki.ext("1.3.6.1.4.1.99999.7", D.octets(b"opaque"), False)][p] for p in pick]


def ext_objs(ders):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5280
    out = rfc5280.Extensions()
    for d in ders:
        out.append(decoder.decode(d, asn1Spec=rfc5280.Extension())[0])
    return out


def pss_hash(c):
    return "sha256" if c["pss"] and c["trad"].startswith("rsa") else c["h"]


def get_ext(c, oid):
    hits = [x for x in c.exts or [] if x[0] == D.oid(oid)]
    return hits[0] if len(hits) == 1 else None


def fields(c):
    """The DER elements of the tbsCertificate and of its extensions."""
    p = D.split(c.tbs)
    return p[:-1], D.split(D.split(p[-1])[0])


def pre_tbs(c, without=(ALT_VAL,)):
    """X.509 9.8: what the alternative signature covers, the signature field and the value itself left out."""
    p, es = fields(c)
    keep = [e for e in es if D.split(e)[0] not in [D.oid(o) for o in without]]
    return D.seq(*p[:2], *p[3:], D.ctx(3, D.seq(*keep)))


def rebuild(c, exts=None, swap=None, key=None, inner=True):
    """The certificate with other extensions or fields, signed again by the traditional key (name, i, hash, pss)."""
    p, es = fields(c)
    es = es if exts is None else exts
    for n, v in (swap or {}).items():
        p[n] = v
    a = c.inner
    if key:
        a = pki.alg(key[0], key[2], key[3])
        p[2] = a
    tbs = D.seq(*p, D.ctx(3, D.seq(*es)))
    sig = c.sig if key is None else pki.sign(key[0], key[1], tbs, key[2], key[3])
    return D.seq(tbs, a if inner else c.outer, D.bits(sig))


def alt_sign(c, data):
    k = keys.get(c["pq"], c["j"])
    return k.sign(data)


def make(case):
    """A catalyst certificate of the suite."""
    h = pss_hash(case)
    pss = case["pss"] and case["trad"].startswith("rsa")
    trad, pq = keys.get(case["trad"], case["i"]), keys.get(case["pq"], case["j"])
    if case.get("via", 0):
        iss, _ = certbuildutils.build_certificate(trad, "CN=Issuer")
        tbs = certbuildutils.prepare_tbs_certificate(subject=case["name"], signing_key=trad, public_key=keys.get(case["key"], case["k"]).public_key(), issuer_cert=iss, extensions=ext_objs(some_exts(case["exts"])),
                                                     hash_alg=h)
        cert = pki.obj(pki.make(pki.name("x"), ("ed25519", 0)))
        cert["tbsCertificate"] = tbs
        return cat.sign_cert_catalyst(cert, pq_key=pq, trad_key=trad, pq_hash_alg=case["ah"], hash_alg=h, use_rsa_pss=pss, critical=case["crit"], bad_alt_sig=case.get("bad", False))
    return cat.build_catalyst_cert(trad, pq, keys.get(case["key"], case["k"]), case["name"], extensions=ext_objs(some_exts(case["exts"])), hash_alg=h, alt_hash_alg=case["ah"], use_rsa_pss=pss,
                                   critical=case["crit"])


def judge(c, case):
    """Independent verdicts on the traditional and on the alternative signature of a catalyst certificate."""
    trad = c.inner == c.outer and sigs.verify(c.outer, pub_der(case["trad"], case["i"]), c.tbs, c.sig)
    spk, alg, val = (get_ext(c, o) for o in (ALT_SPKI, ALT_ALG, ALT_VAL))
    alt = bool(spk and alg and val) and sigs.verify(alg[2], spk[2], pre_tbs(c), sigs.bits(val[2]))
    return trad, alt


CAT = st.tuples(common(), st.fixed_dictionaries({"via": st.integers(0, 1), "bad": st.integers(0, 4).map(lambda x: x == 0), "form": st.integers(0, 2)})).map(lambda t: {**t[0], **t[1]})


def issuer_arg(case):
    if case["form"] == 0:
        return {"issuer_pub_key": keys.get(case["trad"], case["i"]).public_key()}
    return {"issuer_cert": pki.obj(pki.make(pki.name("Issuer"), (case["trad"], case["i"]), exts=[pki.bc()]))}


def catalyst(case, ctx):
    if not case["via"]:
        case = {**case, "bad": False}
    cert = make(case)
    der = cmpx.enc(cert)
    c = Cert(der)
    ctx.label(case["trad"].split(":")[-1], case["pq"], "bad alt" if case["bad"] else "good")
    ctx.nontrivial(bool(case["exts"]) or case["bad"] or case["pss"] or case["ah"] is not None)
    es = dict((x[0], x) for x in c.exts)
    ctx.eq(len(es), len(c.exts), "number of different extensions", "ext-twice")
    ctx.eq([x for _, x in sorted((o, es[D.oid(o)][2]) for o in [ALT_SPKI])], [pub_der(case["pq"], case["j"])], "subjectAltPublicKeyInfo", "alt-key")
    ctx.eq(c.spki, pub_der(case["key"], case["k"]), "subject public key", "spki")
    ctx.eq([x for o, cr, x in c.exts][:len(case["exts"])], [D.octets_value(D.split(e)[-1]) for e in some_exts(case["exts"])], "other extensions", "exts")
    ctx.check(all(es[D.oid(o)][1] == case["crit"] for o in (ALT_SPKI, ALT_ALG, ALT_VAL)), "criticality of the alternative extensions", "crit")
    ctx.eq(judge(c, case), (True, not case["bad"]), "independent verdict on both signatures", "signature")
    loaded = ctx.accepts("loading the alternative public key", lambda: cat.load_catalyst_public_key(cert), key="load")
    from resources import convertutils
    ctx.eq(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(loaded)), pub_der(case["pq"], case["j"]), "loaded alternative key", "load-key")
    got = ctx.accepts("extracting the alternative key", lambda: pq_verify_logic.may_extract_alt_key_from_cert(cert), key="extract")
    ctx.eq(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(got)), pub_der(case["pq"], case["j"]), "extracted alternative key", "extract-key")
    fresh = pki.obj(der)
    ctx.accepts("certificate signature", lambda: certutils.verify_cert_signature(cert=fresh, issuer_pub_key=keys.get(case["trad"], case["i"]).public_key()), key="trad-rejected")
    if case["bad"]:
        ctx.rejects("wrong alternative signature", lambda: cat.verify_catalyst_signature(pki.obj(der), **issuer_arg(case)), exc=OK, key="bad-alt-accepted")
        return
    ctx.accepts("both signatures", lambda: cat.verify_catalyst_signature(fresh, **issuer_arg(case)), key="rejected")
    alg = sigs.oid_str(D.split(get_ext(c, ALT_ALG)[2])[0])
    ctx.accepts("both signatures with the demanded algorithm", lambda: cat.verify_catalyst_signature(pki.obj(der), sig_alg_must_be=alg, **issuer_arg(case)), key="rejected-alg")
    other = "2.16.840.1.101.3.4.3.%d" % (17 + (int(alg.rsplit(".", 1)[1]) - 16) % 12)
    ctx.rejects("another demanded algorithm", lambda: cat.verify_catalyst_signature(pki.obj(der), sig_alg_must_be=other, **issuer_arg(case)), exc=OK, key="other-alg")
    ctx.eq(cmpx.enc(fresh), der, "certificate after its verification", "mutated")


FORGE = ["flip"] * 5 + ["flip-resign"] * 6 + ["alt-key", "alt-key-only", "alt-sig-other", "alt-sig-flip", "alt-sig-empty", "alt-sig-long", "drop-one", "drop-one", "drop-two", "issuer", "issuer-type", "trad-only",
        "trad-flip", "alg", "alg-garbage", "swap-tbs", "twice", "full-tbs"]
CATF = st.tuples(common(), st.fixed_dictionaries({"via": st.integers(0, 1), "form": st.integers(0, 2), "how": st.sampled_from(FORGE), "pick": st.integers(0, 500), "bit": st.integers(0, 4000)})).map(
    lambda t: {**t[0], **t[1], "bad": False})


def catalyst_forged(case, ctx):
    good = cmpx.enc(make(case))
    c = Cert(good)
    how, pick, bit = case["how"], case["pick"], case["bit"]
    pss = case["pss"] and case["trad"].startswith("rsa")
    tk = (case["trad"], case["i"], pss_hash(case), pss)
    p, es = fields(c)
    at = {o: next(n for n, e in enumerate(es) if D.split(e)[0] == D.oid(o)) for o in (ALT_SPKI, ALT_ALG, ALT_VAL)}

    def put(o, v):
        out = list(es)
        out[at[o]] = pki.ext(o, v, case["crit"])
        return out
    arg = issuer_arg(case)
    other = ("ml-dsa-44", 1 - case["j"]) if case["pq"] == "ml-dsa-44" else ("ml-dsa-44", case["j"])
    sig = sigs.bits(get_ext(c, ALT_VAL)[2])
    if how == "flip":
        bad = cmpx.flip_leaf(good, pick, bit)
    elif how == "flip-resign":
        tbs = cmpx.flip_leaf(c.tbs, pick, bit)
        q = D.split(tbs)
        bad = D.seq(tbs, q[2], D.bits(pki.sign(tk[0], tk[1], tbs, tk[2], tk[3])))
        if q[2] != D.split(c.tbs)[2]:
            raise Skip("the algorithm of the traditional signature is not covered by the alternative one")
    elif how == "alt-key":              # another key, its own signature, but the traditional signature left
        e2 = put(ALT_SPKI, pub_der(*other))
        cc = Cert(rebuild(c, e2))
        e3 = list(e2)
        e3[at[ALT_ALG]] = pki.ext(ALT_ALG, D.seq(D.oid("2.16.840.1.101.3.4.3.17")), case["crit"])
        cc = Cert(rebuild(c, e3))
        e3[at[ALT_VAL]] = pki.ext(ALT_VAL, D.bits(keys.get(*other).sign(pre_tbs(cc))), case["crit"])
        bad = rebuild(c, e3)
    elif how == "alt-key-only":
        bad = rebuild(c, put(ALT_SPKI, pub_der(*other)), key=tk)
    elif how == "alt-sig-other":
        bad = rebuild(c, put(ALT_VAL, D.bits(keys.get(*other).sign(pre_tbs(c)))), key=tk)
    elif how == "alt-sig-flip":
        b = bytearray(sig)
        b[pick * 7 % len(b)] ^= 1 << bit % 8
        bad = rebuild(c, put(ALT_VAL, D.bits(bytes(b))), key=tk)
    elif how == "alt-sig-empty":
        bad = rebuild(c, put(ALT_VAL, D.bits(b"")), key=tk)
    elif how == "alt-sig-long":
        bad = rebuild(c, put(ALT_VAL, D.bits(sig + b"\0" * (1 + bit % 3))), key=tk)
    elif how in ("drop-one", "drop-two"):
        gone = [(ALT_SPKI, ALT_ALG, ALT_VAL)[(pick + n) % 3] for n in range(1 if how == "drop-one" else 2)]
        keep = [e for e in es if D.split(e)[0] not in [D.oid(o) for o in gone]]
        bad = rebuild(c, keep, key=tk)
        if ALT_VAL not in gone and bit % 2:       # with an alternative signature over what is left
            cc = Cert(bad)
            keep = [e if D.split(e)[0] != D.oid(ALT_VAL) else pki.ext(ALT_VAL, D.bits(alt_sign(case, pre_tbs(cc))), case["crit"]) for e in keep]
            bad = rebuild(c, keep, key=tk)
    elif how == "issuer":
        bad = good
        arg = issuer_arg({**case, "i": 1 - case["i"]})
    elif how == "issuer-type":
        bad = good
        arg = issuer_arg({**case, "trad": TRAD[(TRAD.index(case["trad"]) + 1 + pick % 7) % 8]})
    elif how == "trad-only":           # the traditional key signs another certificate around the old alternative signature
        bad = rebuild(c, swap={1: D.integer(7 + pick)}, key=tk)
    elif how == "trad-flip":
        b = bytearray(c.sig)
        b[pick * 7 % len(b)] ^= 1 << bit % 8
        bad = D.seq(c.tbs, c.outer, D.bits(bytes(b)))
    elif how in ("alg", "alg-garbage"):     # both signers sign, but the named algorithm is not the one used
        o = "2.16.840.1.101.3.4.3.%d" % (17 + (bit % 12)) if how == "alg" else ["1.2.3.4", "1.2.840.113549.1.1.1", "2.5.29.15", "1.2.840.113549.1.1.11"][pick % 4]
        e2 = put(ALT_ALG, D.seq(D.oid(o)))
        e2[at[ALT_VAL]] = pki.ext(ALT_VAL, D.bits(alt_sign(case, pre_tbs(Cert(rebuild(c, e2))))), case["crit"])
        bad = rebuild(c, e2, key=tk)
    elif how == "swap-tbs":            # the alternative signature of another certificate of the same signer
        o = Cert(cmpx.enc(make({**case, "name": "CN=Other %d" % pick})))
        bad = rebuild(c, put(ALT_VAL, get_ext(o, ALT_VAL)[2]), key=tk)
    elif how == "twice":               # (a second altSignatureValue is left out of the signed data by definition)
        e2 = es + [es[at[(ALT_SPKI, ALT_ALG)[pick % 2]]]]
        bad = rebuild(c, e2, key=tk)
    else:                              # an alternative signature over the whole tbsCertificate, algorithm field included
        keep = [e for e in es if D.split(e)[0] != D.oid(ALT_VAL)]
        data = D.seq(*p, D.ctx(3, D.seq(*keep)))
        bad = rebuild(c, put(ALT_VAL, D.bits(alt_sign(case, data))), key=tk)
    if bad is None or bad == good and how not in ("issuer", "issuer-type"):
        raise Skip("no change")
    ctx.label(how, case["pq"])
    ctx.nontrivial(True)
    try:
        obj = pki.obj(bad)
    except PyAsn1Error:
        raise Skip("not a certificate any more")
    try:
        v = judge(Cert(bad), case)
    except Exception:  # noqa: the independent parser needs well-formed extensions
        v = (False, False)
    if how in ("issuer", "issuer-type"):
        v = (False, True)
    if all(v):
        if how == "alg" and bit % 12 == PQ_N.get(case["pq"]):
            raise Skip("the same algorithm")
        raise Skip("both signatures are still good")
    if not same(obj, bad):
        raise Skip("reads as another encoding of a certificate")
    ctx.rejects(f"{how}: both signatures, expected {v}", lambda: cat.verify_catalyst_signature(obj, **arg), exc=OK, key=f"forged-{how}")


PQ_N = {"ml-dsa-44": 0, "ml-dsa-65": 1, "ml-dsa-87": 2, "slh-dsa-sha2-128f": 4, "slh-dsa-shake-128f": 10}

# ---- Sun hybrid

SUN = st.tuples(common(), st.fixed_dictionaries({"comp": st.sampled_from(COMP), "route": st.sampled_from(["csr", "csr", "template"]), "pk_hash": st.sampled_from([None] + HASH), "sig_hash": st.sampled_from([None] + HASH),
                                                 "loc": st.sampled_from([3, 3, 3, 3, 3, 0, 1, 2]), "serial": st.one_of(st.none(), st.integers(1, 2**150)), "ca_alt": st.sampled_from(["none", "catalyst", "composite"]),
                                                 "path": st.lists(st.integers(1, 4), max_size=5)})).map(lambda t: {**t[0], **t[1]})


def issuer_cert(case, i=None, extra=()):
    i = case["i"] if i is None else i
    return pki.make(pki.name("Sun CA"), (case["trad"], i), exts=[pki.bc(), pki.ku("keyCertSign", "cRLSign"), *extra])


def sun_make(case):
    utils.fetch_value_from_location = fetch
    STORE.clear()
    if case["route"] == "template" and case["pk_hash"] is None and case["comp"].endswith("ed448"):
        case = {**case, "pk_hash": "sha512"}     # the pre-hash of this key, SHAKE256, is no hash for the CA's own signature
    ca = pki.obj(issuer_cert(case))
    trad, pq = keys.get(case["trad"], case["i"]), keys.get(case["pq"], case["j"])
    locs = ["http://loc/pub" if case["loc"] & 1 else None, "http://loc/sig" if case["loc"] & 2 else None]
    comp = keys.get(case["comp"], case["k"])
    ex = [e for e in ext_objs(some_exts(case["exts"]))]
    if case["route"] == "csr":
        attrs = sun.prepare_sun_hybrid_csr_attributes(pub_key_hash_alg=case["pk_hash"], pub_key_location=locs[0], sig_hash_alg=case["sig_hash"], sig_value_location=locs[1])
        csr = certbuildutils.build_csr(comp, case["name"], exclude_signature=True)
        for a in attrs:
            csr["certificationRequestInfo"]["attributes"].append(a)
        csr = certbuildutils.sign_csr(csr, comp)
        f4, f1 = sun.sun_csr_to_cert(csr, trad, pq, ca_cert=ca, hash_alg=case["h"], serial_number=case["serial"], extensions=ex or None)
    else:
        tmpl = certbuildutils.prepare_cert_template(key=comp, subject=case["name"])
        f4, f1 = sun.sun_cert_template_to_cert(tmpl, ca, trad, pq, locs[0], locs[1], hash_alg=case["pk_hash"], serial_number=case["serial"], extensions=ext_objs(some_exts(case["exts"])) if ex else None)
    return cmpx.enc(f4), cmpx.enc(f1), locs


def sun_ext(c, oid):
    """(byVal, [other fields by tag], content) of a Sun extension."""
    x = get_ext(c, oid)
    if x is None:
        return None
    p = D.split(x[2])
    out = {"crit": x[1], "byval": None}
    for e in p:
        if e[0] == 0x01:
            out["byval"] = e[2] != 0
        elif e[0] == 0x03:
            out["content"] = sigs.bits(e)
        elif e[0] == 0x16:
            out["loc"] = e[D.read(e)[2]:].decode()
        else:
            out.setdefault("seqs", []).append(e)
    if out["byval"] is None:
        out["byval"] = False
    return out


def H(alg_der, data):
    o = sigs.oid_str(D.split(alg_der)[0])
    return hashlib.shake_256(data).digest(64) if o == SHAKE else hashlib.new(sigs.HASHOID[o], data).digest()


def put_store(case, f1, locs):
    c1 = Cert(f1)
    if locs[0]:
        STORE[locs[0]] = pub_of_comp(case)[1]
    if locs[1]:
        STORE[locs[1]] = sun_ext(c1, SUN_SIG)["content"]


def pub_of_comp(case):
    _, pq, trad = case["comp"].split(":", 2)
    return pub_der(trad, case["k"]), pub_der(pq, case["k"])


def without(c, oid):
    p, es = fields(c)
    keep = [e for e in es if D.split(e)[0] != D.oid(oid)]
    return D.seq(*p, *([D.ctx(3, D.seq(*keep))] if keep else []))


def sun_good(case, ctx):
    f4, f1, locs = sun_make(case)
    c4, c1 = Cert(f4), Cert(f1)
    trad, pq = pub_of_comp(case)
    ctx.label(case["comp"][14:], case["route"], f"loc {case['loc']}")
    ctx.nontrivial(bool(case["path"]) or case["loc"] != 3 or case["route"] == "template")
    ctx.eq(c4.spki, trad, "subject public key of form 4", "spki")
    ctx.eq((c4.serial, c4.issuer, c4.validity, c4.subject, c4.spki, c4.sig, c4.outer), (c1.serial, c1.issuer, c1.validity, c1.subject, c1.spki, c1.sig, c1.outer), "fields outside the extensions in form 1", "form1-fields")
    ctx.eq(c4.issuer, pki.name("Sun CA"), "issuer", "issuer")
    if case["serial"]:
        ctx.eq(c4.serial, D.integer(case["serial"]), "serial number", "serial")
    k4, s4, k1, s1 = sun_ext(c4, SUN_PK), sun_ext(c4, SUN_SIG), sun_ext(c1, SUN_PK), sun_ext(c1, SUN_SIG)
    ctx.check(all(x is not None and not x["crit"] for x in (k4, s4, k1, s1)), "both extensions are present once and not critical", "ext")
    ctx.eq([x["byval"] for x in (k4, s4, k1, s1)], [False, False, True, True], "byVal", "byval")
    ctx.eq(k1["content"], pq, "alternative public key by value", "alt-key")
    algs = [[e for e in x["seqs"] if sigs.oid_str(D.split(e)[0]) in sigs.HASHOID or sigs.oid_str(D.split(e)[0]) == SHAKE] for x in (k4, s4)]
    ctx.check(all(len(a) == 1 for a in algs), "a hash algorithm in both extensions", "hash-alg")
    ctx.eq(k4["content"], H(algs[0][0], pq), "hash of the alternative public key", "alt-key-hash")
    ctx.eq(s4["content"], H(algs[1][0], s1["content"]), "hash of the alternative signature", "alt-sig-hash")
    if case["route"] == "csr":
        for a, want in zip(algs, (case["pk_hash"], case["sig_hash"])):
            if want:
                ctx.eq(sigs.HASHOID[sigs.oid_str(D.split(a[0])[0])], want, "hash asked for in the request", "hash-asked")
    for x, loc in ((k4, locs[0]), (k1, locs[0]), (s4, locs[1]), (s1, locs[1])):
        ctx.eq(x.get("loc"), loc, "location", "loc")
    ctx.eq([e for e in fields(c4)[1] if e in some_exts(case["exts"])], some_exts(case["exts"]), "other extensions", "other-exts")
    ids = [D.split(e)[0] for e in fields(c4)[1]]
    ctx.eq(len(set(ids)), len(ids), "number of different extensions", "ext-twice")
    alg = [e for e in s4["seqs"] if e not in algs[1]][0]
    ctx.eq(c4.inner, c4.outer, "both algorithm fields", "algs")
    ctx.check(sigs.verify(c4.outer, pub_der(case["trad"], case["i"]), c4.tbs, c4.sig), "the traditional signature covers form 4", "trad-sig")
    ctx.check(sigs.verify(alg, pub_der(case["pq"], case["j"]), without(c4, SUN_SIG), s1["content"]), "the alternative signature covers the certificate without its extension", "alt-sig")
    put_store(case, f1, locs)
    ctx.eq(sun.get_sun_hybrid_form(pki.obj(f4)) + sun.get_sun_hybrid_form(pki.obj(f1)), "Form4Form1", "forms", "form")
    ctx.accepts("the extensions", lambda: sun.validate_cert_contains_sun_hybrid_extensions(pki.obj(f4)), key="contains")
    if case["loc"] == 3:
        forms = {4: f4, 1: f1}
        here = 4
        cur = pki.obj(f4)
        for to in case["path"]:
            before = cmpx.enc(cur)
            new = ctx.accepts(f"conversion from form {here} to {to}", lambda: sun.convert_sun_hybrid_cert_to_target_form(cur, f"Form{to}"), key=f"convert-{here}-{to}")
            der = cmpx.enc(new)
            ctx.eq(cmpx.enc(cur), before, "input of a conversion", "convert-mutates")
            if to in forms:
                ctx.check(der == forms[to], f"form {to} is the same again (from {here})", "convert-restores")
            else:
                forms[to] = der
                cc = Cert(der)
                ctx.eq([sun_ext(cc, SUN_PK), sun_ext(cc, SUN_SIG)], [k1 if to in (1, 2) else k4, s1 if to in (1, 3) else s4], f"extensions of form {to}", "convert-ext")
            ctx.eq(sun.get_sun_hybrid_form(new), f"Form{to}", "form after conversion", "form")
            cur, here = pki.obj(der), to
        final = cmpx.enc(cur)
        iss = pki.obj(issuer_cert(case))
        alt = keys.get(case["pq"], case["j"]).public_key()
        if case["ca_alt"] == "catalyst":
            iss = pki.obj(issuer_cert(case, extra=[pki.ext(ALT_SPKI, pub_der(case["pq"], case["j"]))]))
            alt = None
        ctx.accepts(f"the certificate in form {here}", lambda: pq_verify_logic.verify_sun_hybrid_cert(pki.obj(final), iss, alt), key="rejected")
        got = ctx.accepts("extracting the alternative key", lambda: pq_verify_logic.may_extract_alt_key_from_cert(pki.obj(final)), key="extract")
        from resources import convertutils
        ctx.eq(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(got)), pq, "extracted alternative key", "extract-key")
        got = ctx.accepts("validating the alternative key of form 4", lambda: sun.validate_alt_pub_key_extn(pki.obj(f4)), key="validate-key")
        ctx.eq(cmpx.enc(convertutils.subject_public_key_info_from_pubkey(got)), pq, "validated alternative key", "validate-key")


SUNF_HOW = ["flip"] * 4 + ["flip-resign"] * 4 + ["store-key", "store-sig", "store-both", "issuer", "alt-issuer", "alt-sig-other", "alt-sig-swap", "value-key", "value-sig", "critical", "hash-alg", "no-store", "store-key-tail"]
SUNF = st.tuples(SUN, st.fixed_dictionaries({"how": st.sampled_from(SUNF_HOW), "pick": st.integers(0, 500), "bit": st.integers(0, 4000), "form": st.integers(1, 4)})).map(
    lambda t: {**t[0], **t[1], "loc": 3, "path": []})


def sun_forged(case, ctx):
    f4, f1, locs = sun_make(case)
    put_store(case, f1, locs)
    how, pick, bit = case["how"], case["pick"], case["bit"]
    form = {4: f4, 1: f1}.get(case["form"]) or cmpx.enc(sun.convert_sun_hybrid_cert_to_target_form(pki.obj(f4), f"Form{case['form']}"))
    c4 = Cert(f4)
    o = sigs.oid_str(D.split(c4.outer)[0])
    h = sigs.RSA.get(o) or sigs.EC.get(o) or "sha256"
    tk = (case["trad"], case["i"], h, False)
    iss, alt = pki.obj(issuer_cert(case)), keys.get(case["pq"], case["j"]).public_key()
    sig = STORE[locs[1]]
    p, es = fields(c4)
    at = {o: next(n for n, e in enumerate(es) if D.split(e)[0] == D.oid(o)) for o in (SUN_PK, SUN_SIG)}
    bad = form

    def edit(der, oid, fn):
        """One extension of a certificate changed, nothing signed again."""
        c = Cert(der)
        pp, ee = fields(c)
        out = []
        for e in ee:
            q = D.split(e)
            out.append(fn(D.octets_value(q[-1])) if q[0] == D.oid(oid) else e)
        return D.seq(D.seq(*pp, D.ctx(3, D.seq(*out))), c.outer, D.bits(c.sig))

    def content(oid, new):
        def fn(v):
            return pki.ext(oid, D.seq(*[D.bits(new) if e[0] == 3 else e for e in D.split(v)]))
        return fn
    if how == "flip":
        bad = cmpx.flip_leaf(form, pick, bit)
    elif how == "flip-resign":                 # the traditional issuer signs something else around the alternative signature
        tbs = cmpx.flip_leaf(c4.tbs, pick, bit)
        q = D.split(tbs)
        if q[2] != D.split(c4.tbs)[2]:
            raise Skip("another algorithm")
        bad = D.seq(tbs, q[2], D.bits(pki.sign(tk[0], tk[1], tbs, tk[2], tk[3])))
    elif how in ("store-key", "store-both"):
        bad = f4
        other = pub_der(case["comp"].split(":")[1], 1 - case["k"])
        STORE[locs[0]] = other
        if how == "store-both":
            STORE[locs[1]] = keys.get("ml-dsa-44", 1 - case["j"]).sign(without(c4, SUN_SIG))
    elif how == "store-key-tail":
        bad = f4
        STORE[locs[0]] += b"\0"
    elif how == "store-sig":
        bad = f4
        b = bytearray(sig)
        b[pick * 7 % len(b)] ^= 1 << bit % 8
        STORE[locs[1]] = bytes(b)
    elif how == "no-store":
        bad = f4
        del STORE[locs[pick % 2]]
    elif how == "issuer":
        iss = pki.obj(issuer_cert(case, 1 - case["i"]))
    elif how == "alt-issuer":
        alt = keys.get(case["pq"], 1 - case["j"]).public_key()
    elif how in ("alt-sig-other", "alt-sig-swap"):   # the traditional issuer co-operates with another alternative signature
        s4 = sun_ext(c4, SUN_SIG)
        data = without(c4, SUN_SIG)
        s = keys.get("ml-dsa-44", 1 - case["j"]).sign(data) if how == "alt-sig-other" else keys.get(case["pq"], case["j"]).sign(data + b"x")
        ha = [e for e in s4["seqs"] if sigs.oid_str(D.split(e)[0]) in sigs.HASHOID or sigs.oid_str(D.split(e)[0]) == SHAKE][0]
        raw = edit(f4, SUN_SIG, content(SUN_SIG, H(ha, s)))
        c = Cert(raw)
        bad = D.seq(c.tbs, c.outer, D.bits(pki.sign(tk[0], tk[1], c.tbs, tk[2], tk[3])))
        STORE[locs[1]] = s
        ctx.check(sigs.verify(c.outer, pub_der(case["trad"], case["i"]), c.tbs, Cert(bad).sig), "harness: the traditional signature of the changed certificate is good", "harness")
    elif how == "value-key":
        bad = edit(f1, SUN_PK, content(SUN_PK, pub_der(case["comp"].split(":")[1], 1 - case["k"])))
    elif how == "value-sig":
        b = bytearray(sig)
        b[pick * 7 % len(b)] ^= 1 << bit % 8
        bad = edit(f1, SUN_SIG, content(SUN_SIG, bytes(b)))
    elif how == "critical":
        oid = (SUN_PK, SUN_SIG)[pick % 2]
        bad = edit(form, oid, lambda v: pki.ext(oid, v, True))
    else:
        oid = (SUN_PK, SUN_SIG)[pick % 2]
        bad = edit(f4, oid, lambda v: pki.ext(oid, D.seq(*[D.seq(D.oid("2.16.840.1.101.3.4.2.6"), *D.split(e)[1:]) if e[0] == 0x30 and sigs.oid_str(D.split(e)[0]) in [*sigs.HASHOID, SHAKE] else e for e in D.split(v)])))
    if bad is None or (bad == form and how in ("flip", "flip-resign")):
        raise Skip("no change")
    ctx.label(how, f"form {case['form']}")
    ctx.nontrivial(True)
    try:
        obj = pki.obj(bad)
    except PyAsn1Error:
        raise Skip("not a certificate any more")
    if not same(obj, bad):
        raise Skip("another encoding")
    ctx.rejects(f"{how}: Sun-hybrid certificate", lambda: pq_verify_logic.verify_sun_hybrid_cert(obj, iss, alt), exc=OK + (IOError,), key=f"sun-forged-{how}")


# ---- finding the issuer

FIND = st.tuples(SUN, st.fixed_dictionaries({"decoys": st.lists(st.tuples(st.sampled_from(["same", "type", "name", "kem", "pq", "damaged"]), st.integers(0, 7)).map(list), max_size=4), "order": st.lists(st.integers(0, 20), max_size=8),
                                             "drop": st.integers(0, 3).map(lambda x: x == 0), "form": st.integers(1, 4), "depth": st.integers(1, 4)})).map(lambda t: {**t[0], **t[1], "loc": 3, "path": []})


def decoy(d, case, good, j):
    kind, x = d
    cn = pki.name("Sun CA")
    if kind == "same":
        return pki.make(cn, (case["trad"], 1 - case["i"]), serial=100 + j, exts=[pki.bc()])
    if kind == "type":
        t = TRAD[(TRAD.index(case["trad"]) + 1 + x % 7) % 8]
        return pki.make(cn, (t, 0), serial=100 + j, exts=[pki.bc()])
    if kind == "name":
        return pki.make(pki.name("Other"), (case["trad"], case["i"]), serial=100 + j, exts=[pki.bc()])
    if kind == "kem":
        return pki.make(cn, ("ml-kem-768", 0), issuer=cn, by=("ed25519", 0), serial=100 + j)
    if kind == "pq":
        return pki.make(cn, ("ml-dsa-44", x % 2), serial=100 + j, exts=[pki.bc()])
    return pki.make(pki.name("Damaged"), ("ed25519", 0), serial=100 + j, spoil=x)


def shuffle(lst, order):
    lst = list(lst)
    out = []
    for o in order:
        if lst:
            out.append(lst.pop(o % len(lst)))
    return out + lst


def find(case, ctx):
    f4, f1, locs = sun_make(case)
    put_store(case, f1, locs)
    form = {4: f4, 1: f1}.get(case["form"]) or cmpx.enc(sun.convert_sun_hybrid_cert_to_target_form(pki.obj(f4), f"Form{case['form']}"))
    good = issuer_cert(case)
    others = [decoy(d, case, good, j) for j, d in enumerate(case["decoys"])]
    lst = shuffle(([] if case["drop"] else [good]) + others, case["order"])
    ctx.label("drop" if case["drop"] else "present", f"decoys {len(others)}")
    ctx.nontrivial(bool(others))
    objs = [pki.obj(x) for x in lst]
    if case["drop"]:
        ctx.rejects("issuer search without the issuer", lambda: pq_verify_logic.find_sun_hybrid_issuer_cert(pki.obj(form), objs), exc=(ValueError, CMPTestSuiteError), key="found-none")
    else:
        got = ctx.accepts("issuer search", lambda: pq_verify_logic.find_sun_hybrid_issuer_cert(pki.obj(form), objs), key="find")
        ctx.check(cmpx.enc(got) == good, "the issuer is found", "find-wrong")
    # the certificate in a form that carries its values among others
    mate = {**case, "name": "CN=Mate"}
    store = dict(STORE)
    m4, m1, _ = sun_make(mate)
    put_store(mate, m1, locs)
    STORE.update({k: v for k, v in store.items()})
    near = shuffle(([] if case["drop"] else [f1]) + others + [m1], case["order"])
    fn = lambda: sun.contains_sun_hybrid_cert_form_1_or_3(pki.obj(f4), [pki.obj(x) for x in near])  # noqa: E731
    if case["drop"]:
        ctx.rejects("form 1 of another certificate", fn, exc=(ValueError, CMPTestSuiteError), key="contains-other")
    else:
        got = ctx.accepts("form 1 among others", fn, key="contains-find")
        ctx.check(cmpx.enc(got) == f1, "form 1 is found", "contains-wrong")


MIG = st.fixed_dictionaries({"keys": st.lists(st.tuples(st.sampled_from(TRAD + ["ml-dsa-44", "ml-dsa-65"]), st.integers(0, 1)).map(list), min_size=2, max_size=5, unique_by=lambda t: tuple(t)),
                             "decoys": st.lists(st.tuples(st.sampled_from(["same", "kem", "other"]), st.integers(0, 7)).map(list), max_size=4), "order": st.lists(st.integers(0, 20), max_size=9),
                             "drop": st.one_of(st.none(), st.none(), st.integers(0, 4)), "selfs": st.booleans()})


def migration(case, ctx):
    ks = [tuple(k) for k in case["keys"]]
    n = len(ks)
    certs = [pki.make(pki.name(f"N{j}"), ks[j], issuer=pki.name(f"N{min(j + 1, n - 1)}"), by=ks[min(j + 1, n - 1)], serial=j + 1, exts=[pki.bc(j > 0)]) for j in range(n)]
    path = certs[1:]
    drop = case["drop"]
    want = certs
    if drop is not None and 1 + drop < n:
        want = certs[:1 + drop]
        path = [x for x in path if x is not certs[1 + drop]]
    extra = []
    for j, (kind, x) in enumerate(case["decoys"]):
        nm = pki.name(f"N{x % n}")
        if kind == "same":
            extra.append(pki.make(nm, ("ec:secp256k1", x % 2), serial=50 + j))
        elif kind == "kem":
            extra.append(pki.make(nm, ("ml-kem-768", 0), issuer=nm, by=("ec:secp256k1", 0), serial=50 + j))
        else:
            extra.append(pki.make(pki.name("Else"), ("ec:secp256k1", 0), serial=50 + j))
    lst = shuffle(path + extra, case["order"])
    if not lst:
        raise Skip("no certificates")
    ctx.label(f"depth {n}", f"want {len(want)}")
    ctx.nontrivial(n > 2 or bool(extra))
    ee = pki.obj(certs[0])
    fn = lambda: pq_verify_logic.build_migration_cert_chain(ee, [pki.obj(x) for x in lst], allow_self_signed=case["selfs"])  # noqa: E731
    if len(want) == 1 and not case["selfs"]:
        ctx.rejects("no issuer", fn, exc=(ValueError,), key="mig-none")
        return
    got = ctx.accepts("chain building", fn, key="mig")
    ctx.eq([certs.index(cmpx.enc(x)) if cmpx.enc(x) in certs else -1 for x in got], list(range(len(want))), "chain (positions in the true path)", "mig-chain")


# ---- CRLs

CRL = st.tuples(common(), st.fixed_dictionaries({"with_alt": st.integers(0, 4).map(lambda x: x > 0), "carry": st.booleans(), "cexts": st.lists(st.integers(0, 1), max_size=2, unique=True), "n": st.integers(0, 3),
                                                 "how": st.sampled_from(["good", "good", "good", "bad_sig", "bad_alt", "flip", "flip-resign", "alt-other", "drop-alt", "issuer", "alt-key"]), "must": st.booleans(),
                                                 "pick": st.integers(0, 200), "bit": st.integers(0, 3000)})).map(lambda t: {**t[0], **t[1]})


def crl(case, ctx):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc5280
    pss = case["pss"] and case["trad"].startswith("rsa")
    h = pss_hash(case)
    a = pki.alg(case["trad"], h, pss)
    es = [[pki.ext("2.5.29.20", D.integer(77)), pki.aki(case["trad"], case["i"])][x] for x in case["cexts"]]
    revoked = [D.seq(D.integer(1000 + j), pki.stamp(pki.NOW - pki.DAY)) for j in range(case["n"])]
    tbs = D.seq(D.integer(1), a, pki.name("Sun CA"), pki.stamp(pki.NOW - pki.DAY), pki.stamp(pki.NOW + pki.DAY), *([D.seq(*revoked)] if revoked else []), *([D.ctx(0, D.seq(*es))] if es else []))
    blank, _ = decoder.decode(D.seq(tbs, a, D.bits(b"")), asn1Spec=rfc5280.CertificateList())
    how = case["how"]
    if not case["with_alt"] and how in ("bad_alt", "alt-other", "drop-alt", "alt-key"):
        raise Skip("no alternative signature")
    signed = cat.sign_crl_catalyst(blank, keys.get(case["trad"], case["i"]), keys.get(case["pq"], case["j"]) if case["with_alt"] else None, include_alt_public_key=case["carry"], hash_alg=h,
                                   alt_hash_alg=case["ah"], use_rsa_pss=pss, critical=case["crit"], bad_sig=how == "bad_sig", bad_alt_sig=how == "bad_alt")
    der = cmpx.enc(signed)
    t, alg, s = D.split(der)
    sig = sigs.bits(s)
    parts = D.split(t)
    exts = D.split(D.split(parts[-1])[0]) if parts[-1][0] == 0xA0 else []
    head = parts[:-1] if exts else parts
    at = {D.split(e)[0]: D.octets_value(D.split(e)[-1]) for e in exts}
    ctx.label(how, "alternative" if case["with_alt"] else "plain")
    ctx.nontrivial(how != "good" or case["n"] > 0 or bool(es))
    ctx.eq(sigs.verify(alg, pub_der(case["trad"], case["i"]), t, sig), how != "bad_sig", "independent verdict on the signature of the CRL", "crl-sig")
    ctx.eq(exts[:len(es)], es, "extensions of the CRL", "crl-exts")
    issuer = pki.obj(issuer_cert(case))
    alt = keys.get(case["pq"], case["j"]).public_key()
    if case["with_alt"]:
        pre = D.seq(*head, D.ctx(0, D.seq(*[e for e in exts if D.split(e)[0] != D.oid(ALT_VAL)]))) + alg
        ctx.eq(sigs.verify(at[D.oid(ALT_ALG)], pub_der(case["pq"], case["j"]), pre, sigs.bits(at[D.oid(ALT_VAL)])), how != "bad_alt", "independent verdict on the alternative signature of the CRL", "crl-alt")
        ctx.eq(at.get(D.oid(ALT_SPKI)), pub_der(case["pq"], case["j"]) if case["carry"] else None, "alternative public key in the CRL", "crl-spki")
        if case["carry"] and case["bit"] % 2:
            alt = None
    good = how == "good"
    bad = der

    def resign(t2):
        return D.seq(t2, alg, D.bits(pki.sign(case["trad"], case["i"], t2, h, pss)))
    if how == "flip":
        bad = cmpx.flip_leaf(der, case["pick"], case["bit"])
    elif how == "flip-resign":
        t2 = cmpx.flip_leaf(t, case["pick"], case["bit"])
        if D.split(t2)[1] != a:
            raise Skip("the algorithm")
        bad = resign(t2)
        good = not case["with_alt"]
    elif how == "alt-other":
        new = [e if D.split(e)[0] != D.oid(ALT_VAL) else pki.ext(ALT_VAL, D.bits(keys.get("ml-dsa-44" if case["pq"] != "ml-dsa-44" else "ml-dsa-65", case["j"]).sign(pre)), case["crit"]) for e in exts]
        bad = resign(D.seq(*head, D.ctx(0, D.seq(*new))))
    elif how == "drop-alt":
        gone = [(ALT_ALG,), (ALT_VAL,)][case["pick"] % 2]
        new = [e for e in exts if D.split(e)[0] not in [D.oid(o) for o in gone]]
        bad = resign(D.seq(*head, *([D.ctx(0, D.seq(*new))] if new else [])))
    elif how == "issuer":
        issuer = pki.obj(issuer_cert(case, 1 - case["i"]))
    elif how == "alt-key":
        alt = keys.get(case["pq"], 1 - case["j"]).public_key()
    must = case["must"]
    if not case["with_alt"] and must:
        good = False
    try:
        obj, _ = decoder.decode(bad, asn1Spec=rfc5280.CertificateList())
    except PyAsn1Error:
        raise Skip("not a CRL any more")
    if not same(obj, bad):
        raise Skip("another encoding")
    if how == "flip-resign" and not case["with_alt"] and bad is not None:
        raise Skip("a CRL of the issuer")
    fn = lambda: pq_verify_logic.verify_crl_signature(obj, issuer, alt, must_be_catalyst_signed=must)  # noqa: E731
    if good:
        ctx.accepts("the CRL", fn, key="crl-rejected")
    else:
        ctx.rejects(f"{how}: the CRL", fn, exc=OK, key=f"crl-{how}")
    ctx.eq(cmpx.enc(obj), bad, "CRL after its verification", "crl-mutated")


SUBS = [
    Sub("catalyst", CAT, catalyst, quick=110, thorough=6000, shards=8, text="catalyst certificates against independent verification of both signatures"),
    Sub("catalyst-forged", CATF, catalyst_forged, quick=130, thorough=12000, shards=8, text="changed catalyst certificates, mostly re-signed by the traditional key"),
    Sub("sun", SUN, sun_good, quick=110, thorough=6000, shards=8, text="Sun-hybrid certificates from requests and templates, converted along generated paths of forms"),
    Sub("sun-forged", SUNF, sun_forged, quick=90, thorough=8000, shards=8, text="changed Sun-hybrid certificates and changed contents of their locations"),
    Sub("find", FIND, find, quick=60, thorough=4000, shards=8, text="issuers and value-carrying forms among look-alikes"),
    Sub("migration", MIG, migration, quick=70, thorough=4000, shards=8, text="chains of mixed signature algorithms in any order, among look-alikes"),
    Sub("crl", CRL, crl, quick=80, thorough=6000, shards=8, text="CRLs with and without an alternative signature"),
]
