"""C05: hybrid message protection needs both the traditional and the PQ signature."""
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from cryptography.hazmat.primitives import serialization
from hypothesis import strategies as st

from checks.c03 import EC_KEYS, SHA2, expected_alg, independent
from lib import comp, keys
from lib import der as D
from lib.certs import cert_for
from lib.cmpx import ALTER, Wire, altered_message, base_message, enc, parse
from lib.harness import Sub
from pq_logic import pq_verify_logic as PV
from pq_logic.hybrid_sig import catalyst_logic
from resources import cmputils, keyutils
from resources import protectionutils as PU
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C05"
TECHNIQUE = "generated messages, key pairs and key transports against independent verification of both signatures over the wire bytes; forgery search in which an attacker controls one of the two keys"
RULE = ("Messages of all body types, protected catalyst-style or composite; then one signature is replaced, removed, re-made by another key or over another message while the other one is genuine and re-made. "
        "Non-trivial: both signatures were verified independently, or the forged message differs from the genuine one.")
ASSUMPTIONS = ["as C03 and C14", "a catalyst message whose alternative signature and its algorithm are both removed is an ordinary signed message unless must_be_catalyst_signed is set",
               "a key carried in the message belongs to the message (the verifier does not pin the alternative key then)"]
OK = (InvalidSignature, UnsupportedAlgorithm, ValueError, TypeError, CMPTestSuiteError)
ALT_ALG, ALT_VAL, ALT_KEY = "2.5.29.73", "2.5.29.74", "2.5.29.72"
TRAD = ["rsa2048", "rsa3072", "ed25519", "ed448"] + EC_KEYS
PQ = ["ml-dsa-44", "ml-dsa-44", "ml-dsa-65", "slh-dsa-sha2-128f"]


def ext_cert(trad, i, alt, j):
    """A certificate for the traditional key which carries the alternative public key."""
    ext = catalyst_logic.prepare_subject_alt_public_key_info_extn(keys.get(alt, j).public_key(), critical=False)
    from resources import certbuildutils
    cert, _ = certbuildutils.build_certificate(private_key=keys.get(trad, i), common_name="CN=catalyst", include_ski=True, extensions=[ext], hash_alg="sha256")
    return cert


@st.composite
def pair(draw):
    trad, alt = draw(st.sampled_from(TRAD)), draw(st.sampled_from(PQ))
    h = draw(st.sampled_from(SHA2[1:]))
    if draw(st.integers(0, 9)) == 0:
        trad, alt = alt, trad
    pss = draw(st.booleans())
    if pss:
        h = "sha256"      # the only hash which the suite offers for an RSASSA-PSS identifier here
    return {"trad": trad, "i": draw(st.integers(0, 1)), "alt": alt, "j": draw(st.integers(0, 1)), "hash": h, "pss": pss}


def side(name, i, case):
    """The description of one signer as C03 uses it: which algorithm the given hash selects for that key."""
    h = case["hash"]
    s = {"key": name, "i": i, "prot": "signature", "hash": h}
    if name.startswith("rsa") and case["pss"]:
        s["prot"] = "rsassa-pss"
    if name.startswith("ed"):
        s["hash"] = None
    if name.startswith("ml-dsa"):
        s["hash"] = h if h == "sha512" else None
    if name.startswith("slh"):
        s["hash"] = h if h == "sha256" else None
    return s



def pub_der(name, i):
    k = keys.get(name, i).public_key()
    if hasattr(k, "to_spki"):
        return enc(k.to_spki())
    return k.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)


def infos(w):
    """generalInfo entries of a message: list of (oid, whole DER, value DER)."""
    v = w.fields().get("generalInfo")
    if v is None:
        return []
    out = []
    for x in D.split(v):
        a = D.split(x)
        out.append((a[0], x, a[1] if len(a) > 1 else b""))
    return out


def set_infos(w, lst):
    return w.set_header("generalInfo", D.seq(*lst) if lst else None)


def protect(case, **over):
    p = dict(case["p"], **over)
    msg = parse(case["base"])
    cert = p.get("cert") or cert_for(p["trad"], p["i"])
    msg["extraCerts"] = cmputils.prepare_extra_certs([cert] + (p.get("more") or []))
    return PU.protect_hybrid_pkimessage(msg, keys.get(p["trad"], p["i"]), "catalyst", alt_signing_key=keys.get(p["alt"], p["j"]), include_alt_pub_key=p.get("carry", True), cert=cert,
                                        exclude_certs=True, hash_alg=p["hash"], use_rsa_pss=p["pss"])


def two(w, case):
    """Independent verdict on both signatures of a wire message, and the algorithm the message names for each."""
    p = case["p"]
    lst = infos(w)
    val = [x for x in lst if x[0] == D.oid(ALT_VAL)]
    alg = [x for x in lst if x[0] == D.oid(ALT_ALG)]
    rest = [x[1] for x in lst if x[0] != D.oid(ALT_VAL)]
    hdr = set_infos(w, rest)
    data = D.seq(hdr, w.body)
    sig = D.split(D.seq(val[0][2]))[0] if val else None
    body = D.read(val[0][2])
    altsig = val[0][2][body[1]:][1:] if val else b""
    return (independent(side(p["trad"], p["i"], p), w.protected, w.prot), independent(side(p["alt"], p["j"], p), data, altsig), w.fields()["protectionAlg"], alg[0][2] if alg else None, sig)


catalyst_case = st.fixed_dictionaries({"base": base_message(), "p": pair(), "carry": st.sampled_from(["message", "message", "cert", "cert-both"]), "key": st.booleans()})


def catalyst(case, ctx):
    p = dict(case["p"])
    cert = None
    pqalt = not (p["alt"] in TRAD)
    if case["carry"] != "message" and pqalt:
        cert = ext_cert(p["trad"], p["i"], p["alt"], p["j"])
    carry = case["carry"] != "cert" or not pqalt
    ctx.label(f"{p['trad']} + {p['alt']}", "key in " + case["carry"], f"pss={p['pss']} {p['hash']}")
    msg = ctx.accepts("protecting", protect, case, cert=cert, carry=carry)
    data = enc(msg)
    w, b = Wire(data), Wire(case["base"])
    ctx.eq(w.body, b.body, "body after protecting")
    added = infos(w)
    kept = [x[1] for x in added if x[0] not in (D.oid(ALT_ALG), D.oid(ALT_VAL), D.oid(ALT_KEY))]
    ctx.eq(kept, [x[1] for x in infos(b)], "other entries of generalInfo")
    t, a, talg, aalg, _ = two(w, case)
    ctx.eq(talg, expected_alg(side(p["trad"], p["i"], p)), "protectionAlg")
    ctx.eq(aalg, expected_alg(side(p["alt"], p["j"], p)), "alternative signature algorithm")
    ctx.check(a, "the alternative signature does not verify over the header without it and the body")
    ctx.check(t, "the protection does not verify over header and body")
    ctx.eq([x[2] for x in added if x[0] == D.oid(ALT_KEY)], [pub_der(p["alt"], p["j"])] if carry else [], "alternative public key in the message")
    ctx.nontrivial()
    m = parse(data)
    kw = {"public_key": keys.get(p["trad"], p["i"]).public_key()} if case["key"] else {}
    ctx.accepts("verifying", PV.verify_hybrid_pkimessage_protection, m, must_be_catalyst_signed=True, **kw)
    ctx.eq(enc(m), data, "the message after its verification")
    ctx.accepts("verifying again", PV.verify_hybrid_pkimessage_protection, m, **kw)
    if case["key"] and carry:
        bare = parse(w.build(certs=b""))
        ctx.accepts("verifying without certificates but with the public key", PV.verify_hybrid_pkimessage_protection, bare, must_be_catalyst_signed=True, **kw)


FORGE = ["alter"] * 4 + ["trad-flip", "alt-flip", "alt-flip", "trad-other", "alt-other", "alt-other-carried", "alt-other-msg", "alt-resign-only", "trad-resign-only", "alt-drop", "alt-drop-both", "alg-drop", "alt-empty", "key-other", "swap",
         "external-other", "public-key-other", "bad_message_check", "trad-copy", "cert-other"]
bad_case = st.fixed_dictionaries({"base": base_message(), "base2": base_message(), "p": pair(), "how": st.sampled_from(FORGE), "a": ALTER, "pick": st.integers(0, 10**6), "kw": st.booleans()})


def sign(p, which, data):
    name, i = (p["trad"], p["i"]) if which == "trad" else (p["alt"], p["j"])
    from lib.cmpx import parse as _p  # noqa: F401
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    alg = decoder.decode(expected_alg(side(name, i, p)), asn1Spec=rfc9480.AlgorithmIdentifier())[0]
    return PU.sign_data_with_alg_id(key=keys.get(name, i), alg_id=alg, data=data)


def alt_value(sig):
    return D.seq(D.oid(ALT_VAL), D.bits(sig))


def remake(w, lst, p, body=None):
    """The message with the given generalInfo, signed again by the genuine traditional key."""
    hdr = set_infos(w, lst)
    body = w.body if body is None else body
    return parse(w.build(header=hdr, body=body, prot=sign(p, "trad", D.seq(hdr, body))))


def forged(case, ctx):
    p, how, n = case["p"], case["how"], case["pick"]
    over = {}
    if how == "external-other":
        if p["alt"] in TRAD:
            return
        over = {"carry": False, "cert": ext_cert(p["trad"], p["i"], p["alt"], 1 - p["j"])}
    data = enc(protect(case, **over))
    w = Wire(data)
    lst = infos(w)
    plain = [x[1] for x in lst if x[0] != D.oid(ALT_VAL)]
    val = next(x for x in lst if x[0] == D.oid(ALT_VAL))
    ctx.label(how, f"{p['trad'].split(':')[0]} + {p['alt']}")
    kw = {"must_be_catalyst_signed": True} if case["kw"] else {}
    if how == "alter":
        msg, note = altered_message(data, case["a"])
        ctx.label(note)
        if msg is None:
            return
    elif how == "trad-flip":
        sig = bytearray(w.prot)
        sig[n % len(sig)] ^= 1 << (n % 8)
        msg = parse(w.build(prot=bytes(sig)))
    elif how in ("alt-flip", "alt-empty"):
        sig = bytearray(D.split(D.seq(val[2]))[0][D.read(val[2])[1] + 1:])
        if how == "alt-empty":
            sig = bytearray()
        else:
            sig[n % len(sig)] ^= 1 << (n % 8)
        msg = remake(w, plain + [alt_value(bytes(sig))], p)
    elif how == "trad-other":
        msg = remake(w, [x[1] for x in lst], dict(p, i=1 - p["i"]))
    elif how in ("alt-other", "alt-other-carried"):
        sig = sign(dict(p, j=1 - p["j"]), "alt", D.seq(set_infos(w, plain), w.body))
        msg = remake(w, plain + [alt_value(sig)], p)
    elif how == "key-other":
        new = [x if D.split(x)[0] != D.oid(ALT_KEY) else D.seq(D.oid(ALT_KEY), pub_der(p["alt"], 1 - p["j"])) for x in plain]
        msg = remake(w, new + [val[1]], p)
    elif how == "alt-other-msg":
        b2 = Wire(case["base2"]).body
        if b2 == w.body:
            return
        sig = sign(p, "alt", D.seq(set_infos(w, plain), b2))
        msg = remake(w, plain + [alt_value(sig)], p)
    elif how == "trad-resign-only":      # the traditional key is broken: message changed, old alternative signature
        b2 = Wire(case["base2"]).body
        if b2 == w.body:
            return
        msg = remake(w, [x[1] for x in lst], p, b2)
    elif how == "alt-resign-only":       # the alternative key is broken: message changed, old traditional signature
        b2 = Wire(case["base2"]).body
        if b2 == w.body:
            return
        sig = sign(p, "alt", D.seq(set_infos(w, plain), b2))
        msg = parse(w.build(header=set_infos(w, plain + [alt_value(sig)]), body=b2))
    elif how == "alt-drop":
        msg = remake(w, plain, p)
    elif how == "alt-drop-both":
        msg = remake(w, [x for x in plain if D.split(x)[0] not in (D.oid(ALT_ALG),)], p)
        kw = {"must_be_catalyst_signed": True}
    elif how == "alg-drop":
        msg = remake(w, [x for x in plain if D.split(x)[0] != D.oid(ALT_ALG)] + [val[1]], p)
    elif how == "swap":
        sig = sign(p, "alt", w.protected)
        msg = remake(w, plain + [alt_value(sig)], p)
    elif how == "external-other":
        msg = parse(data)
    elif how == "public-key-other":
        msg = parse(data)
        kw["public_key"] = keys.get(p["trad"], 1 - p["i"]).public_key()
    elif how == "cert-other":
        msg = parse(data)
        msg["extraCerts"] = cmputils.prepare_extra_certs([cert_for(p["trad"], 1 - p["i"]), cert_for(p["trad"], p["i"])])
    elif how == "trad-copy":
        msg = parse(w.build(prot=sign(p, "trad", D.seq(set_infos(w, plain), w.body))))
    else:
        base = parse(case["base"])
        cert = cert_for(p["trad"], p["i"])
        base["extraCerts"] = cmputils.prepare_extra_certs([cert])
        msg = parse(enc(PU.protect_hybrid_pkimessage(base, keys.get(p["trad"], p["i"]), "catalyst", alt_signing_key=keys.get(p["alt"], p["j"]), include_alt_pub_key=True, cert=cert,
                                                     exclude_certs=True, hash_alg=p["hash"], use_rsa_pss=p["pss"], bad_message_check=True)))
    ctx.nontrivial()
    before = enc(msg)
    ctx.rejects(f"catalyst message ({how})", PV.verify_hybrid_pkimessage_protection, msg, **kw, exc=Exception if how == "alter" else OK, key="forged-" + how)
    ctx.eq(enc(msg), before, "the message after its verification")


comp_case = st.fixed_dictionaries({"base": base_message(), "alg": st.sampled_from([a.name for a in comp.ALGS]), "alg2": st.sampled_from([a.name for a in comp.ALGS]), "i": st.integers(0, 1), "sep": st.booleans(),
                                   "via": st.sampled_from(["cert", "key", "two-cert", "two-ext"]), "how": st.sampled_from(["none", "none", "alter", "flip", "cut", "other", "pq-other", "trad-other", "pq-only", "oid", "bad", "mixed"]),
                                   "a": ALTER, "pick": st.integers(0, 10**6)})


def composite(case, ctx):
    a, i, n, how = comp.BY_NAME[case["alg"]], case["i"], case["pick"], case["how"]
    via = case["via"]
    key = keys.get(a.key, i)
    pq, trad = keys.get(a.pq, i), keys.get(a.trad, i)
    ctx.label(a.name, how, "key from " + via)
    msg = parse(case["base"])
    if via in ("cert", "key"):
        cert = cert_for(a.key, i, use_rsa_pss=a.pss)
    else:
        cert = ext_cert(a.trad, i, a.pq, i)
    if via != "key":
        msg["extraCerts"] = cmputils.prepare_extra_certs([cert])
    args = ((pq, trad) if n % 2 else (trad, pq)) if case["sep"] else (key, None)
    msg = ctx.accepts("protecting", PU.protect_hybrid_pkimessage, msg, args[0], "composite", alt_signing_key=args[1], cert=cert, exclude_certs=True, use_rsa_pss=a.pss, bad_message_check=how == "bad")
    data = enc(msg)
    w = Wire(data)
    ctx.eq(w.fields()["protectionAlg"], D.seq(D.oid(a.oid)), "protectionAlg")
    verdict = a.verify(i, w.protected, w.prot)
    kw = {"public_key": key.public_key()} if via == "key" else {}
    ctx.nontrivial()
    if how == "none":
        ctx.eq(verdict, (True, True), "both parts of the composite protection")
        m = parse(data)
        ctx.accepts("verifying", PV.verify_hybrid_pkimessage_protection, m, **kw)
        ctx.eq(enc(m), data, "the message after its verification")
        return
    sig = bytearray(w.prot)
    m = None
    if how == "alter":
        m, note = altered_message(data, case["a"])
        ctx.label(note)
        if m is None:
            return
    elif how == "flip":
        sig[n % len(sig)] ^= 1 << (n % 8)
    elif how == "cut":
        sig = sig[:-(1 + n % (len(sig) - 1))]
    elif how == "pq-only":
        sig = sig[:a.siglen]
    elif how == "pq-other":
        sig = keys.get(a.pq, 1 - i).sign(a.mprime(w.protected), ctx=a.label) + bytes(sig[a.siglen:])
    elif how == "trad-other":
        sig = bytes(sig[:a.siglen]) + a.trad_sign(keys.get(a.trad, 1 - i), a.mprime(w.protected))
    elif how == "mixed":
        sig = bytes(sig[:a.siglen]) + a.trad_sign(trad, w.protected)
    elif how == "other":
        m = parse(data)
        if via == "key":
            kw = {"public_key": keys.get(a.key, 1 - i).public_key()}
        else:
            m["extraCerts"] = cmputils.prepare_extra_certs([cert_for(a.key, 1 - i, use_rsa_pss=a.pss) if via == "cert" else ext_cert(a.trad, i, a.pq, 1 - i) if via == "two-cert" else ext_cert(a.trad, 1 - i, a.pq, i)])
    elif how == "oid":
        b = comp.BY_NAME[case["alg2"]]
        if b.name == a.name:
            return
        m = parse(w.build(header=w.set_header("protectionAlg", D.seq(D.oid(b.oid)))))
    elif how == "bad":
        ctx.check(not all(verdict), "bad_message_check yields a valid signature")
        m = parse(data)
    if m is None:
        m = parse(w.build(prot=bytes(sig)))
    ctx.rejects(f"composite message ({how})", PV.verify_hybrid_pkimessage_protection, m, **kw, exc=Exception if how in ("alter", "oid") else OK, key="composite-" + how)


SUBS = [
    Sub("catalyst", catalyst_case, catalyst, quick=75, thorough=4000, shards=3, text="catalyst-protected messages verify, independently and by the suite"),
    Sub("forged", bad_case, forged, quick=115, thorough=8000, shards=3, text="catalyst messages with one bad signature are refused"),
    Sub("composite", comp_case, composite, quick=70, thorough=4000, shards=2, text="composite-protected messages, genuine and forged"),
]
