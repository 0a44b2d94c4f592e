"""C03: signature protection authenticates the message for every key type."""
import hashlib

from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import padding
from hypothesis import strategies as st

from checks.c02 import HASH_OID
from lib import cmpx, fips, keys
from lib import der as D
from lib import ec as E
from lib.certs import cert_for
from lib.cmpx import ALTER, Wire, altered_message, base_message, enc, parse
from lib.harness import Sub
from resources import checkutils, cmputils
from resources import protectionutils as PU
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C03"
TECHNIQUE = "generated messages and keys against independent signature verification and an independent algorithm table; alteration and forgery search"
RULE = ("Headers and bodies of every body type from the RFC grammar, signed with every key type, hash and PSS setting; then altered at one place or presented with other keys. "
        "Non-trivial: the signature was verified independently over the wire bytes, or the forgery decodes to a message different from the signed one.")
ASSUMPTIONS = ["RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA and SLH-DSA are re-implemented in lib/fips.py",
               "ECDSA and RSA keys of the fixtures are honest keys of the usual sizes"]

SHA2 = ["sha224", "sha256", "sha384", "sha512"]
SHA3 = ["sha3_224", "sha3_256", "sha3_384", "sha3_512"]
P1, P3 = "1.2.840.113549.1.1.", "2.16.840.1.101.3.4.3."
RSA_OID = dict(zip(["sha1", "sha224", "sha256", "sha384", "sha512"], [P1 + x for x in ("5", "14", "11", "12", "13")]))
RSA_OID.update(zip(SHA3, [P3 + str(13 + i) for i in range(4)]))
EC_OID = {h: f"1.2.840.10045.4.3.{i + 1}" for i, h in enumerate(SHA2)}
EC_OID.update(zip(SHA3, [P3 + str(9 + i) for i in range(4)]))
EC_OID.update({"shake128": "1.3.6.1.5.5.7.6.32", "shake256": "1.3.6.1.5.5.7.6.33"})
PSS_SHAKE = {"shake128": "1.3.6.1.5.5.7.6.30", "shake256": "1.3.6.1.5.5.7.6.31"}
ML = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
SLH_ORDER = [f"slh-dsa-{h}-{n}{s}" for h in ("sha2", "shake") for n in (128, 192, 256) for s in "sf"]
EC_KEYS = ["ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:brainpoolP256r1", "ec:secp224r1"]
OK = (InvalidSignature, UnsupportedAlgorithm, ValueError, TypeError, CMPTestSuiteError)


def slh_ph(n):
    size = int(n.split("-")[3][:3])
    return ("shake128" if size == 128 else "shake256") if "shake" in n else ("sha256" if size == 128 else "sha512")


@st.composite
def signer(draw, pq=True):
    t = draw(st.sampled_from(["rsa", "rsa", "pss", "pss", "ec", "ec", "ed", "ed"] + (["ml", "slh"] if pq else [])))
    out = {"i": draw(st.integers(0, 1)), "prot": "signature", "hash": None}
    if t in ("rsa", "pss"):
        out["key"] = draw(st.sampled_from(["rsa2048", "rsa3072"]))
        if t == "pss":
            out["prot"] = "rsassa-pss"
            out["hash"] = draw(st.sampled_from(SHA2 + ["shake128", "shake256"]))
        else:
            out["hash"] = draw(st.sampled_from(["sha1"] + SHA2 + SHA3))
    elif t == "ec":
        out["key"] = draw(st.sampled_from(EC_KEYS))
        out["hash"] = draw(st.sampled_from(SHA2 + SHA3 + ["shake128", "shake256"]))
    elif t == "ed":
        out["key"] = draw(st.sampled_from(["ed25519", "ed448"]))
    elif t == "ml":
        out["key"] = draw(st.sampled_from(ML))
        out["hash"] = draw(st.sampled_from([None, "sha512"]))
    elif t == "slh":
        out["key"] = draw(st.sampled_from(["slh-dsa-sha2-128f", "slh-dsa-shake-128f", "slh-dsa-shake-192f"]))
        # without a hash the suite takes SHA-256, which selects the pre-hash mode for this one set
        out["hash"] = draw(st.sampled_from([None, slh_ph(out["key"])])) if out["key"] != "slh-dsa-sha2-128f" else "sha256"
    return out


def expected_alg(s):
    """AlgorithmIdentifier DER which the standards prescribe for the signer."""
    k, h = s["key"], s["hash"]
    if s["prot"] == "rsassa-pss":
        if h in PSS_SHAKE:
            return D.seq(D.oid(PSS_SHAKE[h]))
        hh = D.seq(D.oid(HASH_OID[h]), D.null())
        return D.seq(D.oid("1.2.840.113549.1.1.10"), D.seq(D.ctx(0, hh), D.ctx(1, D.seq(D.oid("1.2.840.113549.1.1.8"), hh)), D.ctx(2, D.integer(hashlib.new(h).digest_size))))
    if k.startswith("rsa"):
        return D.seq(D.oid(RSA_OID[h]), D.null())
    if k.startswith("ec:"):
        return D.seq(D.oid(EC_OID[h]))
    if k.startswith("ed"):
        return D.seq(D.oid({"ed25519": "1.3.101.112", "ed448": "1.3.101.113"}[k]))
    if k in ML:
        return D.seq(D.oid(P3 + str(ML.index(k) + (17 if h is None else 32))))
    return D.seq(D.oid(P3 + str(SLH_ORDER.index(k) + (20 if h is None else 35))))


HASHES = {"sha1": hashes.SHA1(), "sha224": hashes.SHA224(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512(), "sha3_224": hashes.SHA3_224(),
          "sha3_256": hashes.SHA3_256(), "sha3_384": hashes.SHA3_384(), "sha3_512": hashes.SHA3_512(), "shake128": hashes.SHAKE128(32), "shake256": hashes.SHAKE256(64)}


def independent(s, data, sig):
    """Verify with an implementation that is not the suite's."""
    pub = keys.get(s["key"], s["i"]).public_key()
    k, h = s["key"], s["hash"]
    try:
        if k.startswith("rsa"):
            if s["prot"] == "signature":
                pub.verify(sig, data, padding.PKCS1v15(), HASHES[h])
                return True
            n = pub.public_numbers()
            if h in PSS_SHAKE:
                size = {"shake128": 32, "shake256": 64}[h]
                hf, mgf = E.shake(h, size)
                return E.pss_verify(n.n, n.e, sig, data, hf, mgf, size, size)
            size = hashlib.new(h).digest_size
            return E.pss_verify(n.n, n.e, sig, data, lambda x: hashlib.new(h, x).digest(), E.mgf1(h), size, size)
        if k.startswith("ec:"):
            pub.verify(sig, data, cec.ECDSA(HASHES[h]))
            return True
        if k.startswith("ed"):
            pub.verify(sig, data)
            return True
    except InvalidSignature:
        return False
    if k in ML:
        return fips.dsa_verify(k, pub.public_bytes_raw(), data, sig, b"", h)
    return fips.Slh(k).verify(pub.public_bytes_raw(), data, sig, b"", h)


def protect(case):
    s = case["s"]
    kw = {"hash_alg": s["hash"]} if s["hash"] else {}
    args = dict(private_key=keys.get(s["key"], s["i"]), **kw)
    if case["cert"] != "none":
        args["cert"] = cert_for(s["key"], s["i"], case["cert"] == "ski")
    return PU.protect_pkimessage(parse(case["base"]), s["prot"], **args)


def name_der(cert):
    return cmpx.enc(cert["tbsCertificate"]["subject"])


good_case = st.fixed_dictionaries({"base": base_message(), "s": signer(), "cert": st.sampled_from(["ski", "ski", "noski", "none"])})


def genuine(case, ctx):
    s = case["s"]
    ctx.label(s["key"], f"{s['prot']} {s['hash']}", "cert " + case["cert"])
    msg = ctx.accepts("protecting", protect, case)
    data = enc(msg)
    w, b = Wire(data), Wire(case["base"])
    ctx.eq(w.body, b.body, "body after protecting")
    fs, old = w.fields(), b.fields()
    for f in set(fs) | set(old):
        if f not in ("protectionAlg", "sender", "senderKID"):
            ctx.eq(fs.get(f), old.get(f), f"header field {f} after protecting")
    want = expected_alg(s)
    if want is not None:
        ctx.eq(fs["protectionAlg"], want, "protectionAlg")
        ctx.check(independent(s, w.protected, w.prot), f"the signature of {s['key']} does not verify over header and body")
    ctx.nontrivial()
    if case["cert"] == "none":
        ctx.eq(fs["sender"], old["sender"], "sender without a certificate")
        first = parse(data)["extraCerts"][0]
        ctx.eq(enc(first["tbsCertificate"]["subjectPublicKeyInfo"]), enc(cert_for(s["key"], s["i"])["tbsCertificate"]["subjectPublicKeyInfo"]), "public key of the first extra certificate")
    else:
        cert = cert_for(s["key"], s["i"], case["cert"] == "ski")
        ctx.eq(w.certs[0], enc(cert), "first extra certificate")
        ctx.eq(fs["sender"], D.ctx(4, name_der(cert)), "sender")
        if case["cert"] == "ski":
            spk = cert["tbsCertificate"]["subjectPublicKeyInfo"]["subjectPublicKey"].asOctets()
            ctx.eq(w.value("senderKID"), hashlib.sha1(spk).digest(), "senderKID")
        else:
            ctx.check(w.value("senderKID") is not None, "senderKID is absent")
            if "senderKID" in old:
                ctx.eq(fs["senderKID"], old["senderKID"], "senderKID without SubjectKeyIdentifier")
    m2 = parse(data)
    ctx.accepts("verifying with the certificate in the message", PU.verify_pkimessage_protection, m2)
    ctx.accepts("verifying with the public key", PU.verify_pkimessage_protection, m2, public_key=keys.get(s["key"], s["i"]).public_key())
    if case["cert"] == "ski" and s["hash"] in (None, *SHA2) and s["key"].split(":")[0] in ("rsa2048", "rsa3072", "ec", "ed25519", "ed448"):
        ctx.accepts("the check of a signature-protected message", checkutils.check_pkimessage_signature_protection, m2, key="checker")


FORGE = ["alter"] * 6 + ["sig-flip", "sig-flip", "sig-cut", "sig-extend", "sig-empty", "other-key", "other-type", "other-cert", "other-type-cert", "alg", "alg-only", "drop-alg", "param"]
bad_case = st.fixed_dictionaries({"base": base_message(), "s": signer(), "cert": st.just("ski"), "how": st.sampled_from(FORGE), "a": ALTER, "pick": st.integers(0, 10**6),
                                  "via": st.booleans(), "s2": signer(pq=True)})


def forged(case, ctx):
    s, how, p = case["s"], case["how"], case["pick"]
    data = enc(protect(case))
    w = Wire(data)
    pub = keys.get(s["key"], s["i"]).public_key()
    sig = bytearray(w.prot)
    ctx.label(s["key"], how)
    via = case["via"]
    kw = {"public_key": pub} if via else {}
    if how == "alter":
        msg, note = altered_message(data, case["a"])
        ctx.label(note)
        if msg is None:
            return
    elif how.startswith("sig"):
        if how == "sig-flip":
            sig[p % len(sig)] ^= 1 << (p % 8)
        elif how == "sig-cut":
            sig = sig[:-(1 + p % 40)]
        elif how == "sig-extend":
            sig += bytes(1 + p % 3)
        else:
            sig = bytearray()
        msg = parse(w.build(prot=bytes(sig)))
    elif how in ("other-key", "other-type"):
        msg = parse(data)
        k2 = s["key"] if how == "other-key" else case["s2"]["key"]
        if how == "other-type" and k2 == s["key"]:
            return
        kw = {"public_key": keys.get(k2, 1 - s["i"]).public_key()}
    elif how in ("other-cert", "other-type-cert"):
        k2 = s["key"] if how == "other-cert" else case["s2"]["key"]
        msg = parse(data)
        msg["extraCerts"] = cmputils.prepare_extra_certs([cert_for(k2, 1 - s["i"]), cert_for(s["key"], s["i"])])
        kw = {}
        if how == "other-type-cert" and k2 == s["key"]:
            return
    elif how in ("alg", "alg-only", "param"):
        alg = expected_alg(case["s2"]) if how != "param" else None
        if how == "param":
            o, par = cmpx.algid(w.fields()["protectionAlg"])
            alg = D.seq(o, D.octets(b"x") if not par or par == D.null() else D.null()) if p % 2 else D.seq(o, D.null() if not par else b"")
        if alg is None or alg == w.fields()["protectionAlg"]:
            return
        hdr = w.set_header("protectionAlg", alg)
        try:
            msg = parse(w.build(header=hdr))
        except Exception:  # pylint: disable=broad-except
            ctx.label("undecodable")
            return
    else:
        msg = parse(w.build(header=w.set_header("protectionAlg", None)))
    ctx.nontrivial()
    ctx.rejects(f"signed message with {how}", PU.verify_pkimessage_protection, msg, **kw, exc=Exception if how in ("drop-alg", "alter", "param", "alg") else OK, key="forged-" + how)
    if how in ("alter", "sig-flip", "other-cert") and not kw and s["key"].split(":")[0] in ("rsa2048", "rsa3072", "ec", "ed25519", "ed448"):
        ctx.rejects(f"signed message with {how}", checkutils.check_pkimessage_signature_protection, msg, exc=Exception)


# a message may be protected a second time and chains may be given
chain_case = st.fixed_dictionaries({"base": base_message(), "s": signer(pq=False), "n": st.integers(1, 3), "excl": st.booleans(), "bad": st.booleans(), "patch": st.booleans()})


def options(case, ctx):
    """exclude_certs, cert_chain, do_patch and bad_message_check have their documented effect."""
    s = case["s"]
    cert = cert_for(s["key"], s["i"])
    chain = [cert] + [cert_for("ed25519", j, True) for j in range(case["n"] - 1)]
    kw = {"hash_alg": s["hash"]} if s["hash"] else {}
    msg = ctx.accepts("protecting", PU.protect_pkimessage, parse(case["base"]), s["prot"], private_key=keys.get(s["key"], s["i"]), cert=cert, cert_chain=chain, exclude_certs=case["excl"],
                      do_patch=case["patch"], bad_message_check=case["bad"], **kw)
    data = enc(msg)
    w, b = Wire(data), Wire(case["base"])
    ctx.label(s["key"], f"excl={case['excl']} bad={case['bad']} patch={case['patch']}")
    ctx.nontrivial()
    if case["excl"]:
        ctx.check(w.certs is None, "exclude_certs: the message carries certificates")
    else:
        ctx.eq(w.certs, [enc(c) for c in chain], "extra certificates")
    if not case["patch"]:
        ctx.eq(w.fields()["sender"], b.fields()["sender"], "sender with do_patch=False")
        ctx.eq(w.fields().get("senderKID"), b.fields().get("senderKID"), "senderKID with do_patch=False")
    pub = keys.get(s["key"], s["i"]).public_key()
    m2 = parse(data)
    kw = {"public_key": pub} if case["excl"] else {}
    if case["bad"]:
        ctx.check(not independent(s, w.protected, w.prot), "bad_message_check yields a valid signature")
        ctx.rejects("a message made with bad_message_check", PU.verify_pkimessage_protection, m2, **kw, exc=OK)
    else:
        ctx.check(independent(s, w.protected, w.prot), "the signature does not verify over header and body")
        ctx.accepts("verifying", PU.verify_pkimessage_protection, m2, **kw)


SUBS = [
    Sub("genuine", good_case, genuine, quick=330, thorough=12000, shards=3, text="protected messages verify, independently and by the suite"),
    Sub("forged", bad_case, forged, quick=500, thorough=20000, shards=3, text="altered or mislabelled messages and other keys are refused"),
    Sub("options", chain_case, options, quick=150, thorough=4000, shards=2, text="options of the protection"),
]
