"""C13: KEM encapsulation and decapsulation agree for every supported KEM."""
import hashlib
import hmac

from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import padding, x448, x25519
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
from hypothesis import strategies as st

from lib import der as D
from lib import fips, keys, ref
from lib.harness import Skip, Sub
from pq_logic.kem_mechanism import DHKEMRFC9180, ECDHKEM, RSAKem, RSAOaepKem
from pq_logic.keys.trad_kem_keys import DHKEMPrivateKey, RSADecapKey

PROPERTY = "C13"
TECHNIQUE = "generated KEM combinations, randomness and ciphertext changes: round-trip plus independent decapsulation of each part (ML-KEM re-implemented, RFC 9180 extract-and-expand, KDF3, X-Wing and composite combiners)"
RULE = ("Every KEM and combination the suite names and this environment can compute, both sides, then changed, cut and extended ciphertexts and other keys. "
        "Non-trivial: the secret was compared with an independent computation or between the two sides, or the ciphertext differs from the genuine one.")
ASSUMPTIONS = ["McEliece and sntrup761 need liboqs, which is not installed: not covered", "the order of the inputs of the Chempat combiner is compared between the two sides only",
               "composite KEMs are compared with the draft for use_in_cms=False and between the two sides for both settings",
               "the masked top bit of an X25519 value leaves a raw Diffie-Hellman secret unchanged (RFC 7748) and is not counted as a change"]

MLKEM = ["ml-kem-512", "ml-kem-768", "ml-kem-1024"]
ML_CT = {"ml-kem-512": 768, "ml-kem-768": 1088, "ml-kem-1024": 1568}
E = "ec:"
COMP = ([f"composite-kem:ml-kem-768:{t}" for t in ("rsa2048", "rsa3072", "rsa4096", "x25519", "ec:secp256r1", "ec:secp384r1", "ec:brainpoolP256r1")]
        + [f"composite-kem:ml-kem-1024:{t}" for t in ("rsa3072", "x448", "ec:secp384r1", "ec:brainpoolP384r1", "ec:secp521r1")]
        + [f"composite-dhkem:ml-kem-768:{t}" for t in ("x25519", "ec:secp384r1", "ec:brainpoolP256r1")] + [f"composite-dhkem:ml-kem-1024:{t}" for t in ("x448", "ec:secp384r1", "ec:brainpoolP384r1")])
CHEM = [f"chempat:ml-kem-768:{t}" for t in ("x25519", "ec:secp256r1", "ec:brainpoolP256r1")] + [f"chempat:ml-kem-1024:{t}" for t in ("x448", "ec:secp384r1", "ec:brainpoolP384r1")]
DH = ["x25519", "x448"] + [E + c for c in ("secp256r1", "secp384r1", "secp521r1", "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1")]
FRODO = ["frodokem-640-aes", "frodokem-640-shake", "frodokem-976-aes", "frodokem-976-shake", "frodokem-1344-aes", "frodokem-1344-shake"]
FR = {"640": (9752, 16), "976": (15792, 24), "1344": (21696, 32)}


def raw_pub(k):
    return k.public_bytes(Encoding.X962, PublicFormat.UncompressedPoint) if isinstance(k, cec.EllipticCurvePublicKey) else k.public_bytes_raw()


def dh_raw(key, ct):
    """Plain Diffie-Hellman of a private key with an encoded public value."""
    if isinstance(key, cec.EllipticCurvePrivateKey):
        return key.exchange(cec.ECDH(), cec.EllipticCurvePublicKey.from_encoded_point(key.curve, ct))
    cls = x25519.X25519PublicKey if isinstance(key, x25519.X25519PrivateKey) else x448.X448PublicKey
    return key.exchange(cls.from_public_bytes(ct))


def rfc9180(name, key, ct):
    """Decap of RFC 9180, section 4.1."""
    size = 256 if name == "x25519" else 512 if name == "x448" else key.curve.key_size
    kem, h = {"x25519": (0x20, "sha256"), "x448": (0x21, "sha512")}.get(name) or {256: (0x10, "sha256"), 384: (0x11, "sha384"), 521: (0x12, "sha512"), 512: (0x12, "sha512")}[size]
    n = hashlib.new(h).digest_size
    suite = b"KEM" + kem.to_bytes(2, "big")
    prk = hmac.new(b"\0" * n, b"HPKE-v1" + suite + b"eae_prk" + dh_raw(key, ct), h).digest()
    info = n.to_bytes(2, "big") + b"HPKE-v1" + suite + b"shared_secret" + ct + raw_pub(key.public_key())
    return hmac.new(prk, info + b"\x01", h).digest()


def oaep(h):
    hh = {"sha1": hashes.SHA1(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512()}[h]
    return padding.OAEP(padding.MGF1(hh), hh, None)


def ml_decaps(name, i, ct):
    return fips.kem_decaps(name, keys.get(name, i).private_bytes_raw(), ct)


def parts_of(name):
    kind, pq, trad = name.split(":", 2)
    return kind, pq, trad


def reference(name, i, ct, opt):
    """The shared secret by an independent computation (None where only the two sides are compared)."""
    if name in MLKEM:
        return ml_decaps(name, i, ct)
    if name == "xwing":
        k = keys.get("xwing", i)
        m = fips.kem_decaps("ml-kem-768", k.pq_key.private_bytes_raw(), ct[:1088])
        return hashlib.sha3_256(m + dh_raw(k.trad_key, ct[1088:]) + ct[1088:] + k.trad_key.public_key().public_bytes_raw() + b"\\.//^\\").digest()
    kind = name.split(":")[0]
    if kind == "dhkem":
        return rfc9180(name[6:], keys.get(name[6:], i), ct)
    if kind == "ecdhkem":
        return dh_raw(keys.get(name[8:], i), ct)
    if kind == "rsakem":
        n = keys.get(name[7:], i).private_numbers()
        z = pow(int.from_bytes(ct, "big"), n.d, n.public_numbers.n).to_bytes(len(ct), "big")
        return z if opt["len"] is None else ref.kdf3("sha256", z, b"", opt["len"])
    if kind == "rsaoaep":
        return keys.get(name[8:], i).decrypt(ct, oaep(opt["hash"]))
    if kind in ("composite-kem", "composite-dhkem"):
        if opt["cms"]:
            return None
        _, pq, trad = parts_of(name)
        key = keys.get(trad, i)
        m, tct = ml_decaps(pq, i, ct[:ML_CT[pq]]), ct[ML_CT[pq]:]
        if trad.startswith("rsa"):
            tss, tpk = key.decrypt(tct, oaep("sha256")), key.public_key().public_bytes(Encoding.DER, PublicFormat.PKCS1)
        else:
            tss, tpk = (dh_raw(key, tct) if kind == "composite-kem" else rfc9180(trad, key, tct)), raw_pub(key.public_key())
        oid = str(keys.get(name, i).get_oid())
        data = m + tss + tct + tpk + D.oid(oid)
        if trad in ("x25519", "x448"):
            return hashlib.sha3_256(data).digest()
        h, n = ("sha256", 32) if pq == "ml-kem-768" else ("sha512", 64)
        return hmac.new(b"\0" * n, data, h).digest()[:32]
    return None


def keypair(name, i):
    kind = name.split(":")[0]
    if kind in ("dhkem", "ecdhkem"):
        return DHKEMPrivateKey(keys.get(name.split(":", 1)[1], i), use_rfc9180=kind == "dhkem")
    if kind in ("rsakem", "rsaoaep"):
        return RSADecapKey(keys.get(name.split(":")[1], i))
    return keys.get(name, i)


def ct_len(name):
    if name in MLKEM:
        return ML_CT[name]
    if name == "xwing":
        return 1120
    kind, *rest = name.split(":", 1)
    pq, trad = (0, rest[0])
    if kind in ("composite-kem", "composite-dhkem", "chempat"):
        p, trad = rest[0].split(":", 1)
        pq = ML_CT[p] if p in ML_CT else FR[p.split("-")[1]][0]
    if trad.startswith("rsa"):
        return pq + int(trad[3:]) // 8
    return pq + {"x25519": 32, "x448": 56, "secp256r1": 65, "secp384r1": 97, "secp521r1": 133, "brainpoolP256r1": 65, "brainpoolP384r1": 97, "brainpoolP512r1": 129}[trad.split(":")[-1]]


def ss_len(name, opt):
    kind = name.split(":")[0]
    if kind == "ecdhkem":
        return {"x25519": 32, "x448": 56, "secp256r1": 32, "secp384r1": 48, "secp521r1": 66, "brainpoolP256r1": 32, "brainpoolP384r1": 48, "brainpoolP512r1": 64}[name.split(":")[-1]]
    if kind == "dhkem":
        return {"x25519": 32, "x448": 64, "secp256r1": 32, "secp384r1": 48, "secp521r1": 64, "brainpoolP256r1": 32, "brainpoolP384r1": 48, "brainpoolP512r1": 64}[name.split(":")[-1]]
    if kind == "rsakem":
        return opt["len"] or int(name.split(":")[1][3:]) // 8
    if kind == "rsaoaep":
        return opt["len"] or 32
    return 32


def encaps(name, i, opt, direct):
    """(ss, ct) by the public key object, or by the KEM class."""
    pub = keypair(name, i).public_key()
    kind = name.split(":")[0]
    if kind == "rsakem":
        return RSAKem(opt["len"]).encaps(pub._public_key) if direct else pub.encaps(use_oaep=False, ss_length=opt["len"])
    if kind == "rsaoaep":
        return RSAOaepKem(opt["hash"], opt["len"] or 32).encaps(pub._public_key) if direct else pub.encaps(use_oaep=True, hash_alg=opt["hash"], ss_length=opt["len"])
    if kind in ("dhkem", "ecdhkem"):
        eph = keys.get(name.split(":", 1)[1], 7 + opt["eph"]) if opt["eph"] else None
        if direct:
            return (DHKEMRFC9180 if kind == "dhkem" else ECDHKEM)(eph).encaps(pub._public_key)
        return pub.encaps(eph)
    if kind in ("composite-kem", "composite-dhkem"):
        return pub.encaps(use_in_cms=opt["cms"])
    return pub.encaps()


def decaps(name, i, opt, direct, ct):
    key = keypair(name, i)
    kind = name.split(":")[0]
    if kind == "rsakem":
        return RSAKem(opt["len"]).decaps(key._private_key, ct) if direct else key.decaps(ct, use_oaep=False, ss_length=opt["len"])
    if kind == "rsaoaep":
        return RSAOaepKem(opt["hash"]).decaps(key._private_key, ct) if direct else key.decaps(ct, use_oaep=True, hash_alg=opt["hash"])
    if kind in ("dhkem", "ecdhkem") and direct:
        return (DHKEMRFC9180 if kind == "dhkem" else ECDHKEM)(key._private_key).decaps(ct)
    if kind in ("composite-kem", "composite-dhkem"):
        return key.decaps(ct, use_in_cms=opt["cms"])
    return key.decaps(ct)


NAMES = (MLKEM + ["xwing"]) * 2 + COMP + CHEM + ["dhkem:" + d for d in DH] + ["ecdhkem:" + d for d in DH] + ["rsakem:" + r for r in ("rsa2048", "rsa3072")] + ["rsaoaep:" + r for r in ("rsa2048", "rsa3072")]
HOW = ["flip"] * 4 + ["cut", "cut", "extend", "extend", "empty", "zero", "other-key", "other-ct", "flip-pq", "flip-trad", "short-part", "swap"]
opt_st = st.fixed_dictionaries({"len": st.sampled_from([None, None, 16, 32, 48, 65]), "hash": st.sampled_from(["sha1", "sha256", "sha384", "sha512"]), "cms": st.booleans(), "eph": st.sampled_from([0, 0, 1, 2])})
case_st = st.fixed_dictionaries({"name": st.sampled_from(NAMES), "i": st.integers(0, 2), "opt": opt_st, "d1": st.booleans(), "d2": st.booleans(), "how": st.sampled_from(HOW), "p": st.integers(0, 10**6)})


def agree(case, ctx):
    name, i, opt = case["name"], case["i"], case["opt"]
    kind = name.split(":")[0]
    ctx.label(name)
    key = keypair(name, i)
    ss, ct = ctx.accepts("encapsulation", encaps, name, i, opt, case["d1"])
    ctx.eq((len(ss), len(ct)), (ss_len(name, opt), ct_len(name)), "lengths of secret and ciphertext")
    got = ctx.accepts("decapsulation", decaps, name, i, opt, case["d2"], ct)
    ctx.eq(got, ss, "the secret of the receiver")
    want = reference(name, i, ct, opt)
    if want is not None:
        ctx.eq(ss, want, "the secret by an independent computation")
    if not case["opt"]["eph"] or kind not in ("dhkem", "ecdhkem"):
        ss2, ct2 = encaps(name, i, opt, case["d1"])
        ctx.check(ct2 != ct and ss2 != ss, "two encapsulations give the same ciphertext or secret")
    ctx.nontrivial()


def changed(case, ctx):
    name, i, opt, p, how = case["name"], case["i"], case["opt"], case["p"], case["how"]
    ctx.label(how, name)
    ss, ct = encaps(name, i, opt, case["d1"])
    bad = bytearray(ct)
    kind = name.split(":")[0]
    pqn = 0
    if name == "xwing":
        pqn = 1088
    elif kind in ("composite-kem", "composite-dhkem", "chempat"):
        pqn = ML_CT[parts_of(name)[1]]
    wrong_len = False
    j = i
    if how == "flip":
        bad[p % len(bad)] ^= 1 << (p // 7 % 8)
    elif how in ("flip-pq", "flip-trad"):
        if not pqn:
            return
        first = pqn if kind != "chempat" else len(ct) - pqn          # length of the part which comes first
        lo, hi = (0, first) if (how == "flip-pq") == (kind != "chempat") else (first, len(ct))
        bad[lo + p % (hi - lo)] ^= 1 << (p // 7 % 8)
    elif how == "cut":
        bad = bad[:-(1 + p % (len(ct) - 1))]
        wrong_len = True
    elif how == "extend":
        bad += bytes([p % 256]) * (1 + p % 40)
        wrong_len = True
    elif how == "empty":
        bad, wrong_len = bytearray(), True
    elif how == "short-part":
        if not pqn:
            return
        bad, wrong_len = bad[:pqn - 1] + bad[pqn:] if p % 2 else bad[:pqn], True
    elif how == "swap":
        if not pqn:
            return
        bad = bad[pqn:] + bad[:pqn]
    elif how == "zero":
        bad = bytearray(len(ct))
    elif how == "other-key":
        j = (i + 1) % 3 if not name.split(":")[-1].startswith("rsa") else 1 - i % 2
        if j == i:
            return
    elif how == "other-ct":
        bad = bytearray(encaps(name, i, opt, case["d1"])[1])
    bad = bytes(bad)
    if how == "other-ct" and opt["eph"] and kind in ("dhkem", "ecdhkem"):
        return
    if bad == ct and how != "other-key":
        raise Skip("the change changes nothing")
    if kind == "ecdhkem" and name.endswith("x25519") and not wrong_len and how != "other-key" and bad[:31] == ct[:31] and (bad[31] ^ ct[31]) == 0x80:
        raise Skip("masked bit")
    ctx.nontrivial()
    if wrong_len:
        ctx.rejects(f"a ciphertext of {len(bad)} instead of {len(ct)} bytes", decaps, name, j, opt, case["d2"], bad, key="length-" + kind)
        return
    try:
        got = decaps(name, j, opt, case["d2"], bad)
    except Exception:  # pylint: disable=broad-except
        ctx.label("refused")
        return
    ctx.check(got != ss, f"{how}: the secret is unchanged")
    ctx.label("other secret")
    want = reference(name, j, bad, opt)
    if want is not None:
        ctx.eq(got, want, f"{how}: secret of the changed ciphertext by an independent computation")


RSA_NAMES = [n for n in NAMES if "rsa" in n]


def fix(case):
    if "rsa" in case["name"]:
        case = dict(case, i=case["i"] % 2)
    return case


frodo_st = st.fixed_dictionaries({"name": st.sampled_from(FRODO[:2] * 3 + FRODO[2:3]), "i": st.just(0), "how": st.sampled_from(["agree", "flip", "flip", "salt", "cut", "extend", "other-key"]), "p": st.integers(0, 10**6)})
frodo_deep = st.fixed_dictionaries({"name": st.sampled_from(FRODO + ["chempat:frodokem-976-aes:x25519", "chempat:frodokem-640-shake:ec:brainpoolP256r1", "composite-kem:frodokem-976-aes:rsa2048", "composite-dhkem:frodokem-976-shake:x25519"]),
                                    "i": st.integers(0, 1), "how": st.sampled_from(["agree", "flip", "flip", "salt", "cut", "extend", "other-key"]), "p": st.integers(0, 10**6)})


def frodo(case, ctx):
    """FrodoKEM (slow in Python): agreement, implicit rejection with the value the standard defines, lengths."""
    name, how, p = case["name"], case["how"], case["p"]
    key = keys.get(name, case["i"])
    ctx.label(name, how)
    if how in ("cut", "extend"):
        n = ct_len("chempat:" + name + ":x25519") - 32 if ":" not in name else ct_len(name)
        bad = bytes(n - 1 - p % 50) if how == "cut" else bytes(n + 1 + p % 50)
        ctx.nontrivial()
        ctx.rejects("a FrodoKEM ciphertext of a wrong length", key.decaps, bad)
        return
    ss, ct = ctx.accepts("encapsulation", key.public_key().encaps)
    if ":" not in name:
        want = FR[name.split("-")[1]]
        ctx.eq((len(ct), len(ss)), want, "lengths")
    ctx.nontrivial()
    if how == "agree":
        ctx.eq(key.decaps(ct), ss, "the secret of the receiver")
        return
    bad = bytearray(ct)
    if how == "flip":
        bad[p % len(bad)] ^= 1 << (p // 7 % 8)
    elif how == "salt":
        bad[-1 - p % 30] ^= 1 << (p // 7 % 8)
    bad = bytes(bad)
    if how == "other-key":
        key = keys.get(name, 1 - case["i"])
    try:
        got = key.decaps(bad)
    except Exception:  # pylint: disable=broad-except
        ctx.check(":" in name, "FrodoKEM decapsulation of a well-formed ciphertext must not fail")
        return
    ctx.check(got != ss, "the secret is unchanged")
    if ":" not in name:
        s = key.private_bytes_raw()[:len(ss)]
        h = hashlib.shake_128 if "640" in name else hashlib.shake_256
        ctx.eq(got, h(bad + s).digest(len(ss)), "the secret of implicit rejection")


SUBS = [
    Sub("agree", case_st.map(fix), agree, quick=400, thorough=12000, shards=3, text="both sides obtain the same secret, which is the one of the specification"),
    Sub("changed", case_st.map(fix), changed, quick=700, thorough=20000, shards=3, text="changed ciphertexts and other keys"),
    Sub("frodo", frodo_st, frodo, quick=14, thorough=1, shards=2, text="FrodoKEM with 640 and 976"),
    Sub("frodo-all", frodo_deep, frodo, quick=0, thorough=300, shards=6, text="all FrodoKEM variants and their combinations"),
]
