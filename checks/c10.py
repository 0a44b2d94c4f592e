"""C10: keys survive saving, loading and exchange; inconsistent material is refused."""
import base64
import os
import textwrap

from cryptography.hazmat.primitives import serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from hypothesis import strategies as st

from lib import certs, cmpx, comp, keys
from lib import der as D
from lib.harness import SCRATCH, Skip, Sub
from pq_logic.combined_factory import CombinedKeyFactory as F
from pq_logic.keys.trad_kem_keys import DHKEMPrivateKey, DHKEMPublicKey, RSADecapKey, RSAEncapKey
from resources import certutils, keyutils as K

PROPERTY = "C10"
TECHNIQUE = "generated keys, encodings and damage: independently written PKCS#8 and SubjectPublicKeyInfo encoders as oracle for what is written, identity of all components for what is read back"
RULE = ("All key families x export type x version x public key; structures made by the suite and by an independent encoder; files with and without password, surroundings and line ends; "
        "damage swaps in material of another key or changes lengths. Non-trivial: the loaded key was compared component by component, or the structure really is inconsistent.")
ASSUMPTIONS = ["cryptography encodes and decodes RSA, EC, Edwards and Montgomery keys correctly"]

ML = ["ml-kem-512", "ml-kem-768", "ml-kem-1024", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
SLH = ["slh-dsa-sha2-128f", "slh-dsa-shake-128f", "slh-dsa-sha2-192f", "slh-dsa-shake-256f", "slh-dsa-sha2-128s"]
FRODO = ["frodokem-640-aes", "frodokem-640-shake", "frodokem-976-aes", "frodokem-1344-shake"]
TRAD = ["rsa1024", "rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:secp256k1", "ec:secp224r1", "ec:brainpoolP256r1", "ec:brainpoolP512r1", "ed25519", "ed448", "x25519", "x448"]
COMP_SIG = [a.key for a in comp.ALGS]
COMP_KEM = ["composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:rsa2048", "composite-kem:ml-kem-768:rsa3072", "composite-kem:ml-kem-768:ec:secp384r1", "composite-kem:ml-kem-768:ec:brainpoolP256r1",
            "composite-kem:ml-kem-1024:x448", "composite-kem:ml-kem-1024:ec:secp384r1", "composite-kem:frodokem-976-aes:x25519", "composite-dhkem:ml-kem-768:x25519", "composite-dhkem:ml-kem-768:ec:secp384r1"]
CHEM = ["chempat:ml-kem-768:x25519", "chempat:ml-kem-1024:x448", "chempat:ml-kem-768:ec:secp256r1", "chempat:ml-kem-1024:ec:secp384r1", "chempat:ml-kem-1024:ec:brainpoolP384r1", "chempat:frodokem-976-aes:x25519"]
OID = {"ml-kem-512": "2.16.840.1.101.3.4.4.1", "ml-kem-768": "2.16.840.1.101.3.4.4.2", "ml-kem-1024": "2.16.840.1.101.3.4.4.3",
       "ml-dsa-44": "2.16.840.1.101.3.4.3.17", "ml-dsa-65": "2.16.840.1.101.3.4.3.18", "ml-dsa-87": "2.16.840.1.101.3.4.3.19",
       **{f"slh-dsa-{h}-{n}{s}": f"2.16.840.1.101.3.4.3.{20 + i}" for i, (h, n, s) in enumerate([(h, n, s) for h in ("sha2", "shake") for n in (128, 192, 256) for s in ("s", "f")])},
       "rsa": "1.2.840.113549.1.1.1", "ec": "1.2.840.10045.2.1", "x25519": "1.3.101.110", "x448": "1.3.101.111", "ed25519": "1.3.101.112", "ed448": "1.3.101.113", "xwing": "1.3.6.1.4.1.62253.25722"}
OTHER_PARAM = {"ml-kem-512": "ml-kem-768", "ml-kem-768": "ml-kem-1024", "ml-kem-1024": "ml-kem-512", "ml-dsa-44": "ml-dsa-65", "ml-dsa-65": "ml-dsa-87", "ml-dsa-87": "ml-dsa-44"}


def scratch():
    d = os.path.join(SCRATCH, f"c10-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def foreign(spki_der):
    """A certificate with another public key in it."""
    der = cmpx.enc(certs.cert_for("ec:secp256r1", 0))
    tbs, alg, sig = D.split(der)
    parts = D.split(tbs)
    j = next(n for n, x in enumerate(parts) if x[0] == 0x30 and len(x) > 60 and D.split(x)[-1][0] == 3)
    parts[j] = spki_der
    return D.seq(D.seq(*parts), alg, sig)


def get(name, i):
    if name.startswith("rsa-kem:"):
        return RSADecapKey(keys.get(name[8:], i))
    if name.startswith("bare:"):  # as a user generates it
        return keys.get(name[5:], i)
    return keys.get(name, i)


def oid_of(name, key):
    base = name.split(":")[0].rstrip("0123456789") if name.startswith(("rsa", "ec:")) else name
    return OID.get(base) or str(key.get_oid())


def unwrap(k):
    if isinstance(k, (DHKEMPrivateKey, RSADecapKey)):
        return k._private_key
    if isinstance(k, (DHKEMPublicKey, RSAEncapKey)):
        return k._public_key
    return k


def pub_id(k):
    """What a public key is, as plain data."""
    if hasattr(k, "pq_key"):
        return type(k).__name__, pub_id(k.pq_key), pub_id(k.trad_key)
    k = unwrap(k)
    if hasattr(k, "_public_key_bytes"):
        return type(k).__name__, k.name, bytes(k.public_bytes_raw())
    return type(k).__name__, k.public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)


def priv_id(k):
    if hasattr(k, "pq_key"):
        return type(k).__name__, priv_id(k.pq_key), priv_id(k.trad_key)
    k = unwrap(k)
    if hasattr(k, "_private_key_bytes"):
        return type(k).__name__, k.name, bytes(k.private_bytes_raw()), pub_id(k.public_key())
    return type(k).__name__, k.private_bytes(ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())


def same(ctx, got, want, what):
    ctx.eq(priv_id(got), priv_id(want), f"{what}: private key")
    ctx.eq(pub_id(got.public_key()), pub_id(want.public_key()), f"{what}: public key")
    ctx.nontrivial()


def seed_of(k):
    return bytes(k.private_numbers())


def trad_priv(k):
    """The inner privateKey octets of PKCS#8 for a traditional key."""
    der = unwrap(k).private_bytes(ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())
    p = D.split(der)
    return p[1], body(p[2])


def body(t):
    _, _, a, b = D.read(t)
    return t[a:b]


def trad_pub(k):
    """The subjectPublicKey octets for a traditional key."""
    der = unwrap(k).public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)
    p = D.split(der)
    return p[0], body(p[1])[1:]


def raw_pub(name, key):
    p = key.public_key()
    if hasattr(p, "pq_key"):
        trad = trad_pub(p.trad_key)[1]
        return bytes(p.pq_key.public_bytes_raw()) + trad
    if hasattr(p, "_public_key_bytes"):
        return bytes(p.public_bytes_raw())
    return trad_pub(p)[1]


def pq_octets(name, key, typ):
    """The privateKey octets of a post-quantum key."""
    raw = bytes(key.private_bytes_raw())
    if name in ML:
        return {"seed": D.tlv(0x80, seed_of(key)), "raw": D.octets(raw), "seed_and_raw": D.seq(D.octets(seed_of(key)), D.octets(raw))}[typ]
    if name.startswith("slh"):
        return {"seed": seed_of(key), "raw": raw, "seed_and_raw": raw}[typ]
    return {"seed": seed_of(key), "raw": raw, "seed_and_raw": seed_of(key) + raw}[typ]


def one_asym(version, alg, octets, pub=None):
    return D.seq(D.integer(version), alg, D.octets(octets), b"" if pub is None else D.tlv(0x81, b"\0" + pub))


def load(der):
    return F.load_private_key_from_one_asym_key(der)


def refuse(ctx, what, der):
    ctx.rejects(what, load, der, exc=Exception)
    ctx.nontrivial()


# ------------------------------------------------------------------ post-quantum
pq_case = st.fixed_dictionaries({"k": st.sampled_from(ML * 4 + SLH * 2 + FRODO[:2] * 2 + FRODO[2:]), "i": st.integers(0, 1), "typ": st.sampled_from(["seed", "raw", "seed_and_raw"]), "v": st.integers(0, 1), "pub": st.sampled_from([None, True, False]),
                                 "api": st.sampled_from(["factory", "keyutils", "own", "own"]),
                                 "dmg": st.sampled_from(["none"] * 3 + ["pub", "publen", "privlen", "half", "half", "v0pub", "version", "alg"]), "p": st.integers(0, 1 << 20)})


def pq(case, ctx):
    k, i, typ, v, pub, dmg = case["k"], case["i"], case["typ"], case["v"], case["pub"], case["dmg"]
    key, other = get(k, i), get(k, 1 - i)
    frodo = k in FRODO
    ctx.label(k, typ, f"v{v}", case["api"], dmg)
    alg = D.seq(D.oid(oid_of(k, key)))
    octets = pq_octets(k, key, typ)
    rp = bytes(key.public_key().public_bytes_raw())
    if case["api"] != "own":
        if frodo and (v == 0 or pub is False):
            raise Skip("not supported for these keys")
        # version 1 always comes with the public key, version 0 only if it was asked for
        want = one_asym(v, alg, octets, rp if v == 1 or pub else None)
        if case["api"] == "factory":
            der = ctx.accepts("export", F.save_private_key_one_asym_key, key, password=None, version=v, save_type=typ, include_public_key=pub)
        else:
            if v == 0 and pub:
                raise Skip("version 0 with a public key is a negative test structure")
            der = cmpx.enc(ctx.accepts("prepare_one_asymmetric_key", K.prepare_one_asymmetric_key, key, version=v if case["p"] % 2 else f"v{v + 1}", key_save_type=typ, include_public_key=pub))
        ctx.eq(der, want, "the exported structure")
    else:
        der = one_asym(v, alg, octets, rp if pub and v else None)
    if dmg == "none":
        if v == 0 and pub and case["api"] != "own":
            return refuse(ctx, "version 0 with a public key", der)
        got = ctx.accepts("loading", load, der)
        same(ctx, got, key, "loaded")
        if typ != "raw" and not (k.startswith("slh") and typ == "seed_and_raw"):
            ctx.eq(seed_of(got), seed_of(key), "seed of the loaded key")
        # what was loaded can be exported again
        again = ctx.accepts("export of the loaded key", F.save_private_key_one_asym_key, got, password=None, version=1, save_type="raw", include_public_key=True)
        ctx.eq(again, one_asym(1, alg, pq_octets(k, key, "raw"), rp), "export of the loaded key")
        return
    p = case["p"]
    bad_pub, bad_oct, vv = rp, octets, 1
    n = 1 + p % 3
    if dmg == "pub":
        bad_pub = bytes(other.public_key().public_bytes_raw())
    elif dmg == "publen":
        bad_pub = rp + bytes(n) if p & 8 else rp[:-n]
    elif dmg == "privlen":
        bad_pub = None if p & 4 else rp
        bad_oct = resize(k, key, typ, n, p & 8)
    elif dmg == "half":
        if typ != "seed_and_raw" or k.startswith("slh"):
            raise Skip("only one part")
        bad_pub = None if p & 4 else rp
        s, r = (seed_of(other), bytes(key.private_bytes_raw())) if p & 1 else (seed_of(key), bytes(other.private_bytes_raw()))
        if k in ML and p & 2:
            r = bytearray(bytes(key.private_bytes_raw()))
            r[(p >> 4) % len(r)] ^= 1 << (p % 8)
            r, s = bytes(r), seed_of(key)
            ctx.label("half: bit")
        if frodo:
            bad_oct = s + r
        else:
            bad_oct = D.seq(D.octets(s), D.octets(r))
    elif dmg == "v0pub":
        vv = 0
    elif dmg == "version":
        vv = 2 + p % 3
    elif dmg == "alg":
        if k not in OTHER_PARAM or typ == "seed":
            raise Skip("a seed serves several parameter sets")
        alg = D.seq(D.oid(OID[OTHER_PARAM[k]]))
        bad_pub = None if p & 4 else rp
    refuse(ctx, f"inconsistent material ({dmg})", one_asym(vv, alg, bad_oct, bad_pub))


def resize(k, key, typ, n, more):
    raw, seed = bytes(key.private_bytes_raw()), None
    try:
        seed = seed_of(key)
    except ValueError:
        pass

    def f(b):
        return b + bytes(n) if more else b[:-n]
    if k in ML:
        return {"seed": lambda: D.tlv(0x80, f(seed)), "raw": lambda: D.octets(f(raw)), "seed_and_raw": lambda: D.seq(D.octets(seed), D.octets(f(raw)))}[typ]()
    if typ == "seed":
        return f(seed)
    if k.startswith("slh") or typ == "raw":
        return f(raw)
    return f(seed + raw)


# ------------------------------------------------------------------ hybrids
hybrid_case = st.fixed_dictionaries({"k": st.sampled_from(COMP_SIG + [x for x in COMP_KEM if 'frodo' not in x] * 2 + ["xwing"] * 5 + [x for x in CHEM if 'frodo' not in x] * 3 + [COMP_KEM[7], CHEM[5]]), "i": st.integers(0, 1), "typ": st.sampled_from(["seed", "raw", "seed_and_raw"]), "v": st.integers(0, 1), "pub": st.sampled_from([None, True, False]),
                                     "dmg": st.sampled_from(["none"] * 3 + ["pub", "pqpub", "tradpub", "publen", "privlen", "half", "v0pub", "version"]), "p": st.integers(0, 1 << 20)})


def hybrid(case, ctx):
    k, i, typ, v, pub, dmg, p = case["k"], case["i"], case["typ"], case["v"], case["pub"], case["dmg"], case["p"]
    key, other = get(k, i), get(k, 1 - i)
    comp_ = k.startswith("composite")
    ctx.label(k.split(":")[0] + " " + k.split(":")[-1], typ, f"v{v}", dmg)
    want_typ, typ = typ, "seed" if comp_ else typ  # composite private keys always carry the seed
    der = ctx.accepts("export", F.save_private_key_one_asym_key, key, password=None, version=v, save_type=want_typ, include_public_key=pub)
    x = D.split(der)
    ctx.eq(x[0], D.integer(v), "version")
    ctx.eq(x[1], D.seq(D.oid(oid_of(k, key))), "algorithm identifier")
    octets = body(x[2])
    rp = raw_pub(k, key)
    ctx.eq([body(y) for y in x[3:]], [b"\0" + rp] if v == 1 or pub else [], "public key")
    if k == "xwing":
        s, raw = seed_of(key), bytes(key.private_bytes_raw())
        ctx.eq(octets, {"seed": s, "raw": raw, "seed_and_raw": s + raw}[typ], "X-Wing key")
        ctx.eq(raw, bytes(key.pq_key.private_bytes_raw()) + key.trad_key.private_bytes_raw(), "expanded X-Wing key")
    elif comp_:
        s = seed_of(key.pq_key)
        ctx.eq(octets[:len(s)], s, "seed of the composite key")
        check_trad(ctx, octets[len(s):], key.trad_key, k)
    else:
        pqb = pq_octets(key.pq_key.name, key.pq_key, typ)
        ctx.eq(octets[:4 + len(pqb)], len(pqb).to_bytes(4, "little") + pqb, "post-quantum part of the Chempat key")
        t = unwrap(key.trad_key)
        if isinstance(t, ec.EllipticCurvePrivateKey):
            ctx.eq(int.from_bytes(octets[4 + len(pqb):], "big"), t.private_numbers().private_value, "EC part of the Chempat key")
        else:
            ctx.eq(octets[4 + len(pqb):], t.private_bytes_raw(), "DH part of the Chempat key")
    if dmg == "none":
        if v == 0 and pub:
            return refuse(ctx, "version 0 with a public key", der)
        if not pub and p & 1:
            der = one_asym(0, x[1], octets)  # without the public key
        got = ctx.accepts("loading", load, der)
        same(ctx, got, key, "loaded")
        again = ctx.accepts("export of the loaded key", F.save_private_key_one_asym_key, got, password=None, version=1, save_type="seed" if typ != "raw" else "raw", include_public_key=True)
        if typ != "seed_and_raw":
            ctx.eq(again, one_asym(1, x[1], octets, rp), "export of the loaded key")
        if case["p"] % 3 == 0 and typ == "seed":
            der2 = ctx.accepts("private_bytes", key.private_bytes, ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption())
            same(ctx, ctx.accepts("loading private_bytes", load, der2), key, "private_bytes")
        return
    n = 1 + p % 3
    bad_pub, bad_oct, vv = rp, octets, 1
    orp = raw_pub(k, other)
    cut = len(key.pq_key.public_key().public_bytes_raw())
    if dmg == "pub":
        bad_pub = orp
    elif dmg == "pqpub":
        bad_pub = orp[:cut] + rp[cut:]
    elif dmg == "tradpub":
        bad_pub = rp[:cut] + orp[cut:]
    elif dmg == "publen":
        bad_pub = rp + bytes(n) if p & 8 else rp[:-n]
    elif dmg == "privlen":
        if p & 4 and k.startswith("chempat") and isinstance(unwrap(key.trad_key), ec.EllipticCurvePrivateKey) and not p & 8:
            bad_pub = None
        elif p & 4 and not k.startswith("chempat"):
            bad_pub = None
        bad_oct = octets + bytes(n) if p & 8 else octets[:-n]
    elif dmg == "half":
        oo = body(D.split(F.save_private_key_one_asym_key(other, password=None, version=0, save_type=typ))[2])
        if k == "xwing":
            if typ != "seed_and_raw":
                raise Skip("only one part")
            bad_pub = None
            bad_oct = oo[:32] + octets[32:] if p & 1 else octets[:32] + oo[32:]
        else:
            # one component of another key: only the public key tells
            h = len(seed_of(key.pq_key)) if comp_ else 4 + len(pq_octets(key.pq_key.name, key.pq_key, typ))
            bad_oct = oo[:h] + octets[h:] if p & 1 else octets[:h] + oo[h:]
    elif dmg == "v0pub":
        vv = 0
    elif dmg == "version":
        vv = 2 + p % 3
    refuse(ctx, f"inconsistent material ({dmg})", one_asym(vv, x[1], bad_oct, bad_pub))


def check_trad(ctx, octets, key, k):
    t = unwrap(key)
    if isinstance(t, rsa.RSAPrivateKey):
        ctx.eq(octets, t.private_bytes(ser.Encoding.DER, ser.PrivateFormat.TraditionalOpenSSL, ser.NoEncryption()), "RSA part")
    elif isinstance(t, ec.EllipticCurvePrivateKey):
        x = D.split(octets)
        ctx.eq((x[0], body(x[1])), (D.integer(1), t.private_numbers().private_value.to_bytes((t.curve.key_size + 7) // 8, "big")), "EC part")
        ctx.check(x[2][0] == 0xA0, "named curve of the EC part")
    else:
        ctx.eq(octets, t.private_bytes_raw(), "raw part")


# ------------------------------------------------------------------ traditional
trad_case = st.fixed_dictionaries({"k": st.sampled_from(TRAD + ["rsa-kem:rsa2048", "rsa-kem:rsa3072"]), "i": st.integers(0, 1), "v": st.integers(0, 1), "pub": st.sampled_from([None, True, False]), "own": st.booleans(),
                                   "dmg": st.sampled_from(["none"] * 3 + ["pub", "publen", "trailing", "v0pub", "version"]), "p": st.integers(0, 1 << 20)})


def trad_spk(t):
    p = t.public_key()
    if isinstance(p, rsa.RSAPublicKey):
        return p.public_bytes(ser.Encoding.DER, ser.PublicFormat.PKCS1)
    return trad_pub(p)[1]


def trad(case, ctx):
    k, i, v, pub, dmg, p = case["k"], case["i"], case["v"], case["pub"], case["dmg"], case["p"]
    key, other = get(k, i), get(k, 1 - i)
    ctx.label(k, f"v{v}", str(pub), "own" if case["own"] else "suite", dmg)
    alg, octets = trad_priv(key)
    if k.startswith("rsa-kem"):
        alg = D.seq(D.oid(str(key.get_oid())))
    rp = trad_spk(unwrap(key))
    if v == 0 and pub:
        raise Skip("version 0 with a public key is a negative test structure")
    if case["own"] or k.startswith("rsa-kem"):
        der = one_asym(v, alg, octets, rp if v and pub else None)
        if k.startswith("rsa-kem"):
            got = D.split(ctx.accepts("export", key.private_bytes, ser.Encoding.DER, ser.PrivateFormat.PKCS8, ser.NoEncryption()))
            ctx.eq((got[1], body(got[2])), (alg, octets), "RSA-KEM key")
    else:
        der = ctx.accepts("export", F.save_private_key_one_asym_key, key, password=None, version=v, include_public_key=pub)
        want_pub = rp if pub is not False and v == 1 or pub else None
        ctx.eq(der, one_asym(v, alg, octets, want_pub), "the exported structure")
    if dmg == "none":
        got = ctx.accepts("loading", load, der)
        return same(ctx, got, key, "loaded")
    n = 1 + p % 3
    bad_pub, bad_oct, vv = rp, octets, 1
    if dmg == "pub":
        bad_pub = trad_spk(unwrap(other))
    elif dmg == "publen":
        bad_pub = rp + bytes(n) if p & 8 else rp[:-n]
    elif dmg == "trailing":
        bad_pub = None if p & 4 else rp
        bad_oct = octets + bytes(n) if p & 8 else octets[:-n]
    elif dmg == "v0pub":
        vv = 0
    elif dmg == "version":
        vv = 2 + p % 3
    refuse(ctx, f"inconsistent material ({dmg})", one_asym(vv, alg, bad_oct, bad_pub))


# ------------------------------------------------------------------ public keys
spki_case = st.fixed_dictionaries({"k": st.sampled_from(ML * 3 + SLH + FRODO[:2] + FRODO[3:] + TRAD + COMP_SIG + COMP_KEM[:7] + COMP_KEM[8:] + CHEM[:5] + ["xwing", "rsa-kem:rsa2048"]), "i": st.integers(0, 1), "way": st.sampled_from(["spki", "spki", "pem", "cert", "template"]),
                                   "dmg": st.sampled_from(["none"] * 3 + ["len", "params", "alg", "rest"]), "p": st.integers(0, 1 << 20)})


def want_spki(k, key):
    if k in TRAD:
        return key.public_key().public_bytes(ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo)
    if k.startswith("rsa-kem"):
        return D.seq(D.seq(D.oid(str(key.get_oid()))), D.tlv(3, b"\0" + unwrap(key).public_key().public_bytes(ser.Encoding.DER, ser.PublicFormat.PKCS1)))
    return D.seq(D.seq(D.oid(oid_of(k, key))), D.tlv(3, b"\0" + raw_pub(k, key)))


def spki(case, ctx):
    k, i, way, dmg, p = case["k"], case["i"], case["way"], case["dmg"], case["p"]
    key = get(k, i)
    pub = key.public_key()
    ctx.label(k.split(":")[0] + (" " + k.split(":")[-1] if ":" in k else ""), way, dmg)
    want = want_spki(k, key)
    algs = [a for a in comp.ALGS if a.key == k] if k.startswith("composite-sig") else []
    pss = False
    if algs:
        # the same key material serves the PKCS#1 v1.5 and the PSS algorithm
        a = algs[p % len(algs)]
        pss = a.pss
        want = D.seq(D.seq(D.oid(a.oid)), D.split(want)[1])
    if not k.startswith("rsa-kem"):
        made = ctx.accepts("prepare_subject_public_key_info", K.prepare_subject_public_key_info, key if p % 2 else pub, use_rsa_pss=pss)
        ctx.eq(cmpx.enc(made), want, "SubjectPublicKeyInfo")
    if k not in TRAD and not (k.startswith("composite-sig") and ":rsa" in k):
        ctx.eq(ctx.accepts("public_bytes", pub.public_bytes, ser.Encoding.DER, ser.PublicFormat.SubjectPublicKeyInfo), want, "public_bytes")
    if dmg == "none":
        if way == "spki":
            got = ctx.accepts("loading", K.load_public_key_from_spki, want)
        elif way == "pem":
            d = scratch()
            f = os.path.join(d, "pub.pem")
            b64 = base64.b64encode(want).decode()
            head = ["PUBLIC KEY", "ML-DSA PUBLIC KEY", "PQ PUBLIC KEY"][p % 3]
            if p % 5 == 0 and k not in TRAD:
                text = pub.public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo).decode()
            else:
                text = f"-----BEGIN {head}-----\n" + "\n".join(textwrap.wrap(b64, 64)) + f"\n-----END {head}-----\n"
            with open(f, "w", encoding="ascii") as h:
                h.write(text)
            got = ctx.accepts("loading a PEM file", K.load_public_key_from_file, f)
        elif way == "cert":
            cert = certutils.parse_certificate(foreign(want))
            got = ctx.accepts("loading from a certificate", certutils.load_public_key_from_cert, cert)
        else:
            from resources import certbuildutils as CB
            t = ctx.accepts("preparing a template", lambda: CB.prepare_cert_template(key=key, subject="CN=a", spki=made if pss or p % 2 else None))
            got = ctx.accepts("loading from a template", K.load_public_key_from_cert_template, t)
        ctx.eq(pub_id(got), pub_id(pub), "the loaded public key")
        ctx.nontrivial()
        return
    a, b = D.split(want)
    if dmg == "len":
        n = 1 + p % 3
        raw = body(b)[1:]
        bad = D.seq(a, D.tlv(3, b"\0" + (raw + bytes(n) if p & 8 else raw[:-n])))
    elif dmg == "params":
        if k in TRAD or k.startswith("rsa-kem") or k not in ML + SLH + FRODO:
            raise Skip("parameters")
        bad = D.seq(D.seq(cmpx.algid(a)[0], D.tlv(5, b"")), b)
    elif dmg == "alg":
        if k not in OTHER_PARAM:
            raise Skip("no other parameter set")
        bad = D.seq(D.seq(D.oid(OID[OTHER_PARAM[k]])), b)
    else:
        bad = want + b"\0" * (1 + p % 3)
    ctx.rejects(f"a damaged SubjectPublicKeyInfo ({dmg})", K.load_public_key_from_spki, bad, exc=Exception)
    ctx.nontrivial()


# ------------------------------------------------------------------ files
FILES = ML[:1] + ML[3:4] + ["ml-kem-1024", "slh-dsa-sha2-128f", "frodokem-640-shake", "xwing", "composite-sig:ml-dsa-44:rsa2048", "composite-sig:ml-dsa-65:ed25519", "composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:ec:secp384r1",
                            "composite-dhkem:ml-kem-768:x25519", "chempat:ml-kem-768:x25519", "chempat:ml-kem-768:ec:secp256r1", "hss_lms_sha256_m32_h5_lmots_sha256_n32_w8"] + ["rsa2048", "ec:secp256r1", "ec:brainpoolP256r1", "ed25519", "ed448", "x25519", "x448"]
HEADER = "# SPDX-FileCopyrightText: Copyright 2024 Siemens AG\n#\n# SPDX-License-Identifier: Apache-2.0\n\n"
file_case = st.fixed_dictionaries({"k": st.sampled_from(FILES), "i": st.integers(0, 1), "pw": st.one_of(st.none(), st.sampled_from(["11111", "pass word", "pässwörd", "x" * 100, "0"])), "typ": st.sampled_from(["seed", "raw", "seed_and_raw"]),
                                   "old": st.booleans(), "around": st.sampled_from(["none", "none", "licence", "crlf", "licence+crlf", "blank"]), "dmg": st.sampled_from(["none", "none", "none", "pw", "pw", "text"]), "p": st.integers(0, 1 << 20)})


def file(case, ctx):
    k, i, pw, typ, p = case["k"], case["i"], case["pw"], case["typ"], case["p"]
    key = get(k, i)
    if k.startswith("hss"):
        typ = "seed"
    if k.startswith("composite"):
        typ = "seed"
    old = case["old"] and k in ML
    ctx.label(k.split(":")[0], "pw" if pw else "plain", typ, case["around"], case["dmg"])
    f = os.path.join(scratch(), "key.pem")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.accepts("saving", K.save_key, key, f, pw, save_type=typ, save_old=old)
    with open(f, "rb") as h:
        data = h.read()
    ctx.check(b"PRIVATE KEY-----" in data, "a PEM file")
    if pw:
        secret = secret_of(key)
        plain = base64.b64decode(b"".join(x for x in data.splitlines() if b":" not in x and b"---" not in x))
        ctx.check(all(s not in plain for s in secret), "the file shows the key although a password was given")
    if "licence" in case["around"]:
        data = HEADER.encode() + data
    if case["around"] == "blank":
        data = b"\n\n" + data + b"\n\n"
    if "crlf" in case["around"]:
        data = data.replace(b"\n", b"\r\n")
    if case["dmg"] == "text":
        lines = [j for j, c in enumerate(data) if 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57]
        start = data.index(b"PRIVATE KEY-----") + 16
        end = data.index(b"-----END")
        spots = [j for j in lines if start + 130 < j < end - 4]
        if not spots:
            raise Skip("too short")
        j = spots[p % len(spots)]
        data = data[:j] + data[j + 1:]
    with open(f, "wb") as h:
        h.write(data)
    if case["dmg"] == "pw":
        wrong = {None: "11111"}.get(pw, (pw or "") + "1")
        if pw is None:
            try:
                got = K.load_private_key_from_file(f, wrong)
            except Exception:  # pylint: disable=broad-except
                ctx.nontrivial()
                return
            return same(ctx, got, key, "loaded although no password was needed")
        if p % 4 == 0:
            ctx.rejects("loading without the password", K.load_private_key_from_file, f, None, exc=Exception)
        ctx.rejects("loading with a wrong password", K.load_private_key_from_file, f, wrong, exc=Exception)
        ctx.nontrivial()
        return
    if case["dmg"] == "text":
        ctx.rejects("loading a damaged file", K.load_private_key_from_file, f, pw, exc=Exception)
        ctx.nontrivial()
        return
    got = ctx.accepts("loading", K.load_private_key_from_file, f, pw)
    if k.startswith("hss"):
        ctx.eq(got.public_key().public_bytes_raw(), key.public_key().public_bytes_raw(), "public key of the HSS key")
        ctx.eq(got.private_bytes_raw(), key.private_bytes_raw(), "HSS key")
        ctx.nontrivial()
        return
    same(ctx, got, key, "loaded")


def secret_of(key):
    if hasattr(key, "pq_key"):
        return secret_of(key.pq_key) + secret_of(unwrap(key.trad_key))
    if hasattr(key, "private_bytes_raw"):
        out = [bytes(key.private_bytes_raw())[:32]]
        try:
            out.append(seed_of(key)[:32])
        except Exception:  # pylint: disable=broad-except
            pass
        return out
    if isinstance(key, ec.EllipticCurvePrivateKey):
        return [key.private_numbers().private_value.to_bytes((key.curve.key_size + 7) // 8, "big")]
    return [key.private_numbers().d.to_bytes(256, "big")]


SUBS = [
    Sub("pq", pq_case, pq, quick=150, thorough=12000, shards=3, text="post-quantum keys in all encodings"),
    Sub("hybrid", hybrid_case, hybrid, quick=110, thorough=12000, shards=3, text="composite, X-Wing and Chempat keys"),
    Sub("trad", trad_case, trad, quick=150, thorough=6000, shards=1, text="traditional and RSA-KEM keys"),
    Sub("spki", spki_case, spki, quick=120, thorough=8000, shards=2, text="public keys in SubjectPublicKeyInfo, PEM, certificates and templates"),
    Sub("file", file_case, file, quick=90, thorough=5000, shards=3, text="key files with and without password"),
]
