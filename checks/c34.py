"""C34: primitives and key derivations equal their specifications."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec as cec
from cryptography.hazmat.primitives.asymmetric import padding
from hypothesis import strategies as st
from pyasn1.codec.der import decoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc9480

from checks.c02 import HASH_OID, HMAC_OID, SHA, SHA3, expected
from lib import der as D
from lib import ec as E
from lib import keys, ref
from lib.harness import Sub
from resources import cryptoutils as CU
from resources import envdatautils, protectionutils
from resources.oid_mapping import compute_hash

PROPERTY = "C34"
TECHNIQUE = "differential testing of the primitives against independent implementations over generated keys, data and parameters"
RULE = ("Keys, data, salts, lengths, iteration counts, hashes and curves are generated, boundary sizes and leading-zero results included. "
        "Non-trivial: a value was compared with an independent computation or a round trip was completed.")
ASSUMPTIONS = ["hashlib, the AES block function, the signature and ECDH functions of cryptography are correct; constants of the curves come from tinyec",
               "PBKDF2 with an absent keyLength or the default PRF (HMAC-SHA1 as 1.2.840.113549.2.7), PSS with SHA-3 and KMAC keys below 32 bytes are outside what the suite supports"]

ALL = SHA + SHA3
DATA = st.one_of(st.binary(max_size=300), st.sampled_from([b"", b"a", b"\x00" * 64, b"b" * 136, b"c" * 168, b"d" * 127, b"e" * 128, b"f" * 1024]))
KEY = st.one_of(st.binary(min_size=1, max_size=40), st.integers(60, 150).map(lambda n: bytes((7 * i) % 256 for i in range(n))))
SALT = st.one_of(st.binary(min_size=1, max_size=40), st.binary(min_size=16, max_size=16))


def algid(der):
    a, rest = decoder.decode(der, asn1Spec=rfc9480.AlgorithmIdentifier())
    assert not rest
    return a


def pbkdf2_params(salt, it, length, prf):
    return D.seq(D.octets(salt), D.integer(it), D.integer(length), D.seq(D.oid(HMAC_OID[prf]), D.null()))


hash_case = st.fixed_dictionaries({"f": st.sampled_from(["hash", "shake", "hmac", "kmac", "gmac", "pbmac1", "pbm", "pbkdf2", "hkdf", "x963", "kdf3", "cbc"]),
                                   "h": st.sampled_from(ALL), "h2": st.sampled_from(ALL), "key": KEY, "data": DATA, "salt": SALT, "it": st.integers(1, 40),
                                   "len": st.one_of(st.integers(1, 200), st.sampled_from([16, 20, 24, 28, 32, 33, 48, 64, 65, 128])), "info": st.binary(max_size=60), "n": st.integers(0, 2)})


def values(case, ctx):
    f, h, h2, key, data, salt, it, ln, info = (case[x] for x in ("f", "h", "h2", "key", "data", "salt", "it", "len", "info"))
    ctx.label(f, h)
    ctx.nontrivial()
    if f == "hash":
        ctx.eq(compute_hash(h, data), ref.hash_(h, data), f"compute_hash {h}")
    elif f == "shake":
        ctx.eq(compute_hash("shake128", data), hashlib.shake_128(data).digest(32), "compute_hash shake128")
        ctx.eq(compute_hash("shake256", data), hashlib.shake_256(data).digest(64), "compute_hash shake256")
    elif f == "hmac":
        ctx.eq(CU.compute_hmac(data, key, h), ref.hmac(h, key, data), f"HMAC-{h}")
    elif f == "kmac":
        k = (key * 40)[:max(32, len(key))]
        b, n, name = ((128, 32, "shake128"), (256, 64, "shake256"))[case["n"] % 2]
        ctx.eq(CU.compute_kmac(name, k, data), ref.kmac(b, k, data, n), f"KMAC-{name}")
    elif f == "gmac":
        k = (key * 40)[:(16, 24, 32)[case["n"]]]
        iv = (salt * 12)[:max(8, min(len(salt), 24))]
        ctx.eq(CU.compute_gmac(data, k, iv), ref.gmac(k, iv, data), "AES-GMAC")
    elif f == "pbmac1":
        ctx.eq(CU.compute_pbmac1(data, key, it, salt, ln, h, mac_hash_alg=h2), ref.hmac(h2, ref.pbkdf2(h, key, salt, it, ln), data), "PBMAC1")
        par = D.seq(D.oid("1.2.840.113549.1.5.14"), D.seq(D.seq(D.oid("1.2.840.113549.1.5.12"), pbkdf2_params(salt, it, ln, h)), D.seq(D.oid(HMAC_OID[h2]), D.null())))
        ctx.eq(protectionutils.compute_mac_from_alg_id(key, algid(par), data), expected(par, key, data), "PBMAC1 from AlgorithmIdentifier")
    elif f == "pbm":
        ctx.eq(CU.compute_password_based_mac(data, key, it, salt, h, mac_hash_alg=h2), ref.pbm(h, h2, key, salt, it, data), "password-based MAC")
        par = D.seq(D.oid("1.2.840.113533.7.66.13"), D.seq(D.octets(salt), D.seq(D.oid(HASH_OID[h]), D.null()), D.integer(it), D.seq(D.oid(HMAC_OID[h2]), D.null())))
        ctx.eq(protectionutils.compute_mac_from_alg_id(key, algid(par), data), expected(par, key, data), "PBM from AlgorithmIdentifier")
    elif f == "pbkdf2":
        from pyasn1_alt_modules import rfc8018
        p = pbkdf2_params(salt, it, ln, h)
        obj, _ = decoder.decode(p, asn1Spec=rfc8018.PBKDF2_params())
        want = ref.pbkdf2(h, key, salt, it, ln)
        ctx.eq(CU.compute_pbkdf2_from_parameter(obj, key), want, "PBKDF2")
        a = algid(D.seq(D.oid("1.2.840.113549.1.5.12"), p))
        ctx.eq(protectionutils.compute_kdf_from_alg_id(a, key, ln, info), want, "PBKDF2 from AlgorithmIdentifier")
    elif f == "hkdf":
        s = None if case["n"] == 0 else salt
        ctx.eq(CU.compute_hkdf(h, key, info, s, ln), ref.hkdf(h, key, s, info, ln), f"HKDF-{h}")
        oids = {"sha256": 28, "sha384": 29, "sha512": 30, "sha3_224": 32, "sha3_256": 33, "sha3_384": 34, "sha3_512": 35}
        if h in oids:
            a = algid(D.seq(D.oid("1.2.840.113549.1.9.16.3.%d" % oids[h])))
            ctx.eq(protectionutils.compute_kdf_from_alg_id(a, key, ln, info), ref.hkdf(h, key, None, info, ln), f"HKDF-{h} from AlgorithmIdentifier", key="hkdf-algid")
    elif f in ("x963", "kdf3"):
        v2 = f == "x963"
        want = (ref.x963 if v2 else ref.kdf3)(h, key, info, ln)
        ctx.eq(CU.compute_ansi_x9_63_kdf(key, ln, info, h, use_version_2=v2), want, f"{f} {h}")
        a = algid(D.seq(D.oid("1.3.133.16.840.9.44.1.%d" % (1 if v2 else 2)), D.seq(D.oid(HASH_OID[h]))))
        ctx.eq(protectionutils.compute_kdf_from_alg_id(a, key, ln, info), want, f"KDF{2 if v2 else 3} from AlgorithmIdentifier")
    else:
        k = (key * 40)[:(16, 24, 32)[case["n"]]]
        iv = (salt * 16)[:16]
        ct = CU.compute_aes_cbc(k, data, iv, decrypt=False)
        ctx.eq(ct, ref.aes_cbc_encrypt(k, iv, data), "AES-CBC encryption")
        ctx.eq(CU.compute_aes_cbc(k, ct, iv, decrypt=True), data, "AES-CBC decryption")
        bad = ct[:-1] + bytes([ct[-1] ^ 1])
        try:
            got = CU.compute_aes_cbc(k, bad, iv, decrypt=True)
        except ValueError:
            got = None
        ctx.check(got != data, "altered AES-CBC ciphertext decrypts to the plaintext")
        ctx.rejects("IV of 15 bytes", CU.compute_aes_cbc, k, data, iv[:15], decrypt=False, exc=ValueError)


wrap_case = st.fixed_dictionaries({"pw": KEY, "salt": SALT, "it": st.integers(1, 30), "h": st.sampled_from(ALL), "klen": st.sampled_from([16, 24, 32]), "cek": st.sampled_from([16, 24, 32, 40]), "b": st.binary(min_size=40, max_size=40)})


def wrap(case, ctx):
    from pyasn1_alt_modules import rfc8018
    obj, _ = decoder.decode(pbkdf2_params(case["salt"], case["it"], case["klen"], case["h"]), asn1Spec=rfc8018.PBKDF2_params())
    cek = case["b"][:case["cek"]]
    ctx.label(str(case["klen"]))
    ctx.nontrivial()
    got = envdatautils.wrap_key_password_based_key_management_technique(case["pw"], obj, cek)
    ctx.eq(got, ref.aes_wrap(ref.pbkdf2(case["h"], case["pw"], case["salt"], case["it"], case["klen"]), cek), "AES key wrap under a PBKDF2 key")


# ---------------------------------------------------------------- ECDH and MQV
CURVES = ["secp192r1", "secp224r1", "secp256r1", "secp384r1", "secp521r1", "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1"]
MQV_CURVES = ["secp224r1", "secp256r1", "secp384r1", "secp521r1", "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1"]
BY_NAME = dict(keys.CURVES, secp192r1=cec.SECP192R1)
WRAP_OID = {128: "2.16.840.1.101.3.4.1.5", 192: "2.16.840.1.101.3.4.1.25", 256: "2.16.840.1.101.3.4.1.45"}
SCALAR = st.one_of(st.integers(1, 300), st.integers(1, 2**190), st.integers(2**180, 2**520))
ecdh_case = st.fixed_dictionaries({"curve": st.sampled_from(CURVES), "a": SCALAR, "b": SCALAR, "cof": st.booleans(), "h": st.sampled_from(ALL), "bits": st.sampled_from([128, 192, 256]),
                                   "ukm": st.one_of(st.none(), st.binary(max_size=40)), "zero": st.booleans()})


def shared_info(bits, ukm):
    return D.seq(D.seq(D.oid(WRAP_OID[bits])), b"" if ukm is None else D.ctx(0, D.octets(ukm)), D.ctx(2, D.octets(bits.to_bytes(4, "big"))))


def find_zero(f, start):
    """The first of up to 400 scalars for which the shared secret has a leading zero byte."""
    for i in range(400):
        if f(start + i)[0] == 0:
            return start + i
    return start


def ecdh(case, ctx):
    name = case["curve"]
    c = E.Curve(name)
    a, b = case["a"] % (c.n - 1) + 1, case["b"] % (c.n - 1) + 1
    ka = cec.derive_private_key(a, BY_NAME[name]())
    if case["zero"]:
        pa = ka.public_key()
        b = find_zero(lambda d: cec.derive_private_key(d, BY_NAME[name]()).exchange(cec.ECDH(), pa), max(1, b - 500))
    kb = cec.derive_private_key(b, BY_NAME[name]())
    Z = c.mul(a, c.mul(b, c.g))
    want = c.fe(Z[0])
    ctx.label(name, "leading-zero" if want[0] == 0 else "-", "cofactor" if case["cof"] else "-")
    ctx.nontrivial()
    z1 = ctx.accepts("ECDH", CU.perform_ecdh, ka, kb.public_key(), use_cofactor=case["cof"])
    ctx.eq(z1, want, f"ECDH on {name}")
    ctx.eq(CU.perform_ecdh(kb, ka.public_key(), use_cofactor=case["cof"]), want, f"ECDH on {name}, other side")
    kek = ref.x963(case["h"], want, shared_info(case["bits"], case["ukm"]), case["bits"] // 8)
    oid = univ.ObjectIdentifier(WRAP_OID[case["bits"]])
    ctx.eq(CU.perform_static_dh(ka, kb.public_key(), case["h"], oid, case["ukm"], use_cofactor=case["cof"]), kek, "static ECDH key-encryption key")
    ctx.eq(CU.derive_shared_secret_ec(want, oid, case["h"], case["ukm"]), kek, "derive_shared_secret_ec")


mqv_case = st.fixed_dictionaries({"curve": st.sampled_from(MQV_CURVES), "s": SCALAR, "e": SCALAR, "r": SCALAR, "h": st.sampled_from(SHA[1:]), "bits": st.sampled_from([128, 192, 256]), "ukm": st.one_of(st.none(), st.binary(max_size=20))})


def mqv(case, ctx):
    name = case["curve"]
    c = E.Curve(name)
    s, e, r = (case[x] % (c.n - 1) + 1 for x in "ser")
    ks, ke, kr = (cec.derive_private_key(x, BY_NAME[name]()) for x in (s, e, r))
    want = E.mqv_u(c, s, e, c.mul(r, c.g))
    ctx.label(name, "leading-zero" if want[0] == 0 else "-")
    ctx.nontrivial()
    ctx.eq(ctx.accepts("MQV, sender", CU.compute_sender_ecdh_mqv_one_pass_exchange, ks, ke, kr.public_key()), want, f"one-pass MQV on {name}, sender")
    ctx.eq(ctx.accepts("MQV, recipient", CU.compute_recipient_ecdh_mqv_one_pass_exchange, kr, ks.public_key(), ke.public_key()), want, f"one-pass MQV on {name}, recipient")
    kek = ref.x963(case["h"], want, shared_info(case["bits"], case["ukm"]), case["bits"] // 8)
    ctx.eq(CU.perform_one_pass_mqv(kr, ks.public_key(), ke.public_key(), univ.ObjectIdentifier(WRAP_OID[case["bits"]]), case["h"], case["ukm"]), kek, "MQV key-encryption key")


xdh_case = st.fixed_dictionaries({"t": st.sampled_from(["x25519", "x448"]), "i": st.integers(0, 6), "j": st.integers(7, 12), "bad": st.integers(0, 3)})


def xdh(case, ctx):
    a, b = keys.get(case["t"], case["i"]), keys.get(case["t"], case["j"])
    ctx.label(case["t"])
    ctx.nontrivial()
    want = a.exchange(b.public_key())
    ctx.eq(CU.perform_ecdh(a, b.public_key()), want, case["t"])
    ctx.eq(CU.perform_ecdh(b, a.public_key()), want, case["t"] + ", other side")
    other = keys.get({"x25519": "x448", "x448": "x25519"}[case["t"]], 0) if case["bad"] % 2 else keys.get("ec:secp256r1", 0)
    ctx.rejects("agreement between different key types", CU.perform_ecdh, a, other.public_key(), exc=ValueError)


# ---------------------------------------------------------------- signatures
INST = {"sha1": hashes.SHA1, "sha224": hashes.SHA224, "sha256": hashes.SHA256, "sha384": hashes.SHA384, "sha512": hashes.SHA512,
        "sha3_224": hashes.SHA3_224, "sha3_256": hashes.SHA3_256, "sha3_384": hashes.SHA3_384, "sha3_512": hashes.SHA3_512}
sig_case = st.fixed_dictionaries({"key": st.sampled_from(["rsa2048", "rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:secp256k1", "ec:brainpoolP256r1", "ed25519", "ed448", "dsa"]),
                                  "i": st.integers(0, 1), "h": st.sampled_from(ALL), "data": DATA, "pss": st.sampled_from([False, True, "shake128", "shake256"]),
                                  "salt": st.one_of(st.none(), st.sampled_from([0, 1, 20, 32, 64])), "bad": st.sampled_from(["data", "sig", "key", "cut", "hash"]), "pick": st.integers(0, 9999)})
PSS_OID = {"shake128": "1.3.6.1.5.5.7.6.30", "shake256": "1.3.6.1.5.5.7.6.31"}


def pss_algid(h, salt):
    hh = D.seq(D.oid(HASH_OID[h]), D.null())
    return D.seq(D.oid("1.2.840.113549.1.1.10"), D.seq(D.ctx(0, hh), D.ctx(1, D.seq(D.oid("1.2.840.113549.1.1.8"), hh)), D.ctx(2, D.integer(salt))))


def signatures(case, ctx):
    name, h, data = case["key"], case["h"], case["data"]
    key, other = keys.get(name, case["i"]), keys.get(name, 1 - case["i"])
    if name == "dsa":
        h = "sha256"
    rsa = name.startswith("rsa")
    pss = case["pss"] if rsa else False
    ctx.label(name, h, str(pss))
    pub, opub = key.public_key(), other.public_key()
    raw = pub.public_numbers() if rsa else None
    h_bad = "sha512" if h != "sha512" else "sha256"
    ctx.nontrivial()
    if pss in ("shake128", "shake256"):
        size = 32 if pss == "shake128" else 64
        hf, mgf = E.shake(pss, size)
        alg = algid(D.seq(D.oid(PSS_OID[pss])))
        sig = ctx.accepts("RSASSA-PSS signing", CU.sign_data_rsa_pss, key, data, pss)
        ctx.check(E.pss_verify(raw.n, raw.e, sig, data, hf, mgf, size, size), f"RSASSA-PSS-{pss} signature is not the one of RFC 8702", key="pss-shake")
        own = E.pss_sign(raw.n, key.private_numbers().d, data, hf, mgf, size, b"s" * size)
        ctx.accepts("verifying an RFC 8702 signature", protectionutils.verify_rsassa_pss_from_alg_id, pub, data, own, alg, key="pss-shake")
        ver = lambda p, s, d, hh: protectionutils.verify_rsassa_pss_from_alg_id(p, d, s, alg)
    elif pss:
        if h.startswith("sha3"):
            h = "sha384"
            h_bad = "sha256"
        hl = hashlib.new(h).digest_size
        salt = case["salt"]
        sig = ctx.accepts("RSASSA-PSS signing", CU.sign_data_rsa_pss, key, data, h, salt)
        n = hl if salt is None else salt
        ctx.check(E.pss_verify(raw.n, raw.e, sig, data, lambda x: hashlib.new(h, x).digest(), E.mgf1(h), hl, n), f"RSASSA-PSS-{h} signature with a salt of {n} bytes is wrong")
        own = E.pss_sign(raw.n, key.private_numbers().d, data, lambda x: hashlib.new(h, x).digest(), E.mgf1(h), hl, b"s" * n)
        ctx.accepts("verifying a correct PSS signature", protectionutils.verify_rsassa_pss_from_alg_id, pub, data, own, algid(pss_algid(h, n)))
        wrong = algid(pss_algid(h, n + 1))
        ctx.rejects("PSS with another salt length", protectionutils.verify_rsassa_pss_from_alg_id, pub, data, own, wrong, exc=(InvalidSignature, ValueError))
        ctx.accepts("verifying a PSS signature", CU.verify_signature, pub, own, data, h, use_rsa_pss=True, salt_length=n)
        if salt is None:
            sig = CU.sign_data(data, key, h, use_rsa_pss=True)
        ver = lambda p, s, d, hh: CU.verify_signature(p, s, d, hh, use_rsa_pss=True, salt_length=n)
    else:
        hi = INST[h]()
        sig = ctx.accepts("signing", CU.sign_data, data, key, h)
        if rsa:
            ctx.eq(sig, key.sign(data, padding.PKCS1v15(), hi), "RSA PKCS#1 signature")
            own = sig
        elif name.startswith("ec:"):
            ctx.accepts("reference verification", pub.verify, sig, data, cec.ECDSA(hi))
            own = key.sign(data, cec.ECDSA(hi))
        elif name == "dsa":
            ctx.accepts("reference verification", pub.verify, sig, data, hi)
            own = key.sign(data, hi)
        else:
            own = key.sign(data)
            ctx.eq(sig, own, name + " signature")
        ver = CU.verify_signature
    ctx.accepts("verifying", ver, pub, own, data, h)
    ctx.accepts("verifying", ver, pub, sig, data, h)
    bad, p = case["bad"], case["pick"]
    b = bytearray(sig)
    if bad == "sig":
        b[p % len(b)] ^= 1 << (p % 8)
        args = (pub, bytes(b), data, h)
    elif bad == "cut":
        args = (pub, sig[:-1 - p % 3], data, h)
    elif bad == "data":
        args = (pub, sig, data + b"\x00", h)
    elif bad == "hash" and not name.startswith("ed") and pss not in ("shake128", "shake256"):
        args = (pub, sig, data, h_bad)
    else:
        args = (opub, sig, data, h)
    ctx.rejects(f"signature with another {bad}", ver, *args, exc=(InvalidSignature, ValueError))


SUBS = [
    Sub("values", hash_case, values, quick=2400, thorough=60000, shards=2, text="hashes, MACs, key derivations and AES-CBC equal the reference"),
    Sub("wrap", wrap_case, wrap, quick=150, thorough=3000, shards=1, text="AES key wrap under a PBKDF2 key"),
    Sub("ecdh", ecdh_case, ecdh, quick=150, thorough=4000, shards=2, text="ECDH and the CMS key-encryption keys"),
    Sub("mqv", mqv_case, mqv, quick=140, thorough=4000, shards=3, text="one-pass MQV"),
    Sub("xdh", xdh_case, xdh, quick=60, thorough=300, shards=1, text="X25519 and X448"),
    Sub("signatures", sig_case, signatures, quick=500, thorough=12000, shards=2, text="signature functions against independent verification"),
]
