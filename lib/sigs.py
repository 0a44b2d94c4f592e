"""Signature verification by AlgorithmIdentifier and SubjectPublicKeyInfo (DER), without the suite."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec as cec, padding, rsa

from lib import comp, der as D, ec as E, fips

H = {"sha1": hashes.SHA1(), "sha224": hashes.SHA224(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512(), "sha3_224": hashes.SHA3_224(), "sha3_256": hashes.SHA3_256(),
     "sha3_384": hashes.SHA3_384(), "sha3_512": hashes.SHA3_512()}
P1 = "1.2.840.113549.1.1."
P3 = "2.16.840.1.101.3.4.3."
HASHOID = {"1.3.14.3.2.26": "sha1", "2.16.840.1.101.3.4.2.4": "sha224", "2.16.840.1.101.3.4.2.1": "sha256", "2.16.840.1.101.3.4.2.2": "sha384", "2.16.840.1.101.3.4.2.3": "sha512"}
RSA = {P1 + "5": "sha1", P1 + "14": "sha224", P1 + "11": "sha256", P1 + "12": "sha384", P1 + "13": "sha512", P3 + "13": "sha3_224", P3 + "14": "sha3_256", P3 + "15": "sha3_384", P3 + "16": "sha3_512"}
EC = {"1.2.840.10045.4.1": "sha1", "1.2.840.10045.4.3.1": "sha224", "1.2.840.10045.4.3.2": "sha256", "1.2.840.10045.4.3.3": "sha384", "1.2.840.10045.4.3.4": "sha512",
      P3 + "9": "sha3_224", P3 + "10": "sha3_256", P3 + "11": "sha3_384", P3 + "12": "sha3_512"}
ED = {"1.3.101.112": "ed25519", "1.3.101.113": "ed448"}
ML = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
SLH = [f"slh-dsa-{h}-{n}{s}" for h in ("sha2", "shake") for n in (128, 192, 256) for s in "sf"]
MLLEN = {"ml-dsa-44": 1312, "ml-dsa-65": 1952, "ml-dsa-87": 2592}
COMP = {a.oid: a for a in comp.ALGS}


def slh_prehash(n):
    """RFC 9814: the hash function of the pre-hash variant of a parameter set."""
    if "sha2" in n:
        return "sha256" if "128" in n else "sha512"
    return "shake128" if "128" in n else "shake256"


def oid_str(der):
    _t, _h, c, e = D.read(der)
    v, out = 0, []
    for b in der[c:e]:
        v = v << 7 | b & 127
        if not b & 128:
            out.append(v)
            v = 0
    a = min(out[0] // 40, 2)
    return ".".join(map(str, [a, out[0] - 40 * a] + out[1:]))


def raw(spki):
    _t, _h, c, e = D.read(D.split(spki)[1])
    return spki_alg(spki), D.split(spki)[1][c + 1:e]


def spki_alg(spki):
    return oid_str(D.split(D.split(spki)[0])[0])


def bits(der):
    """Octets of a BIT STRING."""
    _t, _h, c, e = D.read(der)
    return der[c + 1:e]


def verify(alg, spki, data, sig):
    """True if `sig` is a signature of `data` by the key with exactly the named algorithm; False for every mismatch."""
    parts = D.split(alg)
    oid = oid_str(parts[0])
    try:
        if oid in COMP:
            return _composite(COMP[oid], spki, data, sig)
        if oid in RSA or oid in EC or oid in ED or oid == P1 + "10":
            if not spki_alg(spki) in (P1 + "1", P1 + "10", "1.2.840.10045.2.1", "1.3.101.112", "1.3.101.113"):
                return False
            pub = serialization.load_der_public_key(spki)
            if oid in ED:
                if spki_alg(spki) != oid:
                    return False
                pub.verify(sig, data)
            elif oid in EC:
                if not isinstance(pub, cec.EllipticCurvePublicKey):
                    return False
                pub.verify(sig, data, cec.ECDSA(H[EC[oid]]))
            else:
                if not isinstance(pub, rsa.RSAPublicKey):
                    return False
                if oid in RSA:
                    pub.verify(sig, data, padding.PKCS1v15(), H[RSA[oid]])
                else:
                    h, size = "sha1", 20
                    for x in D.split(parts[1]):
                        if x[0] == 0xA0:
                            h = HASHOID[oid_str(D.split(D.split(x)[0])[0])]
                        if x[0] == 0xA2:
                            size = D.split(x)[0][2]
                    n = pub.public_numbers()
                    return E.pss_verify(n.n, n.e, sig, data, lambda m: hashlib.new(h, m).digest(), E.mgf1(h), hashlib.new(h).digest_size, size)
            return True
    except InvalidSignature:
        return False
    if not oid.startswith(P3) or len(parts) != 1:
        return False
    n = int(oid.rsplit(".", 1)[1])
    koid, pk = raw(spki)
    if 17 <= n <= 19 or 32 <= n <= 34:
        name = ML[n - 17] if n < 20 else ML[n - 32]
        if koid not in (P3 + str(17 + ML.index(name)), P3 + str(32 + ML.index(name))) or len(pk) != MLLEN[name]:
            return False
        return fips.dsa_verify(name, pk, data, sig, b"", None if n < 20 else "sha512")
    if 20 <= n <= 31 or 35 <= n <= 46:
        name = SLH[n - 20] if n < 32 else SLH[n - 35]
        if koid not in (P3 + str(20 + SLH.index(name)), P3 + str(35 + SLH.index(name))):
            return False
        return fips.Slh(name).verify(pk, data, sig, b"", None if n < 32 else slh_prehash(name))
    return False


def _composite(a, spki, data, sig):
    koid, pk = raw(spki)
    if koid != a.oid:
        return False
    n = MLLEN[a.pq]
    m = a.mprime(data, b"")
    t = pk[n:]
    if a.trad.startswith("rsa"):
        pub = serialization.load_der_public_key(D.seq(D.seq(D.oid(P1 + "1"), D.null()), D.bits(t)))
    elif a.trad.startswith("ec:"):
        curve = {"secp256r1": cec.SECP256R1, "secp384r1": cec.SECP384R1, "secp521r1": cec.SECP521R1, "brainpoolP256r1": cec.BrainpoolP256R1, "brainpoolP384r1": cec.BrainpoolP384R1}[a.trad[3:]]
        pub = cec.EllipticCurvePublicKey.from_encoded_point(curve(), t)
    else:
        pub = serialization.load_der_public_key(D.seq(D.seq(D.oid("1.3.101.112" if a.trad == "ed25519" else "1.3.101.113")), D.bits(t)))
    return fips.dsa_verify(a.pq, pk[:n], m, sig[:a.siglen], a.label) and a.trad_verify(pub, m, sig[a.siglen:])


def cert_ok(cert, issuer_spki):
    """Verdict on the signature of a certificate (or CRL)."""
    tbs, alg, s = D.split(cert)
    return verify(alg, issuer_spki, tbs, bits(s))
