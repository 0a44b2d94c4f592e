"""Composite ML-DSA signatures (draft-ietf-lamps-pq-composite-sigs), written from the draft, independent of the suite."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding, rsa

from lib import fips
from lib import keys

PREFIX = b"CompositeAlgorithmSignatures2025"
# label, last arc below 1.3.6.1.5.5.7.6, pq, traditional key, pss, pre-hash, inner hash
_T = [
    ("MLDSA44-RSA2048-PSS-SHA256", "rsa2048", True, "sha256"),
    ("MLDSA44-RSA2048-PKCS15-SHA256", "rsa2048", False, "sha256"),
    ("MLDSA44-Ed25519-SHA512", "ed25519", False, None),
    ("MLDSA44-ECDSA-P256-SHA256", "ec:secp256r1", False, "sha256"),
    ("MLDSA65-RSA3072-PSS-SHA512", "rsa3072", True, "sha256"),
    ("MLDSA65-RSA3072-PKCS15-SHA512", "rsa3072", False, "sha256"),
    ("MLDSA65-RSA4096-PSS-SHA512", "rsa4096", True, "sha384"),
    ("MLDSA65-RSA4096-PKCS15-SHA512", "rsa4096", False, "sha384"),
    ("MLDSA65-ECDSA-P256-SHA512", "ec:secp256r1", False, "sha256"),
    ("MLDSA65-ECDSA-P384-SHA512", "ec:secp384r1", False, "sha384"),
    ("MLDSA65-ECDSA-BP256-SHA512", "ec:brainpoolP256r1", False, "sha256"),
    ("MLDSA65-Ed25519-SHA512", "ed25519", False, None),
    ("MLDSA87-ECDSA-P384-SHA512", "ec:secp384r1", False, "sha384"),
    ("MLDSA87-ECDSA-BP384-SHA512", "ec:brainpoolP384r1", False, "sha384"),
    ("MLDSA87-Ed448-SHAKE256", "ed448", False, None),
    ("MLDSA87-RSA3072-PSS-SHA512", "rsa3072", True, "sha256"),
    ("MLDSA87-RSA4096-PSS-SHA512", "rsa4096", True, "sha384"),
    ("MLDSA87-ECDSA-P521-SHA512", "ec:secp521r1", False, "sha512"),
]
SIG_LEN = {"ml-dsa-44": 2420, "ml-dsa-65": 3309, "ml-dsa-87": 4627}
HASH = {"sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512()}


class Alg:
    def __init__(self, i, label, trad, pss, inner):
        self.label = b"COMPSIG-" + label.encode()
        self.oid = f"1.3.6.1.5.5.7.6.{37 + i}"
        self.pq = "ml-dsa-" + label[5:7]
        self.trad, self.pss, self.inner = trad, pss, inner
        ph = label.rsplit("-", 1)[1].lower()
        self.prehash = (lambda d: hashlib.shake_256(d).digest(64)) if ph == "shake256" else (lambda d: hashlib.new(ph, d).digest())
        self.name = label
        self.key = f"composite-sig:{self.pq}:{trad}"
        self.siglen = SIG_LEN[self.pq]

    def mprime(self, data, ctx=b""):
        return PREFIX + self.label + bytes([len(ctx)]) + ctx + self.prehash(data)

    def trad_verify(self, pub, m, sig):
        try:
            if isinstance(pub, rsa.RSAPublicKey):
                h = HASH[self.inner]
                pub.verify(sig, m, padding.PSS(padding.MGF1(h), h.digest_size) if self.pss else padding.PKCS1v15(), h)
            elif isinstance(pub, ec.EllipticCurvePublicKey):
                pub.verify(sig, m, ec.ECDSA(HASH[self.inner]))
            else:
                pub.verify(sig, m)
            return True
        except InvalidSignature:
            return False

    def trad_sign(self, key, m):
        if isinstance(key, rsa.RSAPrivateKey):
            h = HASH[self.inner]
            return key.sign(m, padding.PSS(padding.MGF1(h), h.digest_size) if self.pss else padding.PKCS1v15(), h)
        if isinstance(key, ec.EllipticCurvePrivateKey):
            return key.sign(m, ec.ECDSA(HASH[self.inner]))
        return key.sign(m)

    def verify(self, i, data, sig, ctx=b""):
        """(pq part valid, traditional part valid) under key number i."""
        m = self.mprime(data, ctx)
        pk = keys.get(self.pq, i).public_key().public_bytes_raw()
        return (fips.dsa_verify(self.pq, pk, m, sig[:self.siglen], self.label), self.trad_verify(keys.get(self.trad, i).public_key(), m, sig[self.siglen:]))


ALGS = [Alg(i, *t) for i, t in enumerate(_T)]
BY_NAME = {a.name: a for a in ALGS}
