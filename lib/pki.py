"""Certificates assembled field by field, without the certificate builder of the suite."""
import datetime
import functools
import hashlib

from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec as cec, padding

from lib import cmpx, der as D, keys

UTC = datetime.timezone.utc
NOW = 1772020800
DAY = 86400
HASHES = {"sha1": hashes.SHA1(), "sha224": hashes.SHA224(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512()}
EC_OID = {"sha1": "1.2.840.10045.4.1", "sha224": "1.2.840.10045.4.3.1", "sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3", "sha512": "1.2.840.10045.4.3.4"}
RSA_OID = {"sha1": "1.2.840.113549.1.1.5", "sha224": "1.2.840.113549.1.1.14", "sha256": "1.2.840.113549.1.1.11", "sha384": "1.2.840.113549.1.1.12", "sha512": "1.2.840.113549.1.1.13"}
HASH_OID = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}
ML = {"ml-dsa-44": 17, "ml-dsa-65": 18, "ml-dsa-87": 19}


def name(*rdns):
    """Name DER; an entry is a CN text or (OID, text)."""
    return D.seq(*[D.set_of(D.seq(D.oid("2.5.4.3" if isinstance(r, str) else r[0]), D.utf8(r if isinstance(r, str) else r[1]))) for r in rdns])


def stamp(t):
    d = datetime.datetime.fromtimestamp(t, UTC)
    return D.gtime(d.strftime("%Y%m%d%H%M%SZ")) if d.year >= 2050 else D.utime(d.strftime("%y%m%d%H%M%SZ"))


@functools.lru_cache(maxsize=None)
def spki(key, i=0):
    from resources import convertutils
    return cmpx.enc(convertutils.subject_public_key_info_from_pubkey(keys.get(key, i).public_key()))


def kid(key, i=0):
    b = D.split(spki(key, i))[1]
    _t, _h, c, e = D.read(b)
    return hashlib.sha1(b[c + 1:e]).digest()


def pss_params(h):
    hh = D.seq(D.oid(HASH_OID[h]), D.null())
    return D.seq(D.ctx(0, hh), D.ctx(1, D.seq(D.oid("1.2.840.113549.1.1.8"), hh)), D.ctx(2, D.integer(hashlib.new(h).digest_size)))


def alg(key, h="sha256", pss=False):
    if key.startswith("rsa"):
        return D.seq(D.oid("1.2.840.113549.1.1.10"), pss_params(h)) if pss else D.seq(D.oid(RSA_OID[h]), D.null())
    if key.startswith("ec:"):
        return D.seq(D.oid(EC_OID[h]))
    if key in ML:
        return D.seq(D.oid("2.16.840.1.101.3.4.3.%d" % ML[key]))
    return D.seq(D.oid({"ed25519": "1.3.101.112", "ed448": "1.3.101.113"}[key]))


def sign(key, i, data, h="sha256", pss=False):
    k = keys.get(key, i)
    if key.startswith("rsa"):
        hh = HASHES[h]
        return k.sign(data, padding.PSS(padding.MGF1(hh), hh.digest_size) if pss else padding.PKCS1v15(), hh)
    if key.startswith("ec:"):
        return k.sign(data, cec.ECDSA(HASHES[h]))
    return k.sign(data)


def ext(oid, value, critical=False):
    return D.seq(D.oid(oid), *([D.boolean(True)] if critical else []), D.octets(value))


def bc(ca=True, path=None, critical=True):
    return ext("2.5.29.19", D.seq(*([D.boolean(True)] if ca else []), *([D.integer(path)] if path is not None else [])), critical)


KU = ["digitalSignature", "nonRepudiation", "keyEncipherment", "dataEncipherment", "keyAgreement", "keyCertSign", "cRLSign", "encipherOnly", "decipherOnly"]


def ku(*names, critical=True):
    return ext("2.5.29.15", D.bits_from_set({KU.index(n) for n in names}), critical)


def eku(*oids, critical=False):
    return ext("2.5.29.37", D.seq(*[D.oid(o) for o in oids]), critical)


def ski(key, i=0):
    return ext("2.5.29.14", D.octets(kid(key, i)))


def aki(key, i=0):
    return ext("2.5.29.35", D.seq(D.retag(0, D.octets(kid(key, i)))))


def make(subject, key, issuer=None, by=None, serial=1, nb=NOW - 30 * DAY, na=NOW + 365 * DAY, exts=(), h="sha256", pss=False, spoil=None):
    """DER of a certificate for key=(name, index), signed by the key `by` in the name `issuer`."""
    by, issuer = by or key, issuer if issuer is not None else subject
    a = alg(by[0], h, pss)
    tbs = D.seq(D.ctx(0, D.integer(2)), D.integer(serial), a, issuer, D.seq(stamp(nb), stamp(na)), subject, spki(*key), *([D.ctx(3, D.seq(*exts))] if exts else []))
    sig = sign(by[0], by[1], tbs, h, pss)
    if spoil is not None:
        sig = bytearray(sig)
        sig[spoil % len(sig)] ^= 1 << (spoil % 7)
        sig = bytes(sig)
    return D.seq(tbs, a, D.bits(sig))


def obj(der):
    from pyasn1.codec.der import decoder
    from pyasn1_alt_modules import rfc9480
    c, rest = decoder.decode(der, asn1Spec=rfc9480.CMPCertificate())
    assert not rest
    return c
