"""Elliptic curve arithmetic (affine, textbook) and RFC 8017 PSS encoding, for oracles."""
import hashlib

from tinyec import registry


class Curve:
    def __init__(self, name):
        c = registry.EC_CURVE_REGISTRY[name]
        self.p, self.a, self.b, self.g, self.n, self.h = c["p"], c["a"], c["b"], tuple(c["g"]), c["n"], c["h"]
        self.size = (self.p.bit_length() + 7) // 8

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            m = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (m * m - P[0] - Q[0]) % p
        return x, (m * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def avf(self, P):
        """SP 800-56A 5.7.2.2."""
        f = (self.n.bit_length() + 1) // 2
        return P[0] % (1 << f) + (1 << f)

    def fe(self, x):
        return x.to_bytes(self.size, "big")


def mqv_u(c, ds, de, qs_v):
    """One-pass MQV, party U (static ds, ephemeral de) with the static key of V."""
    qe = c.mul(de, c.g)
    s = (de + c.avf(qe) * ds) % c.n
    return c.fe(c.mul(c.h * s % c.n, c.add(qs_v, c.mul(c.avf(qs_v), qs_v)))[0])


def pss_verify(n, e, sig, data, hashf, mgf, hlen, slen):
    """EMSA-PSS-VERIFY with arbitrary hash and MGF; slen=None: any."""
    bits = n.bit_length() - 1
    emlen = (bits + 7) // 8
    k = (n.bit_length() + 7) // 8
    if len(sig) != k or int.from_bytes(sig, "big") >= n:
        return False
    m = pow(int.from_bytes(sig, "big"), e, n)
    if m.bit_length() > 8 * emlen:
        return False
    em = m.to_bytes(emlen, "big")
    if em[-1] != 0xBC or emlen < hlen + (slen or 0) + 2:
        return False
    mdb, h = em[:emlen - hlen - 1], em[emlen - hlen - 1:-1]
    z = 8 * emlen - bits
    if mdb[0] >> (8 - z) if z else 0:
        return False
    db = bytearray(a ^ b for a, b in zip(mdb, mgf(h, len(mdb))))
    if z:
        db[0] &= 0xFF >> z
    i = db.index(1) if 1 in db else -1
    if i < 0 or any(db[:i]):
        return False
    salt = bytes(db[i + 1:])
    if slen is not None and len(salt) != slen:
        return False
    return hashf(bytes(8) + hashf(data) + salt) == h


def pss_sign(n, d, data, hashf, mgf, hlen, salt):
    bits = n.bit_length() - 1
    emlen = (bits + 7) // 8
    h = hashf(bytes(8) + hashf(data) + salt)
    db = bytes(emlen - hlen - len(salt) - 2) + b"\x01" + salt
    m = bytearray(a ^ b for a, b in zip(db, mgf(h, len(db))))
    z = 8 * emlen - bits
    if z:
        m[0] &= 0xFF >> z
    em = bytes(m) + h + b"\xbc"
    return pow(int.from_bytes(em, "big"), d, n).to_bytes((n.bit_length() + 7) // 8, "big")


def shake(name, size):
    f = {"shake128": hashlib.shake_128, "shake256": hashlib.shake_256}[name]
    return (lambda x: f(x).digest(size)), (lambda s, ln: f(s).digest(ln))


def mgf1(hname):
    def f(seed, ln):
        out, i = b"", 0
        while len(out) < ln:
            out += hashlib.new(hname, seed + i.to_bytes(4, "big")).digest()
            i += 1
        return out[:ln]
    return f
