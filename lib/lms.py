"""LMS and HSS signature verification written from RFC 8554 (and SP 800-208 for the other hashes)."""
import hashlib
from math import ceil, floor, log2


def _h(kind, n):
    return (lambda x: hashlib.sha256(x).digest()[:n]) if kind == "sha256" else (lambda x: hashlib.shake_256(x).digest(n))


LMS = {}
OTS = {}
for _k, (_kind, _n) in enumerate([("sha256", 32), ("sha256", 24), ("shake", 32), ("shake", 24)]):
    for _j, _height in enumerate((5, 10, 15, 20, 25)):
        LMS[5 + 5 * _k + _j] = (_kind, _n, _height)
    for _j, _w in enumerate((1, 2, 4, 8)):
        OTS[1 + 4 * _k + _j] = (_kind, _n, _w)


def shape(n, w):
    u = ceil(8 * n / w)
    v = ceil((floor(log2((2**w - 1) * u)) + 1) / w)
    return u, v, u + v, 16 - v * w


def u32(x):
    return x.to_bytes(4, "big")


def u16(x):
    return x.to_bytes(2, "big")


def coef(s, i, w):
    return (s[i * w // 8] >> (8 - (w * (i % (8 // w)) + w))) & (2**w - 1)


class Bad(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.data, self.at = data, 0

    def take(self, n):
        if self.at + n > len(self.data):
            raise Bad("short")
        self.at += n
        return self.data[self.at - n:self.at]

    def num(self):
        return int.from_bytes(self.take(4), "big")


def lms_sig(r):
    """(q, ots type, C, y, lms type, path)"""
    q, t = r.num(), r.num()
    if t not in OTS:
        raise Bad("ots type")
    _kind, n, w = OTS[t]
    c = r.take(n)
    y = [r.take(n) for _ in range(shape(n, w)[2])]
    lt = r.num()
    if lt not in LMS:
        raise Bad("lms type")
    return q, t, c, y, lt, [r.take(LMS[lt][1]) for _ in range(LMS[lt][2])]


def lms_pub(r):
    start = r.at
    lt, t = r.num(), r.num()
    if lt not in LMS or t not in OTS or LMS[lt][:2] != OTS[t][:2]:
        raise Bad("types")
    i, k = r.take(16), r.take(LMS[lt][1])
    return lt, t, i, k, r.data[start:r.at]


def parse(sig):
    """The parts of an HSS signature: ([(signature, public key)], last signature)."""
    r = Reader(sig)
    out = []
    n = r.num()
    if n > 7:
        raise Bad("levels")
    for _ in range(n):
        s = lms_sig(r)
        out.append((s, lms_pub(r)))
    last = lms_sig(r)
    if r.at != len(sig):
        raise Bad("trailing")
    return out, last


def lms_verify(pub, msg, sig):
    lt, t, ident, key, _raw = pub
    q, st, c, y, slt, path = sig
    if st != t or slt != lt:
        return False
    kind, n, w = OTS[t]
    h = _h(kind, n)
    height = LMS[lt][2]
    if q >= 2**height:
        return False
    u, _v, p, ls = shape(n, w)
    digest = h(ident + u32(q) + u16(0x8181) + c + msg)
    total = (sum(2**w - 1 - coef(digest, i, w) for i in range(u)) << ls) & 0xFFFF
    s = digest + u16(total)
    z = []
    for i in range(p):
        tmp = y[i]
        for j in range(coef(s, i, w), 2**w - 1):
            tmp = h(ident + u32(q) + u16(i) + bytes([j]) + tmp)
        z.append(tmp)
    kc = h(ident + u32(q) + u16(0x8080) + b"".join(z))
    node = 2**height + q
    tmp = h(ident + u32(node) + u16(0x8282) + kc)
    for x in path:
        tmp = h(ident + u32(node // 2) + u16(0x8383) + ((x + tmp) if node & 1 else (tmp + x)))
        node //= 2
    return tmp == key


def verify(pub, msg, sig):
    try:
        r = Reader(pub)
        levels = r.num()
        key = lms_pub(r)
        if r.at != len(pub):
            return False
        parts, last = parse(sig)
        if len(parts) + 1 != levels:
            return False
        for s, k in parts:
            if not lms_verify(key, k[4], s):
                return False
            key = k
        return lms_verify(key, msg, last)
    except Bad:
        return False


def index(sig):
    """Number of the signature in the life of the key, all levels of one height."""
    parts, last = parse(sig)
    out = 0
    for s in [p[0] for p in parts] + [last]:
        out = (out << LMS[s[4]][2]) + s[0]
    return out
