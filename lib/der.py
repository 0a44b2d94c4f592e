"""A minimal DER writer and reader, independent of pyasn1."""


def ln(n):
    if n < 0x80:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def tlv(tag, body):
    return bytes([tag]) + ln(len(body)) + body


def seq(*parts):
    return tlv(0x30, b"".join(parts))


def set_of(*parts):
    return tlv(0x31, b"".join(sorted(parts)))


def ctx(n, *parts):
    """Explicit (or implicit constructed) context tag."""
    return tlv(0xA0 | n, b"".join(parts))


def ctxp(n, body):
    """Implicit context tag on a primitive type; `body` is the content."""
    return tlv(0x80 | n, body)


def retag(n, der):
    """IMPLICIT [n] applied to a complete encoding (keeps the constructed bit)."""
    return bytes([0x80 | (der[0] & 0x20) | n]) + der[1:]


def int_body(v):
    n = (v.bit_length() // 8) + 1 if v >= 0 else ((v + 1).bit_length() // 8) + 1
    return v.to_bytes(n, "big", signed=True)


def integer(v):
    return tlv(2, int_body(v))


def boolean(v):
    return tlv(1, b"\xff" if v else b"\x00")


def octets(b):
    return tlv(4, b)


def bits(b, unused=0):
    return tlv(3, bytes([unused]) + b)


def bits_from_set(positions):
    """Named-bit BIT STRING: trailing zero bits removed."""
    if not positions:
        return tlv(3, b"\x00")
    n = max(positions) + 1
    v = bytearray((n + 7) // 8)
    for p in positions:
        v[p // 8] |= 0x80 >> (p % 8)
    return tlv(3, bytes([len(v) * 8 - n]) + bytes(v))


def null():
    return b"\x05\x00"


def oid(dotted):
    a = [int(x) for x in dotted.split(".")]
    out = []
    for v in [a[0] * 40 + a[1]] + a[2:]:
        s = [v & 0x7F]
        v >>= 7
        while v:
            s.append(0x80 | (v & 0x7F))
            v >>= 7
        out += s[::-1]
    return tlv(6, bytes(out))


def utf8(s):
    return tlv(0x0C, s.encode())


def printable(s):
    return tlv(0x13, s.encode("ascii"))


def ia5(s):
    return tlv(0x16, s.encode("ascii"))


def gtime(s):
    return tlv(0x18, s.encode())


def utime(s):
    return tlv(0x17, s.encode())


def read(data, off=0):
    """One TLV at off: (tag, header_len, content_start, end). Low tag numbers, definite length."""
    tag = data[off]
    p = off + 1
    if tag & 0x1F == 0x1F:
        while data[p] & 0x80:
            p += 1
        p += 1
    n = data[p]
    p += 1
    if n & 0x80:
        k = n & 0x7F
        if k == 0:
            raise ValueError("indefinite")
        n = int.from_bytes(data[p:p + k], "big")
        p += k
    if p + n > len(data):
        raise ValueError("short")
    return tag, p - off, p, p + n


def children(data, start, end):
    out = []
    while start < end:
        t, _h, c, e = read(data, start)
        out.append((t, start, c, e))
        start = e
    return out


def octets_value(der):
    """Content of a primitive element."""
    _t, _h, c, e = read(der)
    return der[c:e]


def split(data):
    """Children of the outermost TLV as complete encodings."""
    _t, _h, c, e = read(data)
    return [data[s:x] for _tag, s, _c, x in children(data, c, e)]


def leaves(data, start=0, end=None, out=None):
    """Offsets (content_start, content_end, tag) of all primitive TLVs with content."""
    if out is None:
        out = []
    end = len(data) if end is None else end
    for t, _s, c, e in children(data, start, end):
        if t & 0x20:
            leaves(data, c, e, out)
        elif e > c:
            out.append((c, e, t))
    return out


def minimal(data):
    """True if data is one TLV, every nested length minimal (DER)."""
    t, h, c, e = read(data)
    return e == len(data)


def strip_null_dn(data):
    """The tree of `data` without the elements [5] { SEQUENCE {} }, for comparing up to that difference."""
    out = []
    for tag, st, c, e in children(data, 0, len(data)):
        if tag == 0xA5 and data[c:e] == b"\x30\x00":
            continue
        out.append((tag, strip_null_dn(data[c:e]) if tag & 0x20 else data[c:e]))
    return out
