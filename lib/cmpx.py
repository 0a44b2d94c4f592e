"""Wire-level view of CMP messages for the checks (splitting and altering DER without pyasn1)."""
from hypothesis import strategies as st

from lib import der as D
from lib.gram import G
from resources import asn1utils, cmputils

HDR = {0xA0: "messageTime", 0xA1: "protectionAlg", 0xA2: "senderKID", 0xA3: "recipKID", 0xA4: "transactionID",
       0xA5: "senderNonce", 0xA6: "recipNonce", 0xA7: "freeText", 0xA8: "generalInfo"}


def enc(msg):
    return asn1utils.encode_to_der(msg)


def parse(data):
    return cmputils.parse_pkimessage(data)


class Wire:
    """header, body, protection (bytes or None), extra certs (DER of SEQUENCE OF or None)."""

    def __init__(self, data):
        self.data = data
        p = D.split(data)
        self.header, self.body = p[0], p[1]
        self.prot = self.certs = self.prot_raw = self.certs_raw = None
        for x in p[2:]:
            if x[0] == 0xA0:
                self.prot_raw = x
                bs = D.split(x)[0]
                _t, _h, c, e = D.read(bs)
                self.prot = bs[c + 1:e]
            elif x[0] == 0xA1:
                self.certs_raw = x
                self.certs = D.split(D.split(x)[0])

    @property
    def protected(self):
        return D.seq(self.header, self.body)

    def fields(self):
        """Header fields: name -> raw inner DER."""
        p = D.split(self.header)
        out = {"pvno": p[0], "sender": p[1], "recipient": p[2]}
        for x in p[3:]:
            out[HDR[x[0]]] = D.split(x)[0]
        return out

    def value(self, name):
        """Content octets of an OCTET STRING header field, or None."""
        f = self.fields().get(name)
        if f is None:
            return None
        _t, _h, c, e = D.read(f)
        return f[c:e]

    def build(self, header=None, body=None, prot=None, certs=None):
        p = self.prot_raw if prot is None else D.ctx(0, D.bits(prot))
        return D.seq(header or self.header, body or self.body, p or b"", (self.certs_raw or b"") if certs is None else certs)

    def set_header(self, name, inner):
        """The header with one optional field replaced, added or (inner=None) removed."""
        p = D.split(self.header)
        tag = {v: k for k, v in HDR.items()}.get(name)
        if tag is None:
            i = ["pvno", "sender", "recipient"].index(name)
            p[i] = inner
            return D.seq(*p)
        out = [x for x in p if x[0] != tag or x in p[:3]]
        out = p[:3] + [x for x in p[3:] if x[0] != tag]
        if inner is not None:
            new = D.tlv(tag, inner)
            k = 3
            while k < len(out) and out[k][0] < tag:
                k += 1
            out.insert(k, new)
        return D.seq(*out)


def algid(der):
    """AlgorithmIdentifier DER -> (oid DER, parameter DER or b'')."""
    p = D.split(der)
    return p[0], (p[1] if len(p) > 1 else b"")


def flip_leaf(data, pick, bit):
    """Flip one content bit of one primitive element; `pick` and `bit` are free integers."""
    ls = D.leaves(data)
    if not ls:
        return None
    c, e, _t = ls[pick % len(ls)]
    b = bit % ((e - c) * 8)
    out = bytearray(data)
    out[c + b // 8] ^= 0x80 >> (b % 8)
    return bytes(out)


def same_protected(a, b):
    """Do two wire messages mean the same header and body (after a decode/encode by the suite)?"""
    return Wire(a).protected == Wire(b).protected


#: a change to header or body: how it is made
ALTER = st.fixed_dictionaries({
    "kind": st.sampled_from(["hdr-flip", "hdr-flip", "body-flip", "body-flip", "body-flip", "hdr-drop", "hdr-add", "hdr-swap", "body-dup", "body-drop"]),
    "pick": st.integers(0, 10**6), "bit": st.integers(0, 10**6)})


def alter(data, a):
    """Apply one ALTER to a wire message (never the protectionAlg or the protection); None if not applicable."""
    w = Wire(data)
    k = a["kind"]
    fs = w.fields()
    if k == "hdr-flip":
        alg = fs.pop("protectionAlg", None)
        names = sorted(n for n in fs if D.leaves(fs[n]))
        if not names:
            return None
        n = names[a["pick"] % len(names)]
        return w.build(header=w.set_header(n, flip_leaf(fs[n], a["bit"] // 7, a["bit"])))
    if k == "hdr-drop":
        names = sorted(n for n in fs if n not in ("pvno", "sender", "recipient", "protectionAlg"))
        return w.build(header=w.set_header(names[a["pick"] % len(names)], None)) if names else None
    if k == "hdr-add":
        for n, inner in (("senderKID", D.octets(b"k1")), ("recipKID", D.octets(b"k2")), ("transactionID", D.octets(b"t" * 16)),
                         ("senderNonce", D.octets(b"n" * 16)), ("recipNonce", D.octets(b"m" * 16)), ("freeText", D.seq(D.utf8("x")))):
            if n not in fs:
                return w.build(header=w.set_header(n, inner))
        return None
    if k == "hdr-swap":
        if fs["sender"] == fs["recipient"]:
            return None
        h = w.set_header("sender", fs["recipient"])
        return w.build(header=Wire(w.build(header=h)).set_header("recipient", fs["sender"]))
    if k == "body-flip":
        m = flip_leaf(w.body, a["pick"], a["bit"])
        return None if m is None else w.build(body=m)
    inner = D.split(w.body)[0]
    if inner[0] != 0x30:
        return None
    kids = D.split(inner)
    if not kids:
        return None
    i = a["pick"] % len(kids)
    if k == "body-dup":
        kids.insert(i, kids[i])
    else:
        del kids[i]
    return w.build(body=D.tlv(w.body[0], D.tlv(0x30, b"".join(kids))))


def altered_message(data, a):
    """The decoded altered message, or None when the alteration does not yield a different, decodable message."""
    new = alter(data, a)
    if new is None or new == data:
        return None, "n/a"
    try:
        m = parse(new)
        again = enc(m)
    except Exception:  # pylint: disable=broad-except
        return None, "undecodable"
    if Wire(again).protected == Wire(data).protected:
        return None, "same-meaning"
    return m, a["kind"]


@st.composite
def base_message(draw, names=None):
    """DER of a header and a body without protection and certificates."""
    g = G(draw)
    from lib.gram import BODY_NAMES
    name = draw(st.sampled_from(names or BODY_NAMES))
    return g.message(name, protection=False, certs=False)
