"""Generator for CMP messages, written from the ASN.1 of RFC 9810 / 4211 / 5652 / 5280 with lib.der.

Independent of pyasn1 and of the code under test: message(draw, ...) returns (der, body_name).
"""
from hypothesis import strategies as st

from lib import der as D

BODY_NAMES = ["ir", "ip", "cr", "cp", "p10cr", "popdecc", "popdecr", "kur", "kup", "krr", "krp", "rr", "rp", "ccr",
              "ccp", "ckuann", "cann", "rann", "crlann", "pkiconf", "nested", "genm", "genp", "error", "certConf",
              "pollReq", "pollRep"]

OIDS = ["1.2.840.113549.1.1.11", "1.2.840.113549.1.1.1", "1.3.6.1.5.5.7.4.13", "1.2.840.10045.4.3.2", "2.5.4.3",
        "1.3.101.112", "2.16.840.1.101.3.4.2.1", "1.2.3.4.5", "2.999.1", "0.9.2342.19200300.100.1.25",
        "1.3.6.1.5.5.7.5.1.1", "2.5.29.17", "1.3.6.1.4.1.99999.4294967296.1"]

TIMES_G = ["20260225120000Z", "19700101000000Z", "20500101000000Z", "99991231235959Z"]
TIMES_U = ["260225120000Z", "490101000000Z", "500101000000Z"]
TEXT = st.text(alphabet=st.sampled_from(list("abcXYZ019 .-_/\u00e4\u20ac\U0001F600")), max_size=12)


class G:
    """Bundles draw with size control."""

    def __init__(self, draw, tmpl_null_dn=False, conf_hash=False):
        self.d = draw
        self.tmpl_null_dn = tmpl_null_dn
        self.conf_hash = conf_hash

    def pick(self, xs):
        return self.d(st.sampled_from(xs))

    def yes(self):
        return self.d(st.booleans())

    def opt(self, fn, *a):
        return fn(*a) if self.yes() else b""

    def many(self, fn, lo=1, hi=2):
        return [fn() for _ in range(self.d(st.integers(lo, hi)))]

    def raw(self, lo=0, hi=24):
        return self.d(st.binary(min_size=lo, max_size=hi))

    # ---- basics
    def int(self):
        return D.integer(self.pick([0, 1, 2, 127, 128, 255, 256, 65537, 2**31, 2**64 + 5, 2**159 - 1])
                         if self.yes() else self.d(st.integers(0, 1000)))

    def sint(self):
        return D.integer(self.d(st.integers(-3, 300)))

    def oid(self):
        return D.oid(self.pick(OIDS))

    def octets(self, lo=0, hi=24):
        return D.octets(self.raw(lo, hi))

    def bits(self, lo=0, hi=24):
        b = self.raw(lo, hi)
        u = self.d(st.integers(0, 7)) if b else 0
        if u:
            b = b[:-1] + bytes([b[-1] & (0xFF << u) & 0xFF])
        return D.bits(b, u)

    def any(self):
        k = self.d(st.integers(0, 5))
        return [D.null, self.int, self.octets, lambda: D.utf8(self.d(TEXT)),
                lambda: D.seq(self.oid(), self.octets()), lambda: D.seq(self.int())][k]()

    def algid(self):
        return D.seq(self.oid(), self.opt(self.any))

    def gtime(self):
        return D.gtime(self.pick(TIMES_G))

    def time(self):
        return self.gtime() if self.yes() else D.utime(self.pick(TIMES_U))

    def freetext(self):
        return D.seq(*[D.utf8(self.d(TEXT)) for _ in range(self.d(st.integers(1, 2)))])

    def atv(self):
        o = self.pick(["2.5.4.3", "2.5.4.10", "2.5.4.6", "0.9.2342.19200300.100.1.25"])
        v = D.utf8(self.d(TEXT)) if o != "2.5.4.6" else D.printable("DE")
        return D.seq(D.oid(o), v)

    def name(self, lo=0):
        return D.seq(*[D.set_of(*self.many(self.atv, 1, 1)) for _ in range(self.d(st.integers(lo, 3)))])

    def validity(self):
        k = self.d(st.integers(0, 2))
        return D.ctx(4, D.ctx(0, self.time()) if k != 1 else b"", D.ctx(1, self.time()) if k != 0 else b"")

    def gname(self):
        k = self.d(st.integers(0, 6))
        if k <= 2:
            return D.ctx(4, self.name())
        if k == 3:
            return D.ctxp(1, b"a@b.example")
        if k == 4:
            return D.ctxp(2, b"host.example")
        if k == 5:
            return D.ctxp(6, b"http://h.example/x")
        return D.ctxp(7, self.raw(4, 4))

    def ext(self):
        return D.seq(self.oid(), D.boolean(True) if self.yes() else b"", D.octets(self.any()))

    def exts(self):
        return D.seq(*self.many(self.ext, 1, 3))

    def spki(self):
        return D.seq(self.algid(), self.bits(0, 40))

    def itav(self):
        return D.seq(self.oid(), self.opt(self.any))

    def cert(self):
        tbs = [D.ctx(0, D.integer(2))] if self.yes() else []
        tbs += [self.int(), self.algid(), self.name(), D.seq(self.time(), self.time()), self.name(), self.spki()]
        if tbs[0][0] == 0xA0:
            tbs += [self.opt(lambda: D.ctx(3, self.exts()))]
        return D.seq(D.seq(*tbs), self.algid(), self.bits(1, 24))

    def crl(self):
        rev = D.seq(*[D.seq(self.int(), self.time()) for _ in range(self.d(st.integers(1, 2)))])
        tbs = [D.integer(1), self.algid(), self.name(), self.time(), self.opt(self.time), rev if self.yes() else b"",
               self.opt(lambda: D.ctx(0, self.exts()))]
        return D.seq(D.seq(*tbs), self.algid(), self.bits(1, 24))

    def csr(self):
        attr = [D.seq(self.oid(), D.set_of(self.any())) for _ in range(self.d(st.integers(0, 2)))]
        info = D.seq(D.integer(0), self.name(), self.spki(), D.retag(0, D.set_of(*attr)))
        return D.seq(info, self.algid(), self.bits(1, 24))

    # ---- CRMF
    def template(self):
        p = []
        if self.yes():
            p.append(D.ctxp(0, D.int_body(2)))
        if self.yes():
            p.append(D.ctxp(1, D.int_body(self.d(st.integers(0, 2**64)))))
        if self.yes():
            p.append(D.retag(2, self.algid()))
        if self.yes():
            p.append(D.ctx(3, self.name(0 if self.tmpl_null_dn else 1)))
        if self.yes():
            p.append(self.validity())
        if self.yes():
            p.append(D.ctx(5, self.name(0 if self.tmpl_null_dn else 1)))
        if self.yes():
            p.append(D.retag(6, self.spki()))
        if self.yes():
            p.append(D.retag(9, self.exts()))
        return D.seq(*p)

    def atv_any(self):
        return D.seq(self.oid(), self.any())

    def pkmac(self):
        return D.seq(self.algid(), self.bits(1, 24))

    def popo_priv(self):
        k = self.d(st.integers(0, 3))
        if k == 0:
            return D.ctxp(1, D.int_body(self.d(st.integers(0, 1))))
        if k == 1:
            return D.retag(0, self.bits(1, 16))
        if k == 2:
            return D.retag(3, self.pkmac())
        return D.retag(4, self.envdata())

    def popo(self):
        k = self.d(st.integers(0, 3))
        if k == 0:
            return D.ctxp(0, b"")
        if k == 1:
            inp = b""
            if self.yes():
                auth = D.ctx(0, self.gname()) if self.yes() else self.pkmac()
                inp = D.retag(0, D.seq(auth, self.spki()))
            return D.retag(1, D.seq(inp, self.algid(), self.bits(1, 24)))
        return D.ctx(k, self.popo_priv())

    def certreq(self):
        return D.seq(self.sint(), self.template(), self.opt(lambda: D.seq(*self.many(self.atv_any, 1, 2))))

    def reqmsg(self):
        return D.seq(self.certreq(), self.opt(self.popo), self.opt(lambda: D.seq(*self.many(self.atv_any, 1, 2))))

    # ---- CMS
    def rid(self):
        return D.seq(self.name(), self.int()) if self.yes() else D.retag(0, self.octets(1, 20))

    def recipinfo(self):
        k = self.d(st.integers(0, 3))
        if k == 0:
            return D.seq(D.integer(2), self.rid(), self.algid(), self.octets(1))
        if k == 1:
            orig = D.seq(self.name(), self.int()) if self.yes() else D.retag(0, self.octets(1, 20))
            rek = D.seq(D.seq(D.seq(self.name(), self.int()), self.octets(1)))
            return D.retag(1, D.seq(D.integer(3), D.ctx(0, orig), self.opt(lambda: D.ctx(1, self.octets())), self.algid(), rek))
        if k == 2:
            return D.retag(3, D.seq(D.integer(0), D.retag(0, self.algid()), self.algid(), self.octets(1)))
        return D.retag(4, D.seq(self.oid(), self.any()))

    def envdata(self):
        eci = D.seq(D.oid("1.2.840.113549.1.7.1"), self.algid(), D.retag(0, self.octets(0, 24)))
        return D.seq(D.integer(self.pick([0, 2, 3])), D.set_of(*self.many(self.recipinfo, 1, 1)), eci)

    def enckey(self):
        return D.retag(0, self.envdata())

    # ---- CMP bodies
    def failinfo(self):
        return D.bits_from_set(sorted(self.d(st.sets(st.integers(0, 26), min_size=1, max_size=4))))

    def status(self):
        return D.seq(D.integer(self.d(st.integers(0, 7))), self.opt(self.freetext), self.opt(self.failinfo))

    def keypair(self):
        c = D.ctx(0, self.cert()) if self.yes() else D.ctx(1, self.enckey())
        return D.seq(c, self.opt(lambda: D.ctx(0, self.enckey())))

    def certresp(self):
        return D.seq(self.sint(), self.status(), self.opt(self.keypair), self.opt(self.octets))

    def certid(self):
        return D.seq(self.gname(), self.int())

    def body_content(self, name):
        m = self.many
        if name in ("ir", "cr", "kur", "krr", "ccr"):
            return D.seq(*m(self.reqmsg, 1, 2))
        if name in ("ip", "cp", "kup", "ccp"):
            return D.seq(self.opt(lambda: D.ctx(1, D.seq(*m(self.cert, 1, 2)))), D.seq(*m(self.certresp, 1, 2)))
        if name == "p10cr":
            return self.csr()
        if name == "popdecc":
            return D.seq(*m(lambda: D.seq(self.opt(self.algid), self.octets(), self.octets(),
                                          self.opt(lambda: D.ctx(0, self.envdata()))), 1, 2))
        if name == "popdecr":
            return D.seq(*m(self.int, 1, 2))
        if name == "krp":
            return D.seq(self.status(), self.opt(lambda: D.ctx(0, self.cert())),
                         self.opt(lambda: D.ctx(1, D.seq(*m(self.cert)))), self.opt(lambda: D.ctx(2, D.seq(*m(self.keypair)))))
        if name == "rr":
            return D.seq(*m(lambda: D.seq(self.template(), self.opt(self.exts)), 1, 2))
        if name == "rp":
            return D.seq(D.seq(*m(self.status)), self.opt(lambda: D.ctx(0, D.seq(*m(self.certid)))),
                         self.opt(lambda: D.ctx(1, D.seq(*m(self.crl)))))
        if name == "ckuann":
            if self.yes():
                return D.seq(self.cert(), self.cert(), self.cert())
            return D.ctx(0, D.seq(self.cert(), self.opt(lambda: D.ctx(0, self.cert())), self.opt(lambda: D.ctx(1, self.cert()))))
        if name == "cann":
            return self.cert()
        if name == "rann":
            return D.seq(D.integer(self.d(st.integers(0, 7))), self.certid(), self.gtime(), self.gtime(), self.opt(self.exts))
        if name == "crlann":
            return D.seq(*m(self.crl))
        if name == "pkiconf":
            return D.null()
        if name == "nested":
            return D.seq(*[self.message(self.pick([b for b in BODY_NAMES if b != "nested"]))
                           if self.d(st.integers(0, 7)) else self.message("nested") for _ in range(self.d(st.integers(1, 2)))])
        if name in ("genm", "genp"):
            return D.seq(*m(self.itav, 1, 2))
        if name == "error":
            return D.seq(self.status(), self.opt(self.int), self.opt(self.freetext))
        if name == "certConf":
            return D.seq(*m(lambda: D.seq(self.octets(), self.sint(), self.opt(self.status),
                                          self.opt(lambda: D.ctx(0, self.algid())) if self.conf_hash else b""), 0, 2))
        if name == "pollReq":
            return D.seq(*m(lambda: D.seq(self.sint()), 1, 2))
        if name == "pollRep":
            return D.seq(*m(lambda: D.seq(self.sint(), self.int(), self.opt(self.freetext)), 1, 2))
        raise AssertionError(name)

    def body(self, name):
        return D.ctx(BODY_NAMES.index(name), self.body_content(name))

    def header(self, **fix):
        def f(key, fn):
            if key in fix:
                return fix[key]
            return self.opt(fn)
        return D.seq(
            fix.get("pvno", None) or D.integer(self.d(st.integers(1, 3))),
            fix.get("sender", None) or self.gname(), fix.get("recipient", None) or self.gname(),
            f("messageTime", lambda: D.ctx(0, self.gtime())), f("protectionAlg", lambda: D.ctx(1, self.algid())),
            f("senderKID", lambda: D.ctx(2, self.octets())), f("recipKID", lambda: D.ctx(3, self.octets())),
            f("transactionID", lambda: D.ctx(4, self.octets())), f("senderNonce", lambda: D.ctx(5, self.octets())),
            f("recipNonce", lambda: D.ctx(6, self.octets())), f("freeText", lambda: D.ctx(7, self.freetext())),
            f("generalInfo", lambda: D.ctx(8, D.seq(*self.many(self.itav, 1, 2)))))

    def message(self, name, protection=True, certs=True, **fix):
        prot = self.opt(lambda: D.ctx(0, self.bits(1, 24))) if protection else b""
        ec = self.opt(lambda: D.ctx(1, D.seq(*self.many(self.cert, 1, 2)))) if certs else b""
        return D.seq(self.header(**fix), self.body(name), prot, ec)


@st.composite
def messages(draw, names=None, tmpl_null_dn=False, conf_hash=False, **kw):
    """Strategy: {'body': name, 'der': bytes}."""
    g = G(draw, tmpl_null_dn=tmpl_null_dn, conf_hash=conf_hash)
    name = draw(st.sampled_from(names or BODY_NAMES))
    return {"body": name, "der": g.message(name, **kw)}
