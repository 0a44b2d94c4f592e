"""C02: shared-secret MAC protection authenticates the whole message."""
from hypothesis import strategies as st

from lib import cmpx, ref
from lib import der as D
from lib.cmpx import ALTER, Wire, altered_message, base_message, enc, parse
from lib.harness import Sub
from resources import protectionutils as PU
from resources.exceptions import BadMacProtection

PROPERTY = "C02"
TECHNIQUE = "generated messages and secrets against an independent MAC implementation; alteration search on the wire bytes"
RULE = ("Headers and bodies of every body type from the RFC grammar, secrets of 1-70 bytes, all MAC algorithms, hashes, salts, iteration counts and key lengths. "
        "Non-trivial: the MAC was recomputed from the transmitted parameters, or the altered message decodes to a different header or body.")
ASSUMPTIONS = ["the stdlib's hashlib/hmac and the AES block cipher are correct; KMAC, GMAC, PBKDF2 and PBM are re-implemented in lib/ref.py"]

SHA = ["sha1", "sha224", "sha256", "sha384", "sha512"]
SHA3 = ["sha3_224", "sha3_256", "sha3_384", "sha3_512"]
HMAC_OID = {"sha1": "1.3.6.1.5.5.8.1.2", "sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9", "sha384": "1.2.840.113549.2.10",
            "sha512": "1.2.840.113549.2.11", "sha3_224": "2.16.840.1.101.3.4.2.13", "sha3_256": "2.16.840.1.101.3.4.2.14",
            "sha3_384": "2.16.840.1.101.3.4.2.15", "sha3_512": "2.16.840.1.101.3.4.2.16"}
HASH_OID = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2",
            "sha512": "2.16.840.1.101.3.4.2.3", "sha3_224": "2.16.840.1.101.3.4.2.7", "sha3_256": "2.16.840.1.101.3.4.2.8",
            "sha3_384": "2.16.840.1.101.3.4.2.9", "sha3_512": "2.16.840.1.101.3.4.2.10"}
PBM, PBMAC1, PBKDF2 = "1.2.840.113533.7.66.13", "1.2.840.113549.1.5.14", "1.2.840.113549.1.5.12"
KMAC = {"2.16.840.1.101.3.4.2.19": (128, 32), "2.16.840.1.101.3.4.2.20": (256, 64)}
GMAC = {"2.16.840.1.101.3.4.1.9": 16, "2.16.840.1.101.3.4.1.29": 24, "2.16.840.1.101.3.4.1.49": 32}
O2H = {D.oid(v): k for k, v in HMAC_OID.items()}
O2H[D.oid("1.2.840.113549.2.7")] = "sha1"
O2D = {D.oid(v): k for k, v in HASH_OID.items()}


def num(der):
    _t, _h, c, e = D.read(der)
    return int.from_bytes(der[c:e], "big", signed=True)


def octs(der):
    assert der[0] == 4
    _t, _h, c, e = D.read(der)
    return der[c:e]


def expected(alg, secret, data):
    """MAC value for a transmitted AlgorithmIdentifier, from the specifications."""
    oid, par = cmpx.algid(alg)
    if oid in O2H:
        return ref.hmac(O2H[oid], secret, data)
    if oid == D.oid(PBM):
        salt, owf, it, mac = D.split(par)
        return ref.pbm(O2D[cmpx.algid(owf)[0]], O2H[cmpx.algid(mac)[0]], secret, octs(salt), num(it), data)
    if oid == D.oid(PBMAC1):
        kdf, mac = D.split(par)
        koid, kp = cmpx.algid(kdf)
        assert koid == D.oid(PBKDF2)
        p = D.split(kp)
        prf = "sha1"
        length = None
        for x in p[2:]:
            if x[0] == 2:
                length = num(x)
            else:
                prf = O2H[cmpx.algid(x)[0]]
        return ref.hmac(O2H[cmpx.algid(mac)[0]], ref.pbkdf2(prf, secret, octs(p[0]), num(p[1]), length), data)
    for o, (bits, n) in KMAC.items():
        if oid == D.oid(o):
            return ref.kmac(bits, secret, data, n)
    for o in GMAC:
        if oid == D.oid(o):
            p = D.split(par)
            return ref.gmac(secret, octs(p[0]), data, num(p[1]) if len(p) > 1 else 12)
    raise AssertionError("unknown MAC " + oid.hex())


SECRET = st.one_of(st.binary(min_size=1, max_size=70), st.text(alphabet="abcXYZ019 .-_/\u00e4\u20ac", min_size=1, max_size=40))


@st.composite
def protections(draw):
    k = draw(st.sampled_from(["hmac", "pbmac1", "pbmac1", "password_based_mac", "password_based_mac", "kmac", "aes128_gmac", "aes192_gmac", "aes256_gmac"]))
    kw = {}
    secret = draw(SECRET)
    if k == "hmac":
        kw["hash_alg"] = draw(st.sampled_from(SHA + SHA3))
    elif k == "kmac":
        kw["hash_alg"] = draw(st.sampled_from(["shake128", "shake256"]))
        secret = draw(st.binary(min_size=32, max_size=80))
    elif k.startswith("aes"):
        secret = draw(st.binary(min_size=int(k[3:6]) // 8, max_size=int(k[3:6]) // 8))
        if draw(st.booleans()):
            kw["salt"] = draw(st.binary(min_size=8, max_size=20))
    else:
        kw["hash_alg"] = draw(st.sampled_from(SHA + SHA3))
        kw["iterations"] = draw(st.integers(1, 60))
        if draw(st.booleans()):
            kw["salt"] = draw(st.binary(min_size=1, max_size=40))
        if k == "pbmac1":
            kw["length"] = draw(st.sampled_from([16, 20, 31, 32, 33, 48, 64, 65, 100]))
    return {"protection": k, "kw": kw, "secret": secret}


def raw(secret):
    return secret if isinstance(secret, bytes) else secret.encode()


def other_secret(secret, how):
    """A secret that is not equivalent to `secret` under the HMAC key rules."""
    b = bytearray(raw(secret))
    k = how % 4
    if k == 0:
        b[how % len(b)] ^= 1 << (how % 8)
    elif k == 1:
        b = b + b"x"
    elif k == 2:
        b = b"y" + b
    else:
        b[0] ^= 0x80
    return bytes(b)


def protect(case):
    p = case["p"]
    return PU.protect_pkimessage(parse(case["base"]), p["protection"], password=p["secret"], **p["kw"])


def genuine(case, ctx):
    p = case["p"]
    ctx.label(p["protection"], p["kw"].get("hash_alg", "-"), Wire(case["base"]).body[:1].hex())
    msg = ctx.accepts("protecting", protect, case)
    data = enc(msg)
    w, b = Wire(data), Wire(case["base"])
    ctx.eq(w.body, b.body, "body after protecting")
    fs, old = w.fields(), b.fields()
    for f in set(fs) | set(old):
        if f != "protectionAlg":
            ctx.eq(fs.get(f), old.get(f), f"header field {f} after protecting")
    alg = fs["protectionAlg"]
    want = expected(alg, raw(p["secret"]), w.protected)
    ctx.nontrivial()
    ctx.eq(w.prot, want, f"MAC value of {p['protection']}")
    oid, par = cmpx.algid(alg)
    # the caller's parameters are the transmitted ones
    if p["protection"] == "hmac":
        ctx.eq(O2H.get(oid), p["kw"]["hash_alg"], "hash of the HMAC")
    elif p["protection"] == "password_based_mac":
        s, owf, it, mac = D.split(par)
        ctx.eq((O2D[cmpx.algid(owf)[0]], O2H[cmpx.algid(mac)[0]], num(it)), (p["kw"]["hash_alg"],) * 2 + (p["kw"]["iterations"],), "PBM parameters")
        if "salt" in p["kw"]:
            ctx.eq(octs(s), p["kw"]["salt"], "salt")
            ctx.eq(PU.get_cmp_protection_salt(parse(data)["header"]["protectionAlg"]), p["kw"]["salt"], "reported salt")
        else:
            ctx.check(len(octs(s)) >= 16, "random salt of at least 16 bytes")
    elif p["protection"] == "pbmac1":
        kdf, mac = D.split(par)
        kp = D.split(cmpx.algid(kdf)[1])
        ctx.eq((O2H[cmpx.algid(mac)[0]], num(kp[1]), num(kp[2])), (p["kw"]["hash_alg"], p["kw"]["iterations"], p["kw"]["length"]), "PBMAC1 parameters")
        if "salt" in p["kw"]:
            ctx.eq(octs(kp[0]), p["kw"]["salt"], "salt")
            ctx.eq(PU.get_cmp_protection_salt(parse(data)["header"]["protectionAlg"]), p["kw"]["salt"], "reported salt")
    elif p["protection"] == "kmac":
        ctx.eq(par, b"", "KMAC parameters are absent")
    ctx.eq(PU.get_protection_type_from_pkimessage(msg), "mac", "protection type")
    ctx.accepts("verification of the built message", PU.verify_pkimessage_protection, msg, password=p["secret"])
    back = parse(data)
    ctx.accepts("verification after the wire", PU.verify_pkimessage_protection, back, password=p["secret"])
    ctx.accepts("verification with the secret as bytes", PU.verify_pkimessage_protection, back, password=raw(p["secret"]))
    if p["protection"] in ("pbmac1", "password_based_mac") and p["kw"]["hash_alg"] in SHA[1:]:
        ctx.accepts("verification under the lightweight profile", PU.verify_pkimessage_protection, back, password=p["secret"], enforce_lwcmp=True)
    else:
        ctx.rejects("lightweight profile", PU.verify_pkimessage_protection, back, password=p["secret"], enforce_lwcmp=True)
    ctx.eq(enc(back), data, "verification must not change the message")


def forged(case, ctx):
    p = case["p"]
    ctx.label(p["protection"])
    data = enc(ctx.accepts("protecting", protect, case))
    w = Wire(data)
    ver = PU.verify_pkimessage_protection
    ctx.op(3)
    if not p["protection"].startswith("aes") or case["how"] % 4 in (0, 3):
        ctx.rejects("other secret", ver, parse(data), password=other_secret(p["secret"], case["how"]), exc=BadMacProtection)
    mac = w.prot
    i = case["how"] % (len(mac) * 8)
    bad = bytearray(mac)
    bad[i // 8] ^= 1 << (i % 8)
    for name, m in (("flipped", bytes(bad)), ("truncated", mac[:-1 - case["how"] % len(mac)]), ("extended", mac + mac[:1]), ("empty", b"")):
        ctx.rejects(f"{name} MAC value", ver, parse(w.build(prot=m)), password=p["secret"])
    for a in case["alters"]:
        m, label = altered_message(data, a)
        ctx.label("alter:" + label)
        if m is not None:
            ctx.op()
            ctx.nontrivial()
            ctx.rejects(f"altered message ({a})", ver, m, password=p["secret"], exc=BadMacProtection)
    # the parameters themselves
    oid, par = cmpx.algid(w.fields()["protectionAlg"])
    for name, alg in param_changes(oid, par, case["how"]):
        ctx.label("param:" + name)
        ctx.op()
        new = w.build(header=w.set_header("protectionAlg", alg))
        ctx.rejects(f"changed parameter {name}", ver, parse(new), password=p["secret"])


def param_changes(oid, par, how):
    out = []
    if oid in O2H:
        for o in O2H:
            if o != oid:
                out.append(("hmac-oid", D.seq(o)))
    elif oid == D.oid(PBM):
        s, owf, it, mac = D.split(par)
        salt = bytearray(octs(s))
        salt[how % len(salt)] ^= 1
        o2 = sorted(O2D)[how % len(O2D)]
        m2 = sorted(O2H)[how % len(O2H)]
        out = [("salt", [D.octets(bytes(salt)), owf, it, mac]), ("salt-long", [D.octets(bytes(octs(s)) + b"\x00"), owf, it, mac]),
               ("iterations", [s, owf, D.integer(num(it) + 1), mac])]
        if o2 != cmpx.algid(owf)[0]:
            out.append(("owf", [s, D.seq(o2, D.null()), it, mac]))
        if m2 != cmpx.algid(mac)[0]:
            out.append(("mac", [s, owf, it, D.seq(m2)]))
        out = [(n, D.seq(oid, D.seq(*x))) for n, x in out]
    elif oid == D.oid(PBMAC1):
        kdf, mac = D.split(par)
        s, it, ln, prf = D.split(cmpx.algid(kdf)[1])
        salt = bytearray(octs(s))
        salt[how % len(salt)] ^= 1
        m2 = sorted(O2H)[how % len(O2H)]
        mk = lambda s, it, ln, prf, mac: D.seq(oid, D.seq(D.seq(D.oid(PBKDF2), D.seq(s, it, ln, prf)), mac))  # noqa: E731
        out = [("salt", mk(D.octets(bytes(salt)), it, ln, prf, mac)), ("iterations", mk(s, D.integer(num(it) + 1), ln, prf, mac)),
               ("keyLength", mk(s, it, D.integer(num(ln) + 1), prf, mac))]
        if m2 != cmpx.algid(prf)[0]:
            out.append(("prf", mk(s, it, ln, D.seq(m2), mac)))
        if m2 != cmpx.algid(mac)[0]:
            out.append(("mac", mk(s, it, ln, prf, D.seq(m2))))
    elif any(oid == D.oid(o) for o in KMAC):
        out = [("kmac-oid", D.seq(D.oid(o))) for o in KMAC if D.oid(o) != oid]
    else:
        n = bytearray(octs(D.split(par)[0]))
        n[how % len(n)] ^= 4
        out = [("nonce", D.seq(oid, D.seq(D.octets(bytes(n)), *D.split(par)[1:])))]
    return out


@st.composite
def foreign_alg(draw):
    """Parameters a conforming peer may choose, which the suite's own builders never produce."""
    k = draw(st.sampled_from(["pbm", "pbmac1", "hmac", "kmac", "gmac"]))
    h1, h2 = draw(st.sampled_from(SHA + SHA3)), draw(st.sampled_from(SHA + SHA3))
    salt = draw(st.binary(max_size=40))
    it = draw(st.integers(1, 80))
    secret = draw(st.binary(min_size=1, max_size=70))
    nul = lambda: D.null() if draw(st.booleans()) else b""  # noqa: E731
    if k == "pbm":
        alg = D.seq(D.oid(PBM), D.seq(D.octets(salt), D.seq(D.oid(HASH_OID[h1]), nul()), D.integer(it), D.seq(D.oid(HMAC_OID[h2]), nul())))
    elif k == "pbmac1":
        prf = D.seq(D.oid(HMAC_OID[h1]), nul())
        alg = D.seq(D.oid(PBMAC1), D.seq(D.seq(D.oid(PBKDF2), D.seq(D.octets(salt), D.integer(it), D.integer(draw(st.integers(1, 130))), prf)),
                                         D.seq(D.oid(HMAC_OID[h2]), nul())))
    elif k == "hmac":
        alg = D.seq(D.oid(HMAC_OID[h1]), nul())
    elif k == "kmac":
        secret = draw(st.binary(min_size=32, max_size=70))
        alg = D.seq(D.oid(draw(st.sampled_from(sorted(KMAC)))))
    else:
        o = draw(st.sampled_from(sorted(GMAC)))
        secret = draw(st.binary(min_size=GMAC[o], max_size=GMAC[o]))
        n = draw(st.sampled_from([12, 12, 13, 15, 16]))
        alg = D.seq(D.oid(o), D.seq(D.octets(draw(st.binary(min_size=12, max_size=16))), D.integer(n) if n != 12 else b""))
    return {"kind": k, "alg": alg, "secret": secret, "same": h1 == h2, "h": [h1, h2]}


def foreign(case, ctx):
    f = case["f"]
    ctx.label(f["kind"])
    w = Wire(case["base"])
    w = Wire(w.build(header=w.set_header("protectionAlg", f["alg"])))
    mac = expected(f["alg"], f["secret"], w.protected)
    data = w.build(prot=mac)
    ctx.nontrivial()
    m = ctx.accepts("decoding", parse, data)
    if enc(m) != data:
        ctx.fail("re-encoding changes the message")
    ctx.accepts(f"verification of a peer's {f['kind']} message", PU.verify_pkimessage_protection, m, password=f["secret"])
    ctx.rejects("other secret", PU.verify_pkimessage_protection, m, password=other_secret(f["secret"], case["how"] // 4 * 4), exc=BadMacProtection)
    if f["kind"] in ("pbm", "pbmac1"):
        ok = f["same"] and f["h"][0] in SHA[1:]
        if ok:
            ctx.accepts("lightweight profile", PU.verify_pkimessage_protection, m, password=f["secret"], enforce_lwcmp=True)
        else:
            ctx.rejects("lightweight profile (hashes differ or are not SHA-2)", PU.verify_pkimessage_protection, m, password=f["secret"], enforce_lwcmp=True)


HOW = st.integers(0, 10**6)
SUBS = [
    Sub("value", st.fixed_dictionaries({"base": base_message(), "p": protections()}), genuine, quick=1200, thorough=12000, shards=8,
        text="protect; MAC value recomputed independently from the wire bytes; verify before and after the wire"),
    Sub("forgeries", st.fixed_dictionaries({"base": base_message(), "p": protections(), "how": HOW, "alters": st.lists(ALTER, min_size=4, max_size=8)}),
        forged, quick=700, thorough=8000, shards=8, text="other secrets, changed MAC values, changed parameters, changed header and body"),
    Sub("foreign", st.fixed_dictionaries({"base": base_message(), "f": foreign_alg(), "how": HOW}), foreign, quick=700, thorough=8000, shards=8,
        text="messages protected by an independent implementation with parameters the suite does not choose itself"),
]
