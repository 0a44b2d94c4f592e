"""C04: Diffie-Hellman and KEM based MAC protection."""
from cryptography.exceptions import InvalidSignature
from hypothesis import strategies as st

from checks.c02 import HASH_OID, HMAC_OID, O2D, O2H, PBKDF2, SHA, SHA3, num, octs
from lib import certs, cmpx, ec, keys, ref
from lib import der as D
from lib.cmpx import ALTER, Wire, altered_message, base_message, enc, parse
from lib.harness import Sub
from pq_logic.tmp_oids import id_it_KemCiphertextInfo
from resources import protectionutils as PU
from resources.exceptions import BadMessageCheck, CMPTestSuiteError

PROPERTY = "C04"
TECHNIQUE = "generated messages, keys and MAC parameters against an independent DHBasedMac and KEMBasedMac; messages made by an independent sender; alteration search on the wire bytes"
RULE = ("Headers and bodies of every body type, EC/X25519/X448 and KEM keys, every supported hash, MAC and KDF with generated parameters, made by the suite or by an independent peer. "
        "Non-trivial: the MAC was recomputed from the transmitted parameters, or the altered message decodes to a different header, body or parameter.")
ASSUMPTIONS = ["X25519, X448 and ML-KEM decapsulation are right (C13, C15); EC Diffie-Hellman is recomputed in lib/ec.py"]

DHBM, KEMBM = "1.2.840.113533.7.66.30", "1.2.840.113533.7.66.16"
GMAC = {"aes128_gmac": ("2.16.840.1.101.3.4.1.9", 16), "aes192_gmac": ("2.16.840.1.101.3.4.1.29", 24), "aes256_gmac": ("2.16.840.1.101.3.4.1.49", 32)}
KMAC = {"kmac-shake128": ("2.16.840.1.101.3.4.2.19", 128, 32), "kmac-shake256": ("2.16.840.1.101.3.4.2.20", 256, 64)}
G2 = {D.oid(o): n for o, n in GMAC.values()}
K2 = {D.oid(o): (b, n) for o, b, n in KMAC.values()}
KDF2, KDF3 = "1.3.133.16.840.9.44.1.1", "1.3.133.16.840.9.44.1.2"
HKDF = {"sha256": "1.2.840.113549.1.9.16.3.28", "sha384": "1.2.840.113549.1.9.16.3.29", "sha512": "1.2.840.113549.1.9.16.3.30"}
H2 = {D.oid(v): k for k, v in HKDF.items()}
DHKEYS = ["x25519", "x448", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:brainpoolP256r1", "ec:brainpoolP384r1"]
KEMS = {"ml-kem-512": "2.16.840.1.101.3.4.4.1", "ml-kem-768": "2.16.840.1.101.3.4.4.2", "ml-kem-1024": "2.16.840.1.101.3.4.4.3", "xwing": None}
SLOWKEMS = ["composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:rsa2048", "composite-dhkem:ml-kem-768:x25519", "chempat:ml-kem-768:x25519"]
BAD = (BadMessageCheck, CMPTestSuiteError, ValueError, InvalidSignature)


def itkem():
    """The suite uses a private infoType for KemCiphertextInfo (pq_logic/tmp_oids.py)."""
    return D.oid(str(id_it_KemCiphertextInfo))


def dh_ss(name, i, j):
    """The shared secret of key pairs i and j of one curve."""
    if name.startswith("x"):
        return keys.get(name, i).exchange(keys.get(name, j).public_key())
    c = ec.Curve(name[3:])
    n = keys.get(name, j).public_key().public_numbers()
    x = c.mul(keys.get(name, i).private_numbers().private_value, (n.x, n.y))[0]
    return x.to_bytes((keys.get(name, i).key_size + 7) // 8, "big")


def key_from(base, length, owf):
    """RFC 9810 5.1.3.2: K from BASEKEY."""
    out, i = base, 1
    while len(out) < length:
        out += ref.hash_(owf, str(i).encode() + base)
        i += 1
    return out[:length]


def mac_of(alg, key, data):
    """MAC by its AlgorithmIdentifier; key is a function of the wanted length (None: as it comes)."""
    oid, par = cmpx.algid(alg)
    if oid in O2H:
        return ref.hmac(O2H[oid], key(None), data)
    if oid in K2:
        return ref.kmac(K2[oid][0], key(32), data, K2[oid][1])
    p = D.split(par)
    return ref.gmac(key(G2[oid]), octs(p[0]), data, num(p[1]) if len(p) > 1 else 12)


def dh_expected(alg, ss, data):
    oid, par = cmpx.algid(alg)
    assert oid == D.oid(DHBM)
    owf, mac = D.split(par)
    h = O2D[cmpx.algid(owf)[0]]
    base = ref.hash_(h, ss)
    return mac_of(mac, lambda n: base if n is None else key_from(base, n, h), data)


def kdf(alg, ss, length, info):
    oid, par = cmpx.algid(alg)
    if oid in H2:
        return ref.hkdf(H2[oid], ss, b"", info, length)
    if oid == D.oid(KDF2):
        return ref.x963(O2D[cmpx.algid(par)[0]], ss, info, length)
    if oid == D.oid(KDF3):
        return ref.kdf3(O2D[cmpx.algid(par)[0]], ss, info, length)
    assert oid == D.oid(PBKDF2)
    s, it, ln, prf = D.split(par)
    return ref.pbkdf2(O2H[cmpx.algid(prf)[0]], ss, octs(s), num(it), num(ln))


def kem_expected(alg, ss, tx, data):
    oid, par = cmpx.algid(alg)
    assert oid == D.oid(KEMBM)
    p = D.split(par)
    k, cx = p[0], None
    if p[1][0] == 0xA0:
        cx = D.split(p[1])[0]
        p = p[:1] + p[2:]
    info = D.seq(D.seq(D.utf8("CMP-KEM")), D.octets(tx), D.ctx(0, cx) if cx else b"")
    mk = kdf(k, ss, num(p[1]), info)
    return mac_of(p[2], lambda _n: mk, data)


# ---- strategies
base_st = base_message()
hash_st = st.sampled_from(SHA + SHA3)
dhp_st = st.fixed_dictionaries({"hash": hash_st, "mac": st.sampled_from(["hmac", "hmac", "hmac-other", "kmac", "kmac-shake128"] + sorted(GMAC)), "mac_hash": hash_st, "nonce": st.binary(min_size=12, max_size=16)})
DH = st.fixed_dictionaries({"base": base_st, "key": st.sampled_from(DHKEYS), "how": st.sampled_from(["secret", "peer-key", "peer-cert", "extra"]), "p": dhp_st, "secret": st.binary(min_size=1, max_size=80),
                            "alters": st.lists(ALTER, min_size=2, max_size=2), "n": st.integers(0, 10**6), "peer": st.booleans()})


def dh_alg(p):
    """An independent encoding of the DHBMParameter."""
    m = p["mac"]
    if m.startswith("hmac"):
        mac = D.seq(D.oid(HMAC_OID[p["mac_hash"] if m == "hmac-other" else p["hash"]]))
    elif m.startswith("kmac"):
        mac = D.seq(D.oid(KMAC["kmac-shake256" if m == "kmac" else m][0]))
    else:
        mac = D.seq(D.oid(GMAC[m][0]), D.seq(D.octets(p["nonce"])))
    return D.seq(D.oid(DHBM), D.seq(D.seq(D.oid(HASH_OID[p["hash"]])), mac))


def with_prot(data, alg, compute, extra=None):
    """The message as an independent sender protects it."""
    w = Wire(data)
    hdr = w.set_header("protectionAlg", alg)
    w = Wire(w.build(header=hdr, prot=b"\x00"))
    if extra is not None:
        gi = w.fields().get("generalInfo")
        hdr = w.set_header("generalInfo", D.seq(*(D.split(gi) if gi else []), extra))
        w = Wire(w.build(header=hdr))
    return w.build(prot=compute(w))


def dh(case, ctx):
    name, p, how = case["key"], case["p"], case["how"]
    macname = {"hmac-other": "hmac-" + p["mac_hash"]}.get(p["mac"], p["mac"])
    ctx.label("dh", how, p["mac"], name if how != "secret" else "secret", "peer-made" if case["peer"] else "suite-made")
    ss = case["secret"] if how == "secret" else dh_ss(name, 0, 1)
    if case["peer"]:
        if how == "extra":
            how = "peer-key"
        data = with_prot(case["base"], dh_alg(p), lambda w: dh_expected(w.fields()["protectionAlg"], ss, w.protected))
    else:
        kw = dict(hash_alg=p["hash"], mac_alg=macname, salt=p["nonce"])
        if how == "secret":
            kw["shared_secret"] = ss
        else:
            kw["private_key"] = keys.get(name, 0)
            kw["peer"] = keys.get(name, 1).public_key() if how != "peer-cert" else certs.cert_for(name, 1, ca=("ec:secp256r1", 0))
            if how == "extra" or name.startswith("x"):
                kw["cert"] = certs.cert_for(name, 0, ca=("ec:secp256r1", 0))
            else:
                kw["exclude_certs"] = True
        msg = ctx.accepts("protecting", PU.protect_pkimessage, parse(case["base"]), "dh", **kw)
        data = enc(msg)
        w, alg = Wire(data), Wire(data).fields()["protectionAlg"]
        ctx.eq(w.body, Wire(case["base"]).body, "body after protecting")
        mine = D.split(cmpx.algid(dh_alg(p))[1])
        got = D.split(cmpx.algid(alg)[1])
        ctx.eq((cmpx.algid(got[0])[0], cmpx.algid(got[1])[0]), (cmpx.algid(mine[0])[0], cmpx.algid(mine[1])[0]), "DHBMParameter algorithms")
        if p["mac"].startswith("aes"):
            ctx.eq(octs(D.split(cmpx.algid(got[1])[1])[0]), p["nonce"], "GMAC nonce")
        ctx.eq(w.prot, dh_expected(alg, ss, w.protected), f"DHBasedMac value with {macname} and {p['hash']}")
    ctx.nontrivial()
    w = Wire(data)

    def ver(msg, j=1, k=0):
        if how == "secret":
            return PU.verify_pkimessage_protection(msg, shared_secret=ss)
        pub = None if how == "extra" else keys.get(name, k).public_key() if how == "peer-key" else certs.cert_for(name, k, ca=("ec:secp256r1", 0))
        return PU.verify_pkimessage_protection(msg, private_key=keys.get(name, j), public_key=pub)

    ctx.accepts("verification at the peer", ver, parse(data))
    if how != "secret":
        ctx.accepts("verification with the shared secret", PU.verify_pkimessage_protection, parse(data), shared_secret=ss)
        ctx.rejects("another private key", ver, parse(data), j=0, exc=BAD)
        if how != "extra":
            ctx.rejects("another public key", ver, parse(data), k=1, exc=BAD)
    n = case["n"]
    b = bytearray(ss)
    b[n % len(b)] ^= 1 << n % 8
    for name2, x in (("flipped", bytes(b)), ("longer", ss + b"\x00"), ("shorter", ss[:-1])):
        if x:
            ctx.rejects(f"{name2} shared secret", PU.verify_pkimessage_protection, parse(data), shared_secret=x, exc=BAD)
    damage(ctx, w, ver, n, case["alters"])
    owf, mac = D.split(cmpx.algid(w.fields()["protectionAlg"])[1])
    o2 = sorted(O2D)[n % len(O2D)]
    if o2 != cmpx.algid(owf)[0]:
        ctx.op()
        ctx.rejects("another owf", ver, parse(w.build(header=w.set_header("protectionAlg", D.seq(D.oid(DHBM), D.seq(D.seq(o2), mac))))), exc=BAD)
    m2 = D.seq(sorted(O2H)[n % len(O2H)])
    if cmpx.algid(m2)[0] != cmpx.algid(mac)[0]:
        ctx.op()
        ctx.rejects("another MAC algorithm", ver, parse(w.build(header=w.set_header("protectionAlg", D.seq(D.oid(DHBM), D.seq(owf, m2))))), exc=BAD)


def damage(ctx, w, ver, n, alters):
    """Changes to the MAC value, the header and the body."""
    mac = w.prot
    i = n % (len(mac) * 8)
    bad = bytearray(mac)
    bad[i // 8] ^= 1 << (i % 8)
    for what, m in (("flipped", bytes(bad)), ("truncated", mac[:-1 - n % len(mac)]), ("extended", mac + mac[:1])):
        ctx.op()
        ctx.rejects(f"{what} MAC value", ver, parse(w.build(prot=m)), exc=BAD)
    for a in alters:
        m, label = altered_message(w.data, a)
        if m is not None:
            ctx.op()
            ctx.label("alter:" + label)
            ctx.rejects(f"altered message ({a})", ver, m, exc=BAD + (Exception,))


# ---- KEM
kdf_st = st.fixed_dictionaries({"kdf": st.sampled_from(["kdf2", "kdf3", "hkdf", "pbkdf2"]), "hash": st.sampled_from(SHA[1:] + SHA3), "len": st.sampled_from([1, 16, 20, 31, 32, 33, 64, 100, 200]),
                                "mac": st.sampled_from(SHA[1:] + SHA3 + sorted(KMAC)), "cx": st.one_of(st.none(), st.binary(min_size=1, max_size=40)), "salt": st.binary(min_size=1, max_size=30),
                                "it": st.integers(1, 30), "null": st.booleans()})
KEM = st.fixed_dictionaries({"base": base_st, "key": st.sampled_from(sorted(KEMS) * 2 + SLOWKEMS), "how": st.sampled_from(["cert", "secret", "cert"]), "p": kdf_st, "secret": st.binary(min_size=1, max_size=80),
                             "tx": st.binary(min_size=1, max_size=32), "alters": st.lists(ALTER, min_size=2, max_size=2), "n": st.integers(0, 10**6), "peer": st.booleans()})


def kem_alg(p):
    h = D.oid(HASH_OID[p["hash"]])
    hid = D.seq(h, D.null()) if p["null"] else D.seq(h)
    k = {"kdf2": lambda: D.seq(D.oid(KDF2), hid), "kdf3": lambda: D.seq(D.oid(KDF3), hid), "hkdf": lambda: D.seq(D.oid(HKDF.get(p["hash"], HKDF["sha256"]))),
         "pbkdf2": lambda: D.seq(D.oid(PBKDF2), D.seq(D.octets(p["salt"]), D.integer(p["it"]), D.integer(p["len"]), D.seq(D.oid(HMAC_OID[p["hash"]]), D.null())))}[p["kdf"]]()
    m = D.seq(D.oid(KMAC[p["mac"]][0])) if p["mac"] in KMAC else D.seq(D.oid(HMAC_OID[p["mac"]]))
    return D.seq(D.oid(KEMBM), D.seq(k, D.ctx(0, D.octets(p["cx"])) if p["cx"] is not None else b"", D.integer(p["len"]), m))


def kem(case, ctx):
    name, p, n = case["key"], dict(case["p"]), case["n"]
    how = case["how"]
    if p["mac"] in KMAC:
        p["len"] = max(32, p["len"])  # the suite's KMAC refuses keys below 32 bytes
    peer = case["peer"] and (how == "secret" or KEMS.get(name))
    w0 = Wire(case["base"])
    base = w0.build(header=w0.set_header("transactionID", D.octets(case["tx"])))
    ctx.label("kem", how, p["kdf"], name if how == "cert" else "secret", "peer-made" if peer else "suite-made", "ctx" if p["cx"] else "no-ctx")
    ss = case["secret"]
    if peer:
        extra = None
        if how == "cert":
            ss, ct = keys.get(name, 0).public_key().encaps()
            extra = D.seq(itkem(), D.seq(D.seq(D.oid(KEMS[name])), D.octets(ct)))
            ctx.op()
        data = with_prot(base, kem_alg(p), lambda w: kem_expected(w.fields()["protectionAlg"], ss, case["tx"], w.protected), extra)
    else:
        if p["kdf"] == "hkdf":
            p["hash"] = {"sha224": "sha256", "sha3_224": "sha384"}.get(p["hash"], p["hash"])
            p["hash"] = p["hash"] if p["hash"] in HKDF else "sha512"
        kw = dict(kdf=p["kdf"], hash_alg=p["hash"], context=p["cx"])
        if how == "cert":
            kw["peer_cert"] = certs.cert_for(name, 0, ca=("ec:secp256r1", 0))
        else:
            kw["shared_secret"] = ss
        data = enc(ctx.accepts("protecting", PU.protect_pkimessage_kem_based_mac, parse(base), **kw))
        w = Wire(data)
        ctx.eq(w.body, w0.body, "body after protecting")
        if how == "cert":
            gi = [x for x in D.split(w.fields()["generalInfo"]) if D.split(x)[0] == itkem()]
            kid, ct = D.split(D.split(gi[-1])[1])
            if KEMS.get(name):
                ctx.eq(D.split(kid)[0], D.oid(KEMS[name]), "KEM algorithm in KemCiphertextInfo")
            k = keys.get(name, 0)
            ss = k.decaps(octs(ct), use_in_cms=True) if name.startswith("composite-kem") else k.decaps(octs(ct))
        par = D.split(cmpx.algid(w.fields()["protectionAlg"])[1])
        if p["kdf"] != "hkdf":
            want = {"kdf2": KDF2, "kdf3": KDF3, "pbkdf2": PBKDF2}[p["kdf"]]
            ctx.eq(cmpx.algid(par[0])[0], D.oid(want), "KDF")
        ctx.eq(par[1][0] == 0xA0, p["cx"] is not None, "kemContext present")
        ctx.eq(cmpx.algid(par[-1])[0], D.oid(HMAC_OID[p["hash"]]), "MAC algorithm")
        ctx.eq(w.prot, kem_expected(w.fields()["protectionAlg"], ss, case["tx"], w.protected), f"KEMBasedMac value ({p['kdf']}, {p['hash']})")
    ctx.nontrivial()
    w = Wire(data)

    def ver(msg, i=0):
        if how == "secret":
            return PU.verify_pkimessage_protection(msg, shared_secret=ss)
        return PU.verify_pkimessage_protection(msg, private_key=keys.get(name, i))

    ctx.accepts("verification at the peer", ver, parse(data))
    ctx.accepts("verification with the shared secret", PU.verify_kem_based_mac_protection, parse(data), shared_secret=ss)
    if how == "cert":
        ctx.rejects("another private key", ver, parse(data), i=1, exc=BAD)
        other = "ml-kem-512" if name != "ml-kem-512" else "ml-kem-768"
        ctx.rejects("key of another algorithm", PU.verify_pkimessage_protection, parse(data), private_key=keys.get(other, 0), exc=BAD)
        gis = D.split(w.fields()["generalInfo"])
        j = max(i for i, x in enumerate(gis) if D.split(x)[0] == itkem())
        ct = bytearray(octs(D.split(D.split(gis[j])[1])[1]))
        ct[n % len(ct)] ^= 1 << n % 8
        ctx.op()
        ctx.rejects("changed ciphertext", ver, parse(w.build(header=w.set_header("generalInfo", D.seq(*gis[:j], D.seq(itkem(), D.seq(D.split(D.split(gis[j])[1])[0], D.octets(bytes(ct)))), *gis[j + 1:])))), exc=BAD)
        ctx.rejects("ciphertext removed", ver, parse(w.build(header=w.set_header("generalInfo", D.seq(*gis[:j], *gis[j + 1:]) if len(gis) > 1 else None))), exc=BAD)
    b = bytearray(ss)
    b[n % len(b)] ^= 1 << n % 8
    ctx.rejects("another shared secret", PU.verify_kem_based_mac_protection, parse(data), shared_secret=bytes(b), exc=BAD)
    full = ver

    def ver(msg):
        if how == "cert" and n % 4:  # decapsulation is slow: use the shared secret most of the time
            return PU.verify_kem_based_mac_protection(msg, shared_secret=ss)
        return full(msg)

    damage(ctx, w, ver, n, case["alters"])
    par = D.split(cmpx.algid(w.fields()["protectionAlg"])[1])
    ch = []
    if par[1][0] == 0xA0:
        c = bytearray(octs(D.split(par[1])[0]))
        c[n % len(c)] ^= 1
        ch += [("kemContext", [par[0], D.ctx(0, D.octets(bytes(c))), *par[2:]]), ("kemContext removed", [par[0], *par[2:]])]
    else:
        ch += [("kemContext added", [par[0], D.ctx(0, D.octets(b"x")), *par[1:]])]
    ch.append(("len", [*par[:-2], D.integer(num(par[-2]) + 1 + n % 40), par[-1]]))
    m2 = sorted(O2H)[n % len(O2H)]
    if m2 != cmpx.algid(par[-1])[0]:
        ch.append(("mac", [*par[:-1], D.seq(m2)]))
    koid = cmpx.algid(par[0])[0]
    if koid in (D.oid(KDF2), D.oid(KDF3)):
        ch.append(("kdf", [D.seq(D.oid(KDF3 if koid == D.oid(KDF2) else KDF2), cmpx.algid(par[0])[1]), *par[1:]]))
    for what, x in ch:
        ctx.op()
        ctx.label("param:" + what)
        ctx.rejects(f"changed {what}", ver, parse(w.build(header=w.set_header("protectionAlg", D.seq(D.oid(KEMBM), D.seq(*x))))), exc=BAD)
    tx = bytearray(case["tx"])
    tx[n % len(tx)] ^= 1
    ctx.rejects("changed transactionID", ver, parse(w.build(header=w.set_header("transactionID", D.octets(bytes(tx))))), exc=BAD)
    ctx.rejects("transactionID removed", ver, parse(w.build(header=w.set_header("transactionID", None))), exc=BAD)


SUBS = [
    Sub("dh", DH, dh, quick=440, thorough=9000, shards=4, text="DHBasedMac made by the suite or an independent peer; value, peers, changes"),
    Sub("kem", KEM, kem, quick=240, thorough=6000, shards=4, text="KEMBasedMac made by the suite or an independent peer; value, peers, changes"),
]
