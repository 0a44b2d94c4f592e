"""C07: EnvelopedData hands the content key to the named recipient only."""
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from hypothesis import strategies as st

from checks.c02 import O2D, num, octs
from checks.c04 import kdf
from lib import cmpx, der as D, ec as E, keys, ref
from lib.certs import cert_for
from lib.harness import Skip, Sub
from pq_logic.keys.composite_kem import CompositeKEMPrivateKey
from pyasn1.codec.der import decoder
from pyasn1_alt_modules import rfc9480
from resources import ca_kga_logic as KGA
from resources import envdatautils as EV

PROPERTY = "C07"
TECHNIQUE = "generated EnvelopedData structures opened by an independent implementation of RFC 5652/5753/9629, structures made by that implementation opened by the suite, and generated damage"
RULE = ("All four recipient kinds with generated passwords, keys, algorithms, content keys and contents. Non-trivial: the independent implementation opened the structure, "
        "or a damaged structure differed from the genuine one.")
ASSUMPTIONS = ["AES, RSA and ECDH of cryptography are correct; KEM decapsulation is that of the suite (decided by C13); KDF, key wrap and MQV are re-implemented in lib/"]
WRAP = {"aes128_wrap": ("2.16.840.1.101.3.4.1.5", 16), "aes192_wrap": ("2.16.840.1.101.3.4.1.25", 24), "aes256_wrap": ("2.16.840.1.101.3.4.1.45", 32)}
WRAP_LEN = {D.oid(o): n for o, n in WRAP.values()}
CBC = {16: D.oid("2.16.840.1.101.3.4.1.2"), 24: D.oid("2.16.840.1.101.3.4.1.22"), 32: D.oid("2.16.840.1.101.3.4.1.42")}
DATA, SIGNED = D.oid("1.2.840.113549.1.7.1"), D.oid("1.2.840.113549.1.7.2")
OAEP, RSAENC, MGF1 = D.oid("1.2.840.113549.1.1.7"), D.oid("1.2.840.113549.1.1.1"), D.oid("1.2.840.113549.1.1.8")
PBKDF2 = D.oid("1.2.840.113549.1.5.12")
X = {"x25519": D.oid("1.3.101.110"), "x448": D.oid("1.3.101.111")}
SHA = ["sha224", "sha256", "sha384", "sha512"]
STD = {D.oid(f"1.3.132.1.11.{i}"): h for i, h in enumerate(SHA)}
COF = {D.oid(f"1.3.132.1.14.{i}"): h for i, h in enumerate(SHA)}
MQV = {D.oid(f"1.3.132.1.15.{i}"): h for i, h in enumerate(SHA)}
ORI_KEM = D.oid("1.2.840.113549.1.9.16.13.3")

cek_st = st.integers(0, 2).flatmap(lambda i: st.binary(min_size=16 + 8 * i, max_size=16 + 8 * i))
data_st = st.one_of(st.binary(max_size=100), st.integers(1, 8).map(lambda n: b"\x10" * 16 * n), st.binary(min_size=300, max_size=600))
pw_st = st.one_of(st.text(min_size=1, max_size=20), st.binary(min_size=1, max_size=70))
DAMAGE = ["none", "key", "content", "iv", "cekalg", "ekey", "param", "type"]


def bpw(p):
    """The bytes of a password, as the suite documents: text is UTF-8, a 0x prefix means hex."""
    return p if isinstance(p, bytes) else p.encode()


def body(x):
    _t, _h, c, e = D.read(x)
    return x[c:e]


def open_content(ci, cek):
    """(content type, plaintext or None) of an EncryptedContentInfo."""
    typ, alg, ct = D.split(ci)
    oid, par = cmpx.algid(alg)
    if CBC[len(cek)] != oid:
        return typ, None
    dec = Cipher(algorithms.AES(cek), modes.CBC(octs(par))).decryptor()
    pt = dec.update(body(ct)) + dec.finalize()
    n = pt[-1] if pt else 0
    if not 1 <= n <= 16 or pt[-n:] != bytes([n]) * n:
        return typ, None
    return typ, pt[:-n]


def parts(der):
    p = D.split(der)
    return p[0], D.split(p[1]), p[2]


def shared_info(wrap_alg, n, ukm):
    return D.seq(wrap_alg, b"" if ukm is None else D.ctx(0, D.octets(ukm)), D.ctx(2, D.octets((n * 8).to_bytes(4, "big"))))


def build(ctx, infos, cek, data, raw, version):
    env = ctx.accepts("preparing the EnvelopedData", EV.prepare_enveloped_data, infos, cek=cek, data_to_protect=data, version=version, target=rfc9480.EnvelopedData(),
                      enc_oid=EV.rfc5652.id_data if raw else EV.rfc5652.id_signedData)
    return cmpx.enc(env)


def load(der):
    env, rest = decoder.decode(der, asn1Spec=rfc9480.EnvelopedData())
    assert not rest
    return env


def damage(der, how, p, locate):
    """A damaged structure; locate(der) gives the offsets of the parts which count for the recipient."""
    v, ris, ci = parts(der)
    typ, alg, ct = D.split(ci)
    if how == "content":
        b = bytearray(body(ct))
        b[p % len(b)] ^= 1 << (p % 8)
        ct = D.tlv(0x80, bytes(b))
    elif how == "iv":
        oid, par = cmpx.algid(alg)
        b = bytearray(octs(par))
        b[p % 16] ^= 1 << (p % 8)
        alg = D.seq(oid, D.octets(bytes(b)))
    elif how == "cekalg":
        oid, par = cmpx.algid(alg)
        other = [o for o in CBC.values() if o != oid]
        alg = D.seq(other[p % 2], par)
    elif how == "type":
        typ = SIGNED if typ == DATA else DATA
    else:
        b = bytearray(ris[0])
        offs = locate(ris[0], how)
        if not offs:
            raise Skip("no such part")
        o = offs[p % len(offs)]
        b[o] ^= 1 << (p // 7 % 8)
        ris = [bytes(b)] + ris[1:]
    return D.seq(v, D.set_of(*ris) if len(ris) == 1 else D.tlv(0x31, b"".join(ris)), D.seq(typ, alg, ct))


def judge(ctx, der, data, raw, how, p, open_, locate, soft=("content", "iv", "cekalg")):
    """Opening the genuine structure returns the data, the damaged one does not."""
    if how == "none":
        ctx.eq(bytes(ctx.accepts("opening the EnvelopedData", open_, load(der))), data, "the content of the EnvelopedData")
        return
    if how == "key":
        return
    bad = damage(der, how, p, locate)
    if bad == der:
        return
    ctx.nontrivial()
    what = f"EnvelopedData whose {how} was changed"
    if how in ("content", "iv"):
        # CBC is malleable: what must not come out is the original content
        try:
            got = open_(load(bad))
        except Exception:
            return
        ctx.check(bytes(got) != data, what + " gave the original content")
        return
    ctx.rejects(what, lambda: open_(load(bad)), exc=Exception)


# --------------------------------------------------------------- password
pwri_case = st.fixed_dictionaries({"pw": pw_st, "pw2": pw_st, "cek": cek_st, "salt": st.binary(min_size=1, max_size=40), "it": st.integers(1, 60), "h": st.sampled_from(["sha1"] + SHA),
                                   "data": data_st, "raw": st.booleans(), "how": st.sampled_from(DAMAGE + ["same-salt"]), "p": st.integers(0, 10**6), "route": st.integers(0, 2), "own": st.booleans(), "klen": st.sampled_from([16, 24, 32])})


def pwri(case, ctx):
    if isinstance(case["pw"], str) and case["pw"].startswith("0x"):
        raise Skip("hexadecimal notation of passwords")
    pw, cek, data, how, raw = case["pw"], case["cek"], case["data"], case["how"], case["raw"]
    ctx.label(how, "peer" if case["own"] else "suite", f"cek{len(cek)}")
    if case["own"] and case["h"] != "sha1":
        # made by a peer: any AES key wrap and matching KDF length
        n = case["klen"]
        kek = ref.pbkdf2(case["h"], bpw(pw), case["salt"], case["it"], n)
        prf = D.seq(D.oid({"sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9", "sha384": "1.2.840.113549.2.10", "sha512": "1.2.840.113549.2.11"}[case["h"]]), D.null())
        if case["h"] == "sha224" or case["it"] % 2:
            prf = D.seq(D.split(prf)[0], b"")
        k = D.ctx(0, PBKDF2, D.seq(D.octets(case["salt"]), D.integer(case["it"]), D.integer(n), prf))
        info = D.ctx(3, D.integer(3), k, D.seq(D.oid(next(o for o, m in WRAP.values() if m == n))), D.octets(ref.aes_wrap(kek, cek)))
        iv = case["salt"].ljust(16, b"\1")[:16]
        der = D.seq(D.integer(0), D.set_of(info), D.seq(DATA if raw else SIGNED, D.seq(CBC[len(cek)], D.octets(iv)), D.tlv(0x80, ref.aes_cbc_encrypt(cek, iv, data))))
    elif case["route"]:
        ri = ctx.accepts("preparing the recipient", EV.prepare_password_recipient_info, pw, cek=cek, salt=case["salt"], iterations=case["it"], hash_alg=case["h"] if case["h"] != "sha1" else "sha256")
        der = build(ctx, EV.parse_recip_info(ri), cek, data, raw, 0)
    else:
        env = ctx.accepts("preparing the EnvelopedData with a password", EV.prepare_enveloped_data_with_pwri, pw, data, cek=cek, salt=case["salt"], for_raw_data=raw, for_enc_key=False)
        der = cmpx.enc(env)
    v, ris, ci = parts(der)
    ctx.eq(num(v), 0, "version with a PasswordRecipientInfo")
    ctx.eq(ris[0][0], 0xA3, "tag of the recipient")
    x = D.split(ris[0])
    ctx.eq(num(x[0]), 3 if not case["own"] else num(x[0]), "version of the PasswordRecipientInfo")
    koid, kpar = D.split(x[1])
    ctx.eq(koid, PBKDF2, "key derivation algorithm")
    pp = D.split(kpar)
    ctx.eq(octs(pp[0]), case["salt"], "salt")
    wl = WRAP_LEN[cmpx.algid(x[2])[0]]
    ctx.eq(num(pp[2]), wl, "length of the derived key")
    from checks.c02 import O2H
    kek = ref.pbkdf2(O2H[cmpx.algid(pp[3])[0]], bpw(pw), octs(pp[0]), num(pp[1]), wl)
    ctx.eq(ref.aes_unwrap(kek, octs(x[3])), cek, "the content key for the password")
    typ, pt = open_content(ci, cek)
    ctx.eq(typ, DATA if raw else SIGNED, "content type")
    ctx.eq(pt, data, "the content under the content key")
    ctx.nontrivial()
    other = b"another salt " + case["salt"]

    def open_(env, password=pw, salt=other):
        if case["p"] % 2:
            return KGA.validate_enveloped_data(env, password=password, cmp_protection_salt=salt, expected_raw_data=raw)
        return KGA.validate_pwri_enveloped_data(env, password, cmp_protection_salt=salt, expected_raw_data=raw, skip_verify=True)

    if how == "key":
        if bpw(case["pw2"]).rstrip(b"\0") != bpw(pw).rstrip(b"\0") and not (isinstance(case["pw2"], str) and case["pw2"].startswith("0x")):
            ctx.rejects("opening with another password", lambda: open_(load(der), password=case["pw2"]), exc=Exception)
        return
    if how == "same-salt":
        ctx.rejects("the salt of the message protection used again", lambda: open_(load(der), salt=case["salt"]), exc=ValueError)
        return

    def locate(ri, what):
        y = D.split(ri)
        end = len(ri)
        if what == "ekey":
            return list(range(end - len(octs(y[3])), end))
        p0 = ri.index(D.octets(case["salt"])) + 2
        return list(range(p0, p0 + len(case["salt"]))) if what == "param" else []
    judge(ctx, der, data, raw, how, case["p"], open_, locate)


# --------------------------------------------------------------- RSA
ktri_case = st.fixed_dictionaries({"k": st.sampled_from(["rsa2048", "rsa2048", "rsa1024", "rsa3072"]), "i": st.integers(0, 1), "cek": cek_st, "data": data_st, "raw": st.booleans(), "oaep": st.booleans(), "ski": st.booleans(),
                                   "own": st.booleans(), "h": st.sampled_from(["sha1", "sha224", "sha256", "sha384", "sha512"]), "g": st.sampled_from(["sha1", "sha224", "sha256", "sha384", "sha512"]), "absent": st.integers(0, 3),
                                   "how": st.sampled_from(DAMAGE + ["rid"]), "p": st.integers(0, 10**6), "pop": st.booleans(), "null": st.booleans()})
HO = {"sha1": "1.3.14.3.2.26", "sha224": "2.16.840.1.101.3.4.2.4", "sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}
HI = {"sha1": hashes.SHA1(), "sha224": hashes.SHA224(), "sha256": hashes.SHA256(), "sha384": hashes.SHA384(), "sha512": hashes.SHA512()}
O2N = {D.oid(o): n for n, o in HO.items()}


def rid_der(cert, der_cert, ski):
    t = D.split(D.split(der_cert)[0])
    if ski is not None:
        return D.tlv(0x80, ski)
    return D.seq(t[3], t[1])


def ski_of(cert):
    from resources.certextractutils import get_field_from_certificate
    return get_field_from_certificate(cert, extension="ski")


def check_rid(ctx, rid, cert, tag_ski=0x80):
    ctx.eq(rid, rid_der(cert, cmpx.enc(cert), ski_of(cert)), "the recipient identifier names the certificate")


def ktri(case, ctx):
    k, i, cek, data, raw, how = case["k"], case["i"], case["cek"], case["data"], case["raw"], case["how"]
    key = keys.get(k, i)
    cert = cert_for(k, i, ski=case["ski"])
    n = key.key_size // 8
    h, g = case["h"], case["g"]
    if case["own"] and n - 2 - 2 * HI[h].digest_size < len(cek):
        h = g = "sha1"
    ctx.label(how, "peer" if case["own"] else "suite", "oaep" if case["oaep"] else "pkcs1", k)
    if case["own"]:
        if case["oaep"]:
            if case["absent"] & 1:
                h = "sha1"
            if case["absent"] & 2:
                g = "sha1"
            nul = D.null() if case["null"] else b""
            ps = (b"" if case["absent"] & 1 else D.ctx(0, D.seq(D.oid(HO[h]), nul))) + (b"" if case["absent"] & 2 else D.ctx(1, D.seq(MGF1, D.seq(D.oid(HO[g]), nul))))
            alg = D.seq(OAEP, D.seq(ps))
            pad = padding.OAEP(padding.MGF1(HI[g]), HI[h], None)
        else:
            alg, pad = D.seq(RSAENC), padding.PKCS1v15()
        info = D.seq(D.integer(2), rid_der(cert, cmpx.enc(cert), ski_of(cert)), alg, D.octets(key.public_key().encrypt(cek, pad)))
        iv = bytes(16)
        der = D.seq(D.integer(2), D.set_of(info), D.seq(DATA if raw else SIGNED, D.seq(CBC[len(cek)], D.octets(iv)), D.tlv(0x80, ref.aes_cbc_encrypt(cek, iv, data))))
    else:
        if case["oaep"] and n - 2 - 96 < len(cek):
            raise Skip("content key too long for OAEP with SHA-384")
        ri = ctx.accepts("preparing the recipient", EV.prepare_ktri, key.public_key(), cert, cek, use_rsa_oaep=case["oaep"])
        der = build(ctx, ri, cek, data, raw, 2)
    v, ris, ci = parts(der)
    x = D.split(ris[0])
    ctx.eq((num(v), num(x[0])), (2, 2) if not case["own"] else (num(v), num(x[0])), "versions")
    check_rid(ctx, x[1], cert)
    oid, par = cmpx.algid(x[2])
    if oid == RSAENC:
        ctx.check(par in (None, b""), "parameters of rsaEncryption must be absent")
        pad = padding.PKCS1v15()
    else:
        ctx.eq(oid, OAEP, "key transport algorithm")
        hh, gg = "sha1", "sha1"
        for y in D.split(par):
            if y[0] == 0xA0:
                hh = O2N[cmpx.algid(D.split(y)[0])[0]]
            if y[0] == 0xA1:
                a = D.split(D.split(y)[0])
                ctx.eq(a[0], MGF1, "mask generation function")
                ctx.eq(a[1][0], 0x30, "parameters of id-mgf1 (an AlgorithmIdentifier, RFC 4055)")
                gg = O2N[cmpx.algid(a[1])[0]]
        pad = padding.OAEP(padding.MGF1(HI[gg]), HI[hh], None)
    ctx.eq(key.decrypt(octs(x[3]), pad), cek, "the content key for the RSA key")
    ctx.eq(open_content(ci, cek), (DATA if raw else SIGNED, data), "content")
    ctx.nontrivial()

    def open_(env, key=key, cert=cert):
        return KGA.validate_enveloped_data(env, ee_key=key, cmp_protection_cert=None if case["pop"] else cert, for_pop=case["pop"], expected_raw_data=raw)

    if how == "rid":
        if not case["pop"]:
            other = cert_for(k, i, ski=not case["ski"]) if case["p"] % 2 else cert_for(k, 1 - i, ski=case["ski"])
            ctx.rejects("a recipient identifier of another certificate", lambda: open_(load(der), cert=other), exc=ValueError)
        return
    if how == "key":
        try:
            got = open_(load(der), key=keys.get(k, 1 - i))
        except Exception:
            return
        ctx.check(bytes(got) != data, "another RSA key opened the EnvelopedData")
        return

    def locate(ri, what):
        y = D.split(ri)
        if what == "ekey":
            return list(range(len(ri) - len(octs(y[3])), len(ri)))
        return []
    if how == "ekey" and oid == RSAENC:
        # implicit rejection gives a random key: only the content must not come out
        bad = damage(der, how, case["p"], locate)
        try:
            got = open_(load(bad))
        except Exception:
            return
        ctx.check(bytes(got) != data, "changed encrypted key gave the original content")
        return
    judge(ctx, der, data, raw, how, case["p"], open_, locate)


# --------------------------------------------------------------- key agreement
CURVES = ["secp256r1", "secp384r1", "secp521r1", "brainpoolP256r1", "brainpoolP384r1", "brainpoolP512r1", "secp224r1"]
kari_case = st.fixed_dictionaries({"k": st.sampled_from([f"ec:{c}" for c in CURVES] + ["x25519", "x448", "x25519"]), "mode": st.sampled_from(["std", "cof", "mqv"]), "h": st.sampled_from(SHA), "wrap": st.sampled_from(sorted(WRAP)),
                                   "cek": cek_st, "data": data_st, "raw": st.booleans(), "ukm": st.one_of(st.none(), st.binary(min_size=1, max_size=40)), "ski": st.booleans(), "how": st.sampled_from(DAMAGE + ["rid", "peer"]),
                                   "p": st.integers(0, 10**6), "own": st.booleans(), "pop": st.booleans(), "i": st.integers(0, 3)})


def dh(a, b):
    from cryptography.hazmat.primitives.asymmetric import ec
    return a.exchange(ec.ECDH(), b) if hasattr(a, "curve") else a.exchange(b)


def kari(case, ctx):
    k, cek, data, raw, how, mode, h = case["k"], case["cek"], case["data"], case["raw"], case["how"], case["mode"], case["h"]
    i = case["i"]
    mine, peer = keys.get(k, i), keys.get(k, i + 4)          # recipient, sender
    sender_cert = cert_for(k, i + 4, ski=case["ski"], ca=("ec:secp256r1", 0))
    woid, wl = WRAP[case["wrap"]]
    walg = D.seq(D.oid(woid))
    isx = k in X
    if isx:
        mode, h = "std", "sha256" if case["own"] else h
    ctx.label(k, mode, case["wrap"], how, "peer" if case["own"] else "suite")
    eph = keys.get(k, i + 8)
    if case["own"]:
        ukm = case["ukm"]
        if mode == "mqv":
            c = E.Curve(k[3:])
            z = E.mqv_u(c, peer.private_numbers().private_value, eph.private_numbers().private_value, point(mine))
            raw_ukm = D.seq(ec_pub(eph), b"" if ukm is None else D.ctx(0, D.octets(ukm)))
            oid = next(o for o, x in MQV.items() if x == h)
        else:
            z = dh(peer, mine.public_key())
            raw_ukm = ukm
            oid = X[k] if isx else next(o for o, x in (COF if mode == "cof" else STD).items() if x == h)
        kek = ref.x963(h, z, shared_info(walg, wl, ukm), wl)
        ident = rid_der(sender_cert, cmpx.enc(sender_cert), ski_of(sender_cert))
        rk = ident if ident[0] == 0x30 else D.ctx(0, D.octets(ski_of(sender_cert)))
        info = D.ctx(1, D.integer(3), D.ctx(0, ident), b"" if raw_ukm is None else D.ctx(1, D.octets(raw_ukm)), D.seq(oid, walg), D.seq(D.seq(rk, D.octets(ref.aes_wrap(kek, cek)))))
        iv = bytes(16)
        der = D.seq(D.integer(2), D.set_of(info), D.seq(DATA if raw else SIGNED, D.seq(CBC[len(cek)], D.octets(iv)), D.tlv(0x80, ref.aes_cbc_encrypt(cek, iv, data))))
    else:
        kw = {"use_mvq": True, "ephemeral_key": eph} if mode == "mqv" else {"use_cofactor": mode == "cof"}
        ri = ctx.accepts("preparing the recipient", EV.prepare_kari, mine.public_key(), peer, cek=cek, cmp_protection_cert=sender_cert, hash_alg=h, ukm=case["ukm"], wrap_alg=case["wrap"], **kw)
        der = build(ctx, EV.parse_recip_info(ri), cek, data, raw, 2)
    v, ris, ci = parts(der)
    ctx.eq(num(v), 2, "version")
    x = D.split(ris[0])
    ctx.eq((ris[0][0], num(x[0])), (0xA1, 3), "KeyAgreeRecipientInfo with version 3")
    ident = rid_der(sender_cert, cmpx.enc(sender_cert), ski_of(sender_cert))
    ctx.eq(D.split(x[1])[0], ident, "the originator names the certificate")
    ukm = octs(D.split(x[2])[0]) if x[2][0] == 0xA1 else None
    rest = x[3:] if ukm is not None else x[2:]
    oid, par = cmpx.algid(rest[0])
    ctx.eq(cmpx.algid(par)[0], D.oid(woid), "key wrap algorithm")
    if mode == "mqv":
        ctx.check(oid in MQV, "algorithm identifier of MQV")
        hh = MQV[oid]
        y = D.split(ukm)
        added = octs(D.split(y[1])[0]) if len(y) > 1 else None
        z = E.mqv_u(E.Curve(k[3:]), peer.private_numbers().private_value, eph.private_numbers().private_value, point(mine))
        ctx.eq(octs_bits(D.split(y[0])[1]), octs_bits(D.split(ec_pub(eph))[1]), "ephemeral public key")
        kek = ref.x963(hh, z, shared_info(walg, wl, added), wl)
    else:
        hh = "sha256" if isx else {**STD, **COF}.get(oid)
        ctx.eq(oid, X[k] if isx else next(o for o, s in (COF if mode == "cof" else STD).items() if s == h), "key agreement algorithm")
        kek = ref.x963(hh, dh(mine, peer.public_key()), shared_info(walg, wl, ukm), wl)
    if not isx:
        ctx.eq(hh, h, "hash of the key agreement algorithm")
    if case["ukm"] is not None:
        ctx.eq(added if mode == "mqv" else ukm, case["ukm"], "user keying material")
    rk = D.split(D.split(rest[1])[0])
    ctx.eq(ref.aes_unwrap(kek, octs(rk[1])), cek, "the content key for the agreed key")
    ctx.eq(open_content(ci, cek), (DATA if raw else SIGNED, data), "content")
    ctx.nontrivial()

    def open_(env, key=mine, cert=sender_cert, peer_cert=sender_cert):
        if case["p"] % 3 == 0 and peer_cert is cert:
            return KGA.validate_kari_env_data(env, key, cert, expected_raw_data=raw, for_pop=case["pop"])
        return KGA.validate_enveloped_data(env, ee_key=key, cmp_protection_cert=cert, kari_cert=peer_cert, for_pop=case["pop"], expected_raw_data=raw)

    if how == "key":
        ctx.rejects("opening with another key", lambda: open_(load(der), key=keys.get(k, i + 1)), exc=Exception)
        return
    if how == "peer":
        ctx.rejects("opening with the certificate of another sender", lambda: open_(load(der), peer_cert=cert_for(k, i + 5, ski=case["ski"], ca=("ec:secp256r1", 0))), exc=Exception)
        return
    if how == "rid":
        if not case["pop"]:
            other = cert_for(k, i + 4, ski=not case["ski"], ca=("ec:secp256r1", 0)) if case["p"] % 2 else cert_for(k, i + 5, ski=case["ski"], ca=("ec:secp256r1", 0))
            ctx.rejects("identifiers of another certificate", lambda: open_(load(der), cert=other), exc=ValueError)
        return

    def locate(ri, what):
        if what == "ekey":
            e = octs(rk[1])
            return list(range(ri.rindex(e), ri.rindex(e) + len(e)))
        if what == "param" and (added if mode == "mqv" else ukm):
            u = added if mode == "mqv" else ukm
            o = ri.rindex(D.octets(u) + rest[0]) + len(D.octets(u)) - len(u)
            return list(range(o, o + len(u)))
        return []
    judge(ctx, der, data, raw, how, case["p"], open_, locate)


def ec_pub(key):
    from cryptography.hazmat.primitives import serialization
    return key.public_key().public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)


def octs_bits(b):
    return body(b)


def point(key):
    n = key.public_key().public_numbers()
    return n.x, n.y


# --------------------------------------------------------------- KEM
KEMS = ["ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing", "rsa2048", "rsa3072", "composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:rsa2048", "composite-kem:ml-kem-768:ec:secp384r1", "composite-kem:ml-kem-1024:x448"]
kem_case = st.fixed_dictionaries({"k": st.sampled_from(KEMS), "i": st.integers(0, 1), "kdf": st.sampled_from(["hkdf", "kdf2", "kdf3", "pbkdf2"]), "h": st.sampled_from(["sha256", "sha384", "sha512"]), "wrap": st.sampled_from(sorted(WRAP)),
                                  "cek": cek_st, "data": data_st, "raw": st.booleans(), "ukm": st.one_of(st.none(), st.binary(min_size=1, max_size=40)), "ski": st.booleans(), "how": st.sampled_from(DAMAGE + ["rid", "ct", "kdf"]),
                                  "p": st.integers(0, 10**6), "own": st.booleans(), "pop": st.booleans()})


def kem(case, ctx):
    k, i, cek, data, raw, how = case["k"], case["i"], case["cek"], case["data"], case["raw"], case["how"]
    wl = WRAP[case["wrap"]][1]
    if case["kdf"] == "pbkdf2" and wl != 32:
        raise Skip("the derived key of the PBKDF2 form has 32 bytes")
    key = keys.get(k, i)
    rsa = k.startswith("rsa")
    kk = key
    cert = recip_cert(case["ski"], i)
    ctx.label(k, case["kdf"], case["wrap"], how)
    if rsa:
        # The suite opens RSA-KEM recipients, but does not make them: made by a peer.
        n = key.private_numbers().public_numbers.n
        z = (int.from_bytes(ref.hash_("sha512", data + cek), "big") ** 3 % (n - 2)) + 1
        nl = (n.bit_length() + 7) // 8
        walg = D.seq(D.oid(WRAP[case["wrap"]][0]))
        uk = b"" if case["ukm"] is None else D.ctx(0, D.octets(case["ukm"]))
        h = {"sha256": 1, "sha384": 2, "sha512": 3}[case["h"]]
        kalg = D.seq(D.oid(f"1.2.840.113549.1.9.16.3.{27 + h}")) if case["kdf"] in ("hkdf", "pbkdf2") else D.seq(D.oid({"kdf2": "1.3.133.16.840.9.44.1.1", "kdf3": "1.3.133.16.840.9.44.1.2"}[case["kdf"]]), D.seq(D.oid(f"2.16.840.1.101.3.4.2.{h}")))
        kek = kdf(kalg, ref.kdf3("sha256", z.to_bytes(nl, "big"), b"", wl), wl, D.seq(walg, D.integer(wl), uk))
        o = D.seq(D.integer(0), rid_der(cert, cmpx.enc(cert), ski_of(cert)), D.seq(D.oid("1.0.18033.2.2.4")), D.octets(pow(z, 65537, n).to_bytes(nl, "big")), kalg, D.integer(wl), uk, walg, D.octets(ref.aes_wrap(kek, cek)))
        der = D.seq(D.integer(3), D.set_of(D.ctx(4, ORI_KEM, o)), D.seq(DATA if raw else SIGNED, D.seq(CBC[len(cek)], D.octets(bytes(16))), D.tlv(0x80, ref.aes_cbc_encrypt(cek, bytes(16), data))))
    else:
        der = kem_build(case, ctx, kk, cert, cek, data, raw)
    v, ris, ci = parts(der)
    kem_judge(case, ctx, der, v, ris, ci, key, kk, rsa, cert, wl)


def kem_build(case, ctx, kk, cert, cek, data, raw):
    ri = ctx.accepts("preparing the recipient", EV.prepare_kem_recip_info, recip_cert=cert, public_key_recip=kk.public_key(), kdf_name=case["kdf"], ukm=case["ukm"], cek=cek, hash_alg=case["h"], wrap_name=case["wrap"])
    return build(ctx, EV.parse_recip_info(ri), cek, data, raw, 3)


def kem_judge(case, ctx, der, v, ris, ci, key, kk, rsa, cert, wl):
    k, i, cek, data, raw, how = case["k"], case["i"], case["cek"], case["data"], case["raw"], case["how"]
    o = D.split(ris[0])
    ctx.eq((ris[0][0], o[0]), (0xA4, ORI_KEM), "OtherRecipientInfo with id-ori-kem")
    x = D.split(o[1])
    ctx.eq(num(x[0]), 0, "version of the KEMRecipientInfo")
    check_rid(ctx, x[1], cert)
    ct = octs(x[3])
    ukm = None
    y = x[6:]
    if y[0][0] == 0xA0:
        ukm = octs(D.split(y[0])[0])
        y = y[1:]
    ctx.eq(ukm, case["ukm"], "user keying material")
    ctx.eq(num(x[5]), wl, "kekLength")
    walg = y[0]
    ctx.eq(cmpx.algid(walg)[0], D.oid(WRAP[case["wrap"]][0]), "key wrap algorithm")
    if rsa:
        n, d = key.private_numbers().public_numbers.n, key.private_numbers().d
        z = pow(int.from_bytes(ct, "big"), d, n).to_bytes((n.bit_length() + 7) // 8, "big")
        ss = ref.kdf3("sha256", z, b"", wl)
    elif isinstance(key, CompositeKEMPrivateKey):
        ss = key.decaps(ct, use_in_cms=True)
    else:
        ss = key.decaps(ct)
    info = D.seq(walg, D.integer(wl), b"" if ukm is None else D.ctx(0, D.octets(ukm)))
    kek = kdf(x[4], ss, wl, info)
    ctx.eq(ref.aes_unwrap(kek, octs(y[1])), cek, "the content key for the KEM key (RFC 9629)")
    ctx.eq(open_content(ci, cek), (DATA if raw else SIGNED, data), "content")
    ctx.nontrivial()

    def open_(env, key=kk, cert=cert):
        if case["p"] % 2:
            return KGA.validate_kemri_enveloped_data(env, key, cert, for_pop=case["pop"], expected_raw_data=raw)
        return KGA.validate_enveloped_data(env, ee_key=key, cmp_protection_cert=cert, for_pop=case["pop"], expected_raw_data=raw)

    if how == "key":
        ctx.rejects("opening with another key", lambda: open_(load(der), key=keys.get(k, 1 - i)), exc=Exception)
        return
    if how == "rid":
        if not case["pop"]:
            ctx.rejects("a recipient identifier of another certificate", lambda: open_(load(der), cert=recip_cert(not case["ski"], i) if case["p"] % 2 else recip_cert(case["ski"], 1 - i)), exc=ValueError)
        return
    if how == "kdf":
        oid, par = cmpx.algid(x[4])
        h2 = {"sha256": "sha384", "sha384": "sha512", "sha512": "sha256"}[case["h"]]
        old, new = {"sha256": (28, 1), "sha384": (29, 2), "sha512": (30, 3)}[case["h"]], {"sha256": (28, 1), "sha384": (29, 2), "sha512": (30, 3)}[h2]
        if case["kdf"] == "hkdf":
            alg = D.seq(D.oid(f"1.2.840.113549.1.9.16.3.{new[0]}"))
        elif case["kdf"] == "pbkdf2" or rsa:
            return
        else:
            alg = D.seq(oid, D.seq(D.oid(f"2.16.840.1.101.3.4.2.{new[1]}")))
        x2 = list(x)
        x2[4] = alg
        bad = D.seq(v, D.set_of(D.ctx(4, ORI_KEM, D.seq(*x2))), ci)
        ctx.rejects("opening with another key derivation", lambda: open_(load(bad)), exc=Exception)
        return

    def locate(r, what):
        if what == "param" and case["kdf"] == "pbkdf2":
            return []  # PBKDF2 has no input for the CMSORIforKEMOtherInfo
        e = {"ekey": octs(y[1]), "ct": ct, "param": ukm}.get(what)
        if not e:
            return []
        if what == "param":
            tail = D.ctx(0, D.octets(e)) + y[0] + y[1]
            j = r.rindex(tail) + len(D.ctx(0, D.octets(e))) - len(e)
        else:
            j = r.rindex(e) if what == "ekey" else r.index(e)
        return list(range(j, j + len(e)))
    judge(ctx, der, data, raw, how, case["p"], open_, locate)


def recip_cert(ski, i):
    return cert_for("ec:secp256r1", i, ski=ski)


# --------------------------------------------------------------- several recipients
multi_case = st.fixed_dictionaries({"kinds": st.lists(st.sampled_from(["pwri", "ktri", "kari", "kem"]), min_size=2, max_size=4), "pick": st.integers(0, 3), "cek": cek_st, "data": data_st, "typed": st.booleans()})


def multi(case, ctx):
    """Every recipient of a structure for several recipients gets the content."""
    infos, cek, last = [], case["cek"], None
    cert = recip_cert(True, 0)
    for n, k in enumerate(case["kinds"]):
        if k == "pwri":
            ri = EV.prepare_password_recipient_info(f"password {n}", cek=cek, salt=bytes([n + 1]) * 8, iterations=3)
        elif k == "ktri":
            ri = EV.prepare_ktri(keys.get("rsa2048", n % 2).public_key(), cert, cek)
        elif k == "kari":
            ri = EV.prepare_kari(keys.get("ec:secp256r1", n + 2).public_key(), keys.get("ec:secp256r1", 0), cek=cek, cmp_protection_cert=cert)
        else:
            ri = EV.prepare_kem_recip_info(recip_cert=cert, public_key_recip=keys.get("ml-kem-768", n % 2).public_key(), cek=cek)
        infos.append(EV.parse_recip_info(ri))
    der = build(ctx, infos, cek, case["data"], True, 2)
    env = load(der)
    ctx.eq(len(env["recipientInfos"]), len(infos), "number of recipients")
    names = [x.getName() for x in env["recipientInfos"]]
    pos = {"pwri": "pwri", "ktri": "ktri", "kari": "kari", "kem": "ori"}
    ctx.label("+".join(case["kinds"]))
    ctx.nontrivial()
    # SET OF: the encoder may reorder the recipients; try each recipient at every position of its kind
    for n, k in enumerate(case["kinds"]):
        kw = {"pwri": {"password": f"password {n}", "cmp_protection_salt": b"x"}, "ktri": {"ee_key": keys.get("rsa2048", n % 2)}, "kari": {"ee_key": keys.get("ec:secp256r1", n + 2), "kari_cert": cert},
              "kem": {"ee_key": keys.get("ml-kem-768", n % 2)}}[k]
        hits = []
        for j, name in enumerate(names):
            if name != pos[k]:
                continue
            try:
                if case["typed"] and k == "kem":
                    hits.append(bytes(KGA.validate_enveloped_data(env, recip_info_index=j, expected_size=len(infos), expected_raw_data=True, cmp_protection_cert=cert, expected_type="kemri", **kw)))
                else:
                    hits.append(bytes(KGA.validate_enveloped_data(env, recip_info_index=j, expected_size=len(infos), expected_raw_data=True, cmp_protection_cert=cert, **kw)))
            except Exception as e:
                last = e
        ctx.check(case["data"] in hits, f"recipient {n} ({k}) of {case['kinds']} cannot open the structure: {type(last).__name__ if not hits else hits}", key=f"multi-{k}")


SUBS = [
    Sub("pwri", pwri_case, pwri, quick=170, thorough=8000, shards=2, text="password recipients"),
    Sub("ktri", ktri_case, ktri, quick=120, thorough=6000, shards=2, text="RSA recipients"),
    Sub("kari", kari_case, kari, quick=150, thorough=6000, shards=2, text="key agreement recipients"),
    Sub("kem", kem_case, kem, quick=90, thorough=3000, shards=2, text="KEM recipients"),
    Sub("multi", multi_case, multi, quick=25, thorough=600, shards=1, text="several recipients"),
]
