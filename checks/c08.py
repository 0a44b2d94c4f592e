"""C08: centrally generated keys arrive authentic, intact and matching the certificate."""
import base64
import hashlib
import os

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives.asymmetric import ec as cec, padding
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from hypothesis import strategies as st

from checks.c03 import ML, P3, SLH_ORDER
from checks.c07 import body, open_content, octs
from checks.c10 import pub_id
from lib import cmpx, der as D, fips, harness, keys
from lib.certs import cert_for
from lib.harness import Skip, Sub
from pyasn1.codec.der import decoder
from pyasn1.type import tag
from pyasn1_alt_modules import rfc5280, rfc9480
from resources import ca_kga_logic as KGA
from resources import ca_ra_utils as RA
from resources import certbuildutils, certutils, cmputils, convertutils, cryptoutils, keyutils, protectionutils

PROPERTY = "C08"
TECHNIQUE = "generated key generation exchanges, the key package opened and verified by an independent RFC 5652 reader, and generated forgeries of the package which the client has to refuse"
RULE = ("All recipient kinds, key types, signers, chain lengths and export types. Non-trivial: the returned key was compared with the issued certificate and the request, "
        "or the forged package really differed from the genuine one.")
ASSUMPTIONS = ["AES, RSA, ECDSA and EdDSA of cryptography are correct; the recipient structures are decided by C07"]

ASKED = ["none", "rsa2048", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:brainpoolP256r1", "ec:secp256k1", "ed25519", "ed448", "x25519", "x448", "ml-dsa-44", "ml-dsa-87", "ml-kem-512", "ml-kem-1024",
         "slh-dsa-sha2-128f", "slh-dsa-shake-192f", "xwing", "composite-sig:ml-dsa-44:ed25519", "composite-sig:ml-dsa-65:ec:secp256r1", "composite-kem:ml-kem-768:x25519", "chempat:ml-kem-768:x25519"]
SIGNERS = ["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "composite-sig:ml-dsa-44:ed25519", "slh-dsa-sha2-128f"]
KINDS = ["pwri", "pwri", "ktri", "kari", "kari-x", "kemri"]
SIGNED_DATA_OID, CT_KP = D.oid("1.2.840.113549.1.7.2"), D.oid("2.16.840.1.101.2.1.2.78.5")
A_CT, A_MD = D.oid("1.2.840.113549.1.9.3"), D.oid("1.2.840.113549.1.9.4")
HASHES = {D.oid("2.16.840.1.101.3.4.2.1"): "sha256", D.oid("2.16.840.1.101.3.4.2.2"): "sha384", D.oid("2.16.840.1.101.3.4.2.3"): "sha512", D.oid("2.16.840.1.101.3.4.2.4"): "sha224",
          D.oid("2.16.840.1.101.3.4.2.11"): "shake128", D.oid("2.16.840.1.101.3.4.2.12"): "shake256"}
CA, CMP = "ec:secp256r1", {"kari": "ec:secp256r1", "kari-x": "x25519"}


def chain(signer, n, eku, root_i=0, expired=False):
    """KGA certificate first, then its issuers up to the root."""
    kw = {} if eku is None else {"eku": eku}
    if expired:
        kw["days"] = -10
    root = cert_for("ec:secp384r1", root_i, True, cn="KGA Root", is_ca=True, key_usage="keyCertSign,cRLSign")
    if n == 1:
        c = cert_for(signer, 0, True, cn="KGA self", key_usage="digitalSignature", **kw)
        return [c]
    issuer, up = ("ec:secp384r1", root_i), [root]
    key, ic = keys.get(*issuer), root
    if n == 3:
        ic = make("inter", "ec:secp256r1", 1, "KGA Inter", key, root, is_ca=True, key_usage="keyCertSign,cRLSign")
        key, up = keys.get("ec:secp256r1", 1), [ic, root]
    return [make("kga", signer, 0, "KGA Signer", key, ic, key_usage="digitalSignature", **kw)] + up


_made = {}


def make(tag, name, i, cn, ca_key, ca_cert, **kw):
    k = (tag, name, i, cn, cmpx.enc(ca_cert), tuple(sorted(kw.items())))
    if k not in _made:
        state = harness.DET.rng.getstate()
        harness.DET.rng.seed(repr(k))
        _made[k], _ = certbuildutils.build_certificate(private_key=keys.get(name, i), common_name=f"CN={cn}", include_ski=True, ca_key=ca_key, ca_cert=ca_cert, **kw)
        harness.DET.rng.setstate(state)
    return _made[k]


def anchors(certs):
    d = os.path.join(harness.SCRATCH, "anchors-" + hashlib.sha256(b"".join(map(cmpx.enc, certs))).hexdigest()[:16])
    if not os.path.isdir(d):
        os.makedirs(d)
        for n, c in enumerate(certs):
            with open(f"{d}/a{n}.pem", "w") as f:
                f.write("-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(cmpx.enc(c)).decode() + "-----END CERTIFICATE-----\n")
    return d


def alg_of(name):
    return cmpx.enc(convertutils.subject_public_key_info_from_pubkey(keys.get(name).public_key())["algorithm"])


def template_spki(name):
    s, _ = decoder.decode(D.seq(alg_of(name), D.tlv(3, b"\0")), asn1Spec=rfc5280.SubjectPublicKeyInfo())
    return s


def request(case):
    """The protected request, the key and the certificate of the client."""
    kind, ask = case["kind"], case["ask"]
    tpl = certbuildutils.prepare_cert_template(subject="CN=Wanted", spki=None if ask == "none" else template_spki(ask), exclude_fields="validity" + (",publicKey" if ask == "none" else ""))
    kw = dict(cert_template=tpl, for_kga=True, pvno=3, exclude_fields="sender,senderKID" if kind in ("ktri", "kari") else None, transaction_id=case["tx"])
    fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request}[case["body"]]
    if kind not in ("ktri", "kari"):
        kw.update(for_mac=True, sender="CN=me")
    msg = fn(keys.get("ec:secp256r1", 0), **kw)
    if kind == "pwri":
        return protectionutils.protect_pkimessage(msg, protection=case["mac"], password=case["pw"]), None, None
    name, usage = {"ktri": ("rsa2048", "digitalSignature,keyEncipherment"), "kari": ("ec:secp256r1", "digitalSignature,keyAgreement"),
                   "kari-x": (case["x"], "keyAgreement"), "kemri": (case["kem"], "keyEncipherment")}[kind]
    ca = None if kind in ("ktri", "kari") else ("ec:secp256r1", 0)
    cert = cert_for(name, 1, True, ca=ca, cn="Client", key_usage=usage)
    if kind in ("ktri", "kari"):
        return protectionutils.protect_pkimessage(msg, protection="signature", private_key=keys.get(name, 1), cert=cert), keys.get(name, 1), cert
    if kind == "kari-x":
        msg = protectionutils.protect_pkimessage(msg, protection="dh", private_key=keys.get(name, 1), cert=cert, shared_secret=case["tx"] * 2)
    else:
        msg = protectionutils.protect_pkimessage_kem_based_mac(msg, shared_secret=case["tx"] * 2)
    msg["extraCerts"].clear()
    msg["extraCerts"].append(cert)
    return msg, keys.get(name, 1), cert


def server(case):
    """The CA's CMP protection certificate and key."""
    k = case["kind"]
    if k == "kari":
        return cert_for("ec:secp256r1", 0, True, cn="CMP", key_usage="digitalSignature,keyAgreement"), keys.get("ec:secp256r1", 0)
    return cert_for("ed25519", 0, True, cn="CMP", key_usage="digitalSignature"), keys.get("ed25519", 0)


def respond(ctx, case, req, ch, kga_key, **more):
    cmp_cert, cmp_key = server(case)
    ca = cert_for(CA, 0, True, cn="Issuing CA", is_ca=True, key_usage="keyCertSign")
    kw = dict(cmp_protection_cert=cmp_cert, cmp_protection_key=cmp_key, key_save_type=case["save"], default_key_type="rsa")
    for x in ("x25519", "x448"):
        kw[f"{x}_cert"] = cert_for(x, 0, True, ca=("ec:secp256r1", 0), cn="CMP X", key_usage="keyAgreement")
        kw[f"{x}_key"] = keys.get(x, 0)
    kw.update(more)
    return RA.build_kga_cmp_response(req, ca, keys.get(CA, 0), ch, kga_key, password=case["pw"] if case["kind"] == "pwri" else None, **kw)


def finish(case, rsp, client_cert, pw=None):
    """Protect the response as the server does."""
    cmp_cert, cmp_key = server(case)
    k = case["kind"]
    if k == "pwri":
        rsp = protectionutils.protect_pkimessage(rsp, protection=case["mac"], password=pw or case["pw"])
        if not rsp["extraCerts"].isValue or len(rsp["extraCerts"]) == 0:
            rsp["extraCerts"].append(cmp_cert)
        return rsp
    if k in ("ktri", "kari"):
        return protectionutils.protect_pkimessage(rsp, protection="signature", private_key=cmp_key, cert=cmp_cert)
    rsp["extraCerts"].clear()
    rsp["extraCerts"].append(client_cert if k == "kemri" else cert_for(case["x"], 0, True, ca=("ec:secp256r1", 0), cn="CMP X", key_usage="keyAgreement"))
    return rsp


def pair(msg):
    return msg["body"][msg["body"].getName()]["response"][0]["certifiedKeyPair"]


def wire(msg):
    """The message as it arrives."""
    der = cmpx.enc(msg)
    return cmpx.parse(der)


def client(case, rsp, ee_key, trust, **kw):
    args = dict(trustanchors=trust, ee_key=ee_key, password=case["pw"] if case["kind"] == "pwri" else None)
    if case["exp"]:
        args["expected_type"] = {"kari-x": "kari", "kemri": None}.get(case["kind"], case["kind"])
    args.update(kw)
    return KGA.validate_not_local_key_gen(rsp, **args)


def content(case, rsp, ee_key):
    """Content key and SignedData of the response (the recipient part is the suite's, see C07)."""
    env = pair(rsp)["privateKey"]["envelopedData"]
    cek = KGA.extract_content_encryption_key(env, rsp, case["pw"], ee_key, rsp["extraCerts"][0])
    _v, _r, ci = D.split(cmpx.enc(env))
    typ, data = open_content(ci, cek)
    return cek, typ, data


def replace_content(rsp, cek, data):
    env = pair(rsp)["privateKey"]["envelopedData"]
    iv = octs(cmpx.algid(cmpx.enc(env["encryptedContentInfo"]["contentEncryptionAlgorithm"]))[1])
    n = 16 - len(data) % 16
    e = Cipher(algorithms.AES(cek), modes.CBC(iv)).encryptor()
    ct = e.update(data + bytes([n]) * n) + e.finalize()
    old = env["encryptedContentInfo"]["encryptedContent"]
    env["encryptedContentInfo"]["encryptedContent"] = old.clone(ct)


def tagged(der, t):
    return bytes([t]) + der[1:]


class Sd:
    """A SignedData, taken apart."""

    def __init__(self, der):
        p = D.split(der)
        self.version, self.digests, self.eci, self.certs = p[0], p[1], p[2], p[3]
        self.infos = D.split(p[-1])
        s = D.split(self.infos[0])
        self.si_version, self.sid, self.si_digest, self.attrs, self.alg, self.sig = s[:6]

    def attr(self, oid):
        return [D.split(a)[1] for a in D.split(self.attrs) if D.split(a)[0] == oid]

    def package(self):
        return octs(D.split(D.split(self.eci)[1])[0])

    def with_package(self, pkg):
        self.eci = D.seq(D.split(self.eci)[0], D.ctx(0, D.octets(pkg)))

    def with_digest(self, dg):
        self.attrs = tagged(D.set_of(*[a if D.split(a)[0] != A_MD else D.seq(A_MD, D.tlv(0x31, D.octets(dg))) for a in D.split(self.attrs)]), 0xA0)

    def tbs(self):
        return tagged(self.attrs, 0x31)

    def build(self):
        si = D.seq(self.si_version, self.sid, self.si_digest, self.attrs, self.alg, self.sig)
        return D.seq(self.version, self.digests, self.eci, self.certs, D.tlv(0x31, si))


def hash_of(dig_alg, data):
    h = HASHES[cmpx.algid(dig_alg)[0]]
    if h.startswith("shake"):
        return hashlib.new(h, data).digest({"shake128": 32, "shake256": 64}[h])
    return hashlib.new(h, data).digest()


def pre(alg, names, name, pure, hashed, h):
    """The hash which the algorithm identifier prescribes for the message, None for the pure variant."""
    n = names.index(name)
    assert cmpx.algid(alg)[0] in (D.oid(P3 + str(n + pure)), D.oid(P3 + str(n + hashed))), "the algorithm identifier is for another key"
    return h if cmpx.algid(alg)[0] == D.oid(P3 + str(n + hashed)) else None


def verify(name, i, data, sig, h, alg):
    """Verify the signature of the package without the suite."""
    pub = keys.get(name, i).public_key()
    try:
        if name.startswith("rsa"):
            pub.verify(sig, data, padding.PKCS1v15(), getattr(hashes, h.upper())())
        elif name.startswith("ec:"):
            pub.verify(sig, data, cec.ECDSA(getattr(hashes, h.upper())()))
        elif name.startswith("ed"):
            pub.verify(sig, data)
        elif name.startswith("ml-dsa"):
            return fips.dsa_verify(name, pub.public_bytes_raw(), data, sig, b"", pre(alg, ML, name, 17, 32, h))
        elif name.startswith("slh"):
            return fips.Slh(name).verify(pub.public_bytes_raw(), data, sig, b"", pre(alg, SLH_ORDER, name, 20, 35, h))
        else:
            return None
    except InvalidSignature:
        return False
    return True


def sign(name, i, sd):
    """Sign the attributes with a key of the same kind, with the algorithm the package names."""
    h = HASHES[cmpx.algid(sd.si_digest)[0]]
    sd.sig = D.octets(cryptoutils.sign_data(sd.tbs(), keys.get(name, i), None if name.startswith(("ed", "ml", "slh", "comp")) else h))


def spki(cert):
    return cmpx.enc(cert["tbsCertificate"]["subjectPublicKeyInfo"])


st_case = st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "body": st.sampled_from(["ir", "cr", "kur"]), "ask": st.sampled_from(ASKED), "signer": st.sampled_from(SIGNERS[:6] * 2 + SIGNERS[6:]),
    "n": st.sampled_from([1, 2, 3]), "save": st.sampled_from(["raw", "seed", "seed_and_raw"]), "mac": st.sampled_from(["password_based_mac", "pbmac1"]),
    "pw": st.text("abcXYZ 09é", min_size=1, max_size=20), "tx": st.binary(min_size=16, max_size=16), "x": st.sampled_from(["x25519", "x448"]), "kem": st.sampled_from(["ml-kem-512", "ml-kem-768", "xwing"]),
    "exp": st.booleans(), "p": st.integers(0, 1 << 20)})


def exchange(case, ctx, **more):
    req, ee_key, ee_cert = request(case)
    ch = chain(case["signer"], case["n"], "cmKGA")
    req = wire(req)
    rsp, certs = ctx.accepts("building the response", lambda: respond(ctx, case, req, ch, keys.get(case["signer"], 0), **more))
    return req, rsp, certs, ch, ee_key, ee_cert


def flow(case, ctx):
    kind, ask = case["kind"], case["ask"]
    ctx.label(kind, "ask " + ask, "signer " + case["signer"], f"chain {case['n']}", case["save"])
    _req, rsp, certs, ch, ee_key, ee_cert = exchange(case, ctx)
    rsp = wire(finish(case, rsp, ee_cert))
    issued = certs[0]
    ctx.eq(rsp["body"].getName(), {"ir": "ip", "cr": "cp", "kur": "kup"}[case["body"]], "response body")
    got_cert = pair(rsp)["certOrEncCert"]["certificate"]
    ctx.eq(cmpx.enc(plain(got_cert)), cmpx.enc(issued), "issued certificate")
    if ask != "none":
        ctx.eq(D.split(spki(issued))[0], alg_of(ask), "the type of the generated key")
    k = ctx.accepts("the client's validation", lambda: client(case, rsp, ee_key, anchors([ch[-1]]), key_save_type=None))
    want = certutils.load_public_key_from_cert(issued)
    ctx.eq(pub_id(k.public_key()), pub_id(want), "public key of the extracted key and of the certificate")
    # the package as an independent receiver sees it
    cek, typ, data = content(case, rsp, ee_key)
    ctx.eq(typ, SIGNED_DATA_OID, "content type")
    sd = Sd(data)
    pkg = sd.package()
    ctx.eq(D.split(sd.eci)[0], CT_KP, "encapsulated content type")
    ctx.eq(D.split(sd.digests), [sd.si_digest], "digest algorithms")
    ctx.eq([D.split(a) for a in sd.attr(A_CT)], [[CT_KP]], "signed content type")
    ctx.eq([D.split(a) for a in sd.attr(A_MD)], [[D.octets(hash_of(sd.si_digest, pkg))]], "signed message digest")
    ctx.eq(octs(tagged(sd.sid, 4)), ski_of(ch[0]), "signer identifier")
    ctx.eq(sorted(D.split(sd.certs)), sorted(map(cmpx.enc, ch)), "certificates")
    ok = verify(case["signer"], 0, sd.tbs(), octs(sd.sig), HASHES[cmpx.algid(sd.si_digest)[0]], sd.alg)
    if ok is not None:
        ctx.check(ok, f"an independent verifier refuses the signature over the signed attributes ({sd.alg.hex()}, {sd.si_digest.hex()})")
    ctx.eq(len(D.split(pkg)), 1, "number of keys in the package")
    ctx.nontrivial()


def ski_of(cert):
    for x in cert["tbsCertificate"]["extensions"]:
        if str(x["extnID"]) == "2.5.29.14":
            return octs(bytes(x["extnValue"]))
    return None


FORGE = ["eku", "anchor", "otherkey", "package", "package", "digest", "attr", "attrs", "sig", "othercert", "keypair", "recipient", "password", "flip", "flip", "flip", "type", "order", "extra", "expired", "invalid", "lookalike"]
INVALID = ["invalid_version_v1", "invalid_version", "invalid_key_pair", "invalid_key_pair_cert", "invalid_private_key_size", "invalid_public_key_size"]


def forge(case, ctx):
    how, p, signer = case["how"], case["p"], case["signer"]
    ctx.label(how, case["kind"], "signer " + signer)
    case = dict(case)
    if how in ("anchor", "order", "extra", "expired", "lookalike") and case["n"] == 1:
        case["n"] = 2
    req, ee_key, ee_cert = request(case)
    req = wire(req)
    good = chain(signer, case["n"], "cmKGA")
    ch, trust, skey, more = good, [good[-1]], keys.get(signer, 0), {}
    if how == "eku":
        ch = chain(signer, case["n"], [None, "cmcRA", "cmcCA", "cmcCA,cmcRA"][p % 4])
        trust = [ch[-1]]
    elif how == "anchor":
        trust = [cert_for("ec:secp384r1", 1, True, cn="KGA Root", is_ca=True, key_usage="keyCertSign,cRLSign")]
    elif how == "lookalike":
        # the chain of an attacker: the same names and the trusted root, but the KGA certificate is signed by another key
        fake = make("fake", signer, 0, "KGA Signer", keys.get("ec:secp521r1", 1), ch[1], key_usage="digitalSignature", eku="cmKGA")
        ch = [fake] + ch[1:]
    elif how == "otherkey":
        skey = keys.get(signer, 1)
    elif how == "expired":
        if signer.startswith(("ml", "slh", "comp")):
            raise Skip("validity is checked by openssl, for traditional chains")
        v = certbuildutils.prepare_validity(*window(p))
        old = harness.DET.rng.getstate()
        harness.DET.rng.seed("expired")
        c, _ = certbuildutils.build_certificate(private_key=keys.get(signer, 0), common_name="CN=KGA Signer", include_ski=True, ca_key=issuer_key(case["n"]), ca_cert=ch[1], key_usage="digitalSignature",
                                                eku="cmKGA", validity=v)
        harness.DET.rng.setstate(old)
        ch = [c] + ch[1:]
    elif how == "invalid":
        inv = INVALID[p % len(INVALID)]
        if inv == "invalid_public_key_size" and not case["ask"].startswith(("ml-", "slh")):
            inv = INVALID[p % 4]
        ctx.label(inv)
        more["invalid_kga_operation"] = inv
    if how == "invalid":
        try:
            rsp, certs = respond(ctx, case, req, ch, skey, **more)
        except Exception as e:
            raise Skip(f"the suite can not make this key invalid: {type(e).__name__}")
    else:
        rsp, certs = ctx.accepts("building the response", lambda: respond(ctx, case, req, ch, skey, **more))
    kw, pw = {}, None
    benign = None
    probe = wire(finish(case, wire(rsp), ee_cert))
    if how in ("package", "digest", "attr", "attrs", "sig", "flip", "type", "order", "extra"):
        cek, _t, data = content(case, probe, ee_key)
        sd = Sd(data)
        mine = KGA_key(case, ctx)
        if how == "package":
            # another, well-formed key package: of the attacker's key, whose certificate he also puts into the response
            pk, cert2 = mine
            sd.with_package(pk)
            if p % 3:
                sd.with_digest(hash_of(sd.si_digest, pk))
            put_cert(rsp, cert2)
        elif how == "digest":
            d = bytearray(hash_of(sd.si_digest, sd.package()))
            d[p % len(d)] ^= 1 << (p % 8)
            sd.with_digest(bytes(d))
            if p % 2:
                sign(signer, 0, sd)
        elif how == "attr":
            # a further attribute which the signer did not sign
            sd.attrs = tagged(D.set_of(*D.split(sd.attrs), D.seq(D.oid("1.2.840.113549.1.9.5"), D.tlv(0x31, D.tlv(0x17, b"260101000000Z")))), 0xA0)
        elif how == "attrs":
            # validly signed, but a required attribute is missing or has another value
            a = [x for x in D.split(sd.attrs) if D.split(x)[0] != (A_CT if p % 2 else A_MD)]
            if p % 4 == 3:
                a.append(D.seq(A_CT, D.tlv(0x31, SIGNED_DATA_OID)))
            sd.attrs = tagged(D.set_of(*a), 0xA0)
            sign(signer, 0, sd)
        elif how == "sig":
            s = bytearray(octs(sd.sig))
            s[p % len(s)] ^= 1 << (p % 8)
            sd.sig = D.octets(bytes(s))
        elif how == "type":
            sd.eci = D.seq(SIGNED_DATA_OID, *D.split(sd.eci)[1:])
        elif how == "order":
            # the signer's certificate is not in the package
            sd.certs = tagged(D.tlv(0x31, b"".join(map(cmpx.enc, ch[1:]))), 0xA0)
        elif how == "extra":
            sd.certs = tagged(D.tlv(0x31, b"".join([cmpx.enc(c) for c in ch] + [cmpx.enc(cert_for("ed448", 1, True, cn="Unrelated"))])), 0xA0)
        new = sd.build()
        if how == "flip":
            new = cmpx.flip_leaf(data, p, p % 8)
            benign = True
        if new == data:
            raise Skip("no change")
        replace_content(rsp, cek, new)
    elif how == "othercert":
        # the certificate is for another key of the same type
        other = certs[0]
        name = case["ask"] if case["ask"] != "none" else "rsa2048"
        c2, _ = certbuildutils.build_certificate(private_key=keys.get(name, 1), common_name="CN=Wanted", ca_key=keys.get(CA, 0), ca_cert=cert_for(CA, 0, True, cn="Issuing CA", is_ca=True, key_usage="keyCertSign"))
        if spki(c2) == spki(other):
            raise Skip("same key")
        put_cert(rsp, c2)
    elif how == "recipient":
        if case["kind"] == "pwri":
            kw["password"] = case["pw"] + "x"
        else:
            name = {"ktri": "rsa2048", "kari": "ec:secp256r1", "kari-x": case["x"], "kemri": case["kem"]}[case["kind"]]
            kw["ee_key"] = keys.get(name, 0)
    elif how == "password":
        if case["kind"] != "pwri":
            raise Skip("no password")
        pw = case["pw"] + "y"   # the response is protected with another password than the key is encrypted with
    elif how == "keypair":
        # the package holds the private key of one pair and the public key of another one
        name = case["ask"] if case["ask"] != "none" else "rsa2048"
        if name.startswith(("comp", "chem", "xwing", "slh")):
            raise Skip("covered by C10")
        one = keyutils.prepare_one_asymmetric_key(private_key=keys.get(name, 0), public_key=keys.get(name, 1).public_key(), version="v2")
        cek, _t, data = content(case, probe, ee_key)
        sd = Sd(data)
        sd.with_package(D.seq(cmpx.enc(one)))
        sd.with_digest(hash_of(sd.si_digest, sd.package()))
        sign(signer, 0, sd)
        replace_content(rsp, cek, sd.build())
        c2, _ = certbuildutils.build_certificate(private_key=keys.get(name, p % 2), common_name="CN=Wanted", ca_key=keys.get(CA, 0), ca_cert=cert_for(CA, 0, True, cn="Issuing CA", is_ca=True, key_usage="keyCertSign"))
        put_cert(rsp, c2)
    rsp = wire(finish(case, rsp, ee_cert, pw))
    run = lambda: client(case, rsp, ee_key, anchors(trust), **kw)
    if benign:
        try:
            k = run()
        except Exception:
            ctx.nontrivial()
            return
        ctx.eq(pub_id(k.public_key()), pub_id(certutils.load_public_key_from_cert(certs[0])), "a damaged package gave another key")
        d2 = content(case, rsp, ee_key)[2]
        ctx.eq(Sd(d2).package(), Sd(data).package(), "a damaged key package was accepted")
        ctx.eq(Sd(d2).attrs, Sd(data).attrs, "damaged signed attributes were accepted")
        ctx.nontrivial()
        return
    ctx.rejects(f"the forged response ({how})", run, exc=Exception, key=f"{how}")
    ctx.nontrivial()


def issuer_key(n):
    return keys.get("ec:secp384r1", 0) if n == 2 else keys.get("ec:secp256r1", 1)


def window(p):
    from datetime import datetime, timedelta, timezone
    now = datetime(2026, 2, 25, tzinfo=timezone.utc)
    return (now - timedelta(days=400), now - timedelta(days=2)) if p % 2 else (now + timedelta(days=30), now + timedelta(days=300))


def KGA_key(case, ctx):
    name = case["ask"] if case["ask"] != "none" else "rsa2048"
    one = keyutils.prepare_one_asymmetric_key(private_key=keys.get(name, 1), version="v2")
    c, _ = certbuildutils.build_certificate(private_key=keys.get(name, 1), common_name="CN=Wanted", ca_key=keys.get(CA, 0), ca_cert=cert_for(CA, 0, True, cn="Issuing CA", is_ca=True, key_usage="keyCertSign"))
    return D.seq(cmpx.enc(one)), c


def put_cert(rsp, cert):
    pair(rsp)["certOrEncCert"]["certificate"] = convertutils.copy_asn1_certificate(cert, rfc9480.CMPCertificate().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0)))


def plain(cert):
    """The certificate without the tag of the place where it stands."""
    return convertutils.copy_asn1_certificate(cert, rfc9480.CMPCertificate())


SUBS = [
    Sub("flow", st_case, flow, quick=90, thorough=6000, shards=4, text="key generation exchanges"),
    Sub("forge", st.tuples(st_case, st.sampled_from(FORGE)).map(lambda t: dict(t[0], how=t[1])), forge, quick=180, thorough=12000, shards=4, text="forged key packages and responses"),
]
