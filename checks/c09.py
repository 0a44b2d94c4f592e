"""C09: indirect proof of possession; only the key holder opens what the CA sends."""
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey
from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey
from cryptography.hazmat.primitives.keywrap import InvalidUnwrap
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from hypothesis import strategies as st

from checks.c02 import HASH_OID
from checks.c07 import dh
from lib import cmpx, der as D, keys, ref
from lib.certs import cert_for
from lib.harness import Skip, Sub
from mock_ca.challenge_handler import ChallengeHandler
from pyasn1.codec.der import decoder
from pyasn1.error import PyAsn1Error
from pyasn1_alt_modules import rfc9480
from resources import ca_ra_utils as CA
from resources import cmputils, convertutils, extra_issuing_logic as X, protectionutils
from resources.convertutils import copy_asn1_certificate
from resources.exceptions import CMPTestSuiteError
from resources.prepareutils import prepare_name

PROPERTY = "C09"
TECHNIQUE = ("generated requests answered by the CA functions and opened by the client functions and by an independent implementation; generated damage; "
             "model-based histories of the challenge handler")
RULE = ("Challenges of version 2 and 3 and encrypted certificates for every key type, then damage or another key; histories of several outstanding challenges. Non-trivial: the number "
        "or certificate was recovered and compared, or the damaged message differed from the genuine one.")
ASSUMPTIONS = ["RSA PKCS#1 v1.5, ECDH and AES of cryptography are correct; EnvelopedData itself is decided by C07 and KEMs by C13",
               "without a witness and without authentication, a damaged version 2 challenge can only be expected not to give the original number"]
OK = (ValueError, TypeError, CMPTestSuiteError, NotImplementedError)
CA1 = ("ec:secp256r1", 0)
RSA = ["rsa2048", "rsa3072"]
ECS = ["ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:brainpoolP256r1", "x25519", "x448"]
KEMS = ["ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing", "composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:rsa2048", "composite-kem:ml-kem-1024:ec:secp384r1",
        "chempat:ml-kem-768:x25519", "frodokem-640-aes", "composite-dhkem:ml-kem-768:x25519"]
HASHES = [None, "sha256", "sha1", "sha224", "sha384", "sha512", "sha3_256"]
DN = st.text(alphabet="abcXYZ019 -", min_size=1, max_size=12).map(lambda s: "CN=x" + s.strip())
NUM = st.one_of(st.integers(1, 2**32 - 1), st.sampled_from([1, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32 - 1]))


def kind(name):
    return "rsa" if name in RSA else "ec" if name in ECS else "kem"


def server(name):
    """The CA's certificate and key for a key agreement with the key."""
    return (cert_for(name, 1, True, CA1, cn="CA KARI", key_usage="keyAgreement"), keys.get(name, 1)) if kind(name) == "ec" else (None, None)


def request(name, i, body, pvno, tx, rid, cn="CN=EE", challenge=True, sender="CN=Client"):
    popo = cmputils.prepare_popo_challenge_for_non_signing_key(use_encr_cert=not challenge, use_key_enc=kind(name) != "ec")
    fn = cmputils.build_ir_from_key if body == "ir" else cmputils.build_cr_from_key
    msg = fn(keys.get(name, i), common_name=cn, popo=popo, cert_req_id=rid, pvno=pvno, transaction_id=tx, sender=sender, recipient="CN=CA", sender_nonce=b"n" * 16)
    return cmpx.parse(cmpx.enc(msg))


CH = st.fixed_dictionaries({
    "key": st.one_of(st.sampled_from(RSA), st.sampled_from(ECS), st.sampled_from(ECS), st.sampled_from(KEMS)), "pvno": st.sampled_from([2, 3]), "body": st.sampled_from(["ir", "cr"]), "num": NUM, "sender": DN, "hash": st.sampled_from(HASHES),
    "rid": st.integers(0, 2**31), "iv": st.binary(min_size=16, max_size=16), "tx": st.binary(min_size=16, max_size=16),
    "how": st.sampled_from(["none", "none", "none", "key", "kari", "challenge", "witness", "bad_witness", "sender", "rid", "pvno", "owf", "kemct", "foreign"]), "p": st.integers(0, 2**20), "ca": st.booleans()})


def content(x):
    _t, _h, c, e = D.read(x)
    return x[c:e]


def challenge_of(der):
    """The parts of the only Challenge: (owf or None, witness, challenge, encryptedRand or None)."""
    parts = D.split(D.split(D.split(cmpx.Wire(der).body)[0])[0])
    owf = parts.pop(0) if parts[0][0] == 0x30 else None
    return owf, content(parts[0]), content(parts[1]), parts[2] if len(parts) > 2 else None


def challenge(case, ctx):
    name, v, how, k = case["key"], case["pvno"], case["how"], kind(case["key"])
    req = request(name, 0, case["body"], v, case["tx"], case["rid"])
    scert, skey = server(name)
    kw = {"cmp_protection_cert": cert_for("ec:secp256r1", 0, True, cn="CA prot")} if case["ca"] and v == 3 else {}
    if k == "ec" and "cmp_protection_cert" in kw:
        kw["cmp_protection_cert"] = scert
    msg, num = CA.build_popdecc_from_request(req, ca_key=skey, rand_int=case["num"], rand_sender=case["sender"], hash_alg=case["hash"], iv=case["iv"], sender="CN=CA", **kw)
    ctx.eq(num, case["num"], "the number the CA has to expect", key="returned-number")
    who = f"CN={'CA KARI' if k == 'ec' else 'CA prot'}" if kw else case["sender"]
    der = cmpx.enc(msg)
    msg = cmpx.parse(der)
    ctx.eq(int(msg["header"]["pvno"]), v, "pvno", key="pvno")
    ctx.eq(msg["header"]["transactionID"].asOctets(), case["tx"], "transactionID", key="tx")
    ctx.eq(msg["header"]["recipNonce"].asOctets(), b"n" * 16, "recipNonce", key="nonce")
    owf, wit, chal, er = challenge_of(der)
    if case["hash"]:
        ctx.eq(wit, ref.hash_(case["hash"], case["num"].to_bytes(4, "big")), "witness", key="witness")
        ctx.eq(cmpx.algid(owf)[0], D.oid(HASH_OID[case["hash"]]), "owf", key="owf")
    else:
        ctx.check(owf is None and wit == b"", "a witness without a one-way function", key="witness")
    ctx.eq(er is not None, v == 3, "encryptedRand is used with version 3 only", key="form")
    ctx.label(f"{k} v{v}")
    key = keys.get(name, 0)
    if v == 2 and k != "kem":
        rand = independent(key, skey, chal, case["iv"])
        n, s = decoder.decode(rand, asn1Spec=rfc9480.Rand())[0]["int"], D.split(rand)[1]
        ctx.eq(int(n), case["num"], "the number in the challenge opened independently", key="v2-number")
        ctx.eq(s, D.ctx(4, cmpx.enc(prepare_name(case["sender"]))), "the sender in the challenge opened independently", key="v2-sender")
        ctx.op()
    args = dict(ee_key=key, cert_req_id=case["rid"], iv=case["iv"], expected_sender=who, kari_cert=scert, expected_version=v)

    def answer(m, **over):
        out = X.process_pkimessage_with_popdecc(m, **{**args, **over})
        return cmpx.parse(cmpx.enc(out))
    if how == "none" or how in ("kari", ) and k != "ec" or how == "kemct" and not (k == "kem" and v == 2) or how == "owf" and not case["hash"]:
        out = ctx.accepts("the genuine challenge is answered", lambda: answer(msg), key="genuine")
        ctx.eq(out["body"].getName(), "popdecr", "body of the answer", key="answer-body")
        ctx.eq([int(x) for x in out["body"]["popdecr"]], [case["num"]], "the number in the answer", key="answer")
        ctx.eq(out["header"]["transactionID"].asOctets(), case["tx"], "transactionID of the answer", key="answer-tx")
        ctx.eq(out["header"]["recipNonce"].asOctets(), msg["header"]["senderNonce"].asOctets(), "recipNonce of the answer", key="answer-nonce")
        ctx.nontrivial()
        return
    ctx.label(how)
    over, m = {}, msg
    if how == "key":
        over["ee_key"] = keys.get(name, 1) if k != "ec" else keys.get(name, 2)
    elif how == "foreign":
        other = next(n for n in RSA + ECS[:1] + KEMS[:1] if kind(n) != k)
        over["ee_key"] = keys.get(other, 0)
        if kind(other) == "ec":
            over["kari_cert"] = server(other)[0]
    elif how == "kari":
        over["kari_cert"] = cert_for(name, 2, True, CA1, cn="CA KARI", key_usage="keyAgreement")
    elif how == "sender":
        over["expected_sender"] = who + "y"
    elif how == "rid":
        if v != 3:
            raise Skip("version 2 does not carry the certReqId")
        over["cert_req_id"] = case["rid"] + 1
    elif how == "pvno":
        if case["p"] % 2:
            over["expected_version"] = 5 - v
        else:
            m["header"]["pvno"] = 5 - v
            over["expected_version"] = None
    elif how == "bad_witness":
        m, _ = CA.build_popdecc_from_request(req, ca_key=skey, rand_int=case["num"], rand_sender=case["sender"], hash_alg=case["hash"], iv=case["iv"], sender="CN=CA", bad_witness=True, **kw)
        m = cmpx.parse(cmpx.enc(m))
    elif how == "witness":
        w = bytearray(wit or b"\0" * 32)
        w[case["p"] % len(w)] ^= 1 << (case["p"] // 64) % 8
        m["body"]["popdecc"][0]["witness"] = bytes(w[:len(w) - (case["p"] // 7) % 2])
    elif how == "owf":
        m["body"]["popdecc"][0]["owf"]["algorithm"] = HASH_OID[next(h for h in HASHES[1:] if h != case["hash"])]
    elif how == "kemct":
        gi = m["header"]["generalInfo"][len(m["header"]["generalInfo"]) - 1]
        v_ = bytes(gi["infoValue"])
        flipped = bytearray(v_)
        flipped[-1 - case["p"] % 32] ^= 1 << (case["p"] // 64) % 8
        gi["infoValue"] = bytes(flipped)
        m = cmpx.parse(cmpx.enc(m))
    elif how == "challenge":
        if v == 2:
            c = bytearray(chal)
            c[case["p"] % len(c)] ^= 1 << (case["p"] // 4096) % 8
            if case["p"] % 5 == 0:
                c = c[:-1 - case["p"] % 16]
            m["body"]["popdecc"][0]["challenge"] = bytes(c)
        else:
            ct = m["body"]["popdecc"][0]["encryptedRand"]["encryptedContentInfo"]["encryptedContent"].asOctets()
            e = bytearray(ct)
            e[case["p"] % len(e)] ^= 1 << (case["p"] // 4096) % 8
            m = cmpx.parse(der.replace(ct, bytes(e)))
    ctx.nontrivial()
    ctx.op()
    try:
        out = answer(m, **over)
    except OK + (PyAsn1Error, InvalidUnwrap) as exc:
        ctx.label(f"refused {type(exc).__name__}")
        return
    got = [int(x) for x in out["body"]["popdecr"]]
    if how in ("bad_witness", "witness", "sender", "rid", "pvno", "owf") or got == [case["num"]]:
        ctx.fail(f"a challenge was answered with {got} (sent: {case['num']}) although damaged: {how}", key=f"accepted-{how}")
    ctx.label("other number")


def independent(key, skey, chal, iv):
    if skey is None:
        return key.decrypt(chal, padding.PKCS1v15())
    d = Cipher(algorithms.AES(dh(key, skey.public_key())[:32]), modes.CBC(iv)).decryptor()
    pt = d.update(chal) + d.finalize()
    return pt[:-pt[-1]]


# --- encrypted certificate

ENC = st.fixed_dictionaries({"key": st.one_of(st.sampled_from(ECS), st.sampled_from(KEMS)), "pvno": st.sampled_from([2, 3]), "body": st.sampled_from(["ir", "cr"]), "cn": DN, "rid": st.integers(0, 2**31), "n": st.integers(1, 2),
                             "tx": st.binary(min_size=16, max_size=16), "how": st.sampled_from(["none", "none", "key", "kari", "content", "ekey", "type"]), "p": st.integers(0, 2**20)})


def ca():
    return cert_for("ec:secp256r1", 0, True, cn="CA Iss", is_ca=True, key_usage="keyCertSign,cRLSign,digitalSignature"), keys.get("ec:secp256r1", 0)


def encrcert(case, ctx):
    name, how, k = case["key"], case["how"], kind(case["key"])
    req = request(name, 0, case["body"], case["pvno"], case["tx"], case["rid"], cn=case["cn"], challenge=False)
    scert, skey = server(name)
    cc, ck = ca()
    kw = {"x25519_key" if name == "x25519" else "x448_key" if name == "x448" else "ecc_key": skey} if k == "ec" else {}
    fn = CA.build_ip_cmp_message if case["body"] == "ir" else CA.build_cp_cmp_message
    msg, certs = fn(request=req, ca_key=ck, ca_cert=cc, enforce_lwcmp=False, cmp_protection_cert=scert, **kw)
    out = "ip" if case["body"] == "ir" else "cp"
    if scert is not None:
        if case["n"] == 2:
            msg["extraCerts"].append(copy_asn1_certificate(cert_for("ec:secp256r1", 3, True, cn="CA prot")))
        msg["extraCerts"].append(copy_asn1_certificate(scert))
    der = cmpx.enc(msg)
    msg = cmpx.parse(der)
    ctx.eq(len(certs), 1, "number of issued certificates", key="issued")
    issued = cmpx.enc(certs[0])
    ctx.check(issued not in der, "the encrypted certificate is also in the clear", key="clear")
    spki = cmpx.enc(certs[0]["tbsCertificate"]["subjectPublicKeyInfo"])
    ctx.eq(spki, cmpx.enc(convertutils.subject_public_key_info_from_pubkey(keys.get(name, 0).public_key())), "public key of the issued certificate", key="spki")
    ctx.eq(cmpx.enc(certs[0]["tbsCertificate"]["subject"]), cmpx.enc(prepare_name(case["cn"])), "subject of the issued certificate", key="subject")
    ctx.eq(int(msg["body"][out]["response"][0]["certReqId"]), case["rid"], "certReqId of the response", key="rid")
    ctx.eq(msg["header"]["transactionID"].asOctets(), case["tx"], "transactionID", key="tx")
    # the KEM recipient is named by the issued certificate, which the client does not know yet: without rid check
    args = dict(ee_private_key=keys.get(name, 0), server_cert=scert or certs[0], exclude_rid_check=True)
    ctx.label(f"{k} {how}")
    ctx.nontrivial()
    got = ctx.accepts("the encrypted certificate is opened", lambda: X.get_enc_cert_from_pkimessage(msg, **args), key="genuine")
    ctx.eq(cmpx.enc(got), issued, "the decrypted certificate", key="cert")
    if how == "none" or how == "kari" and k != "ec":
        return
    m, env = msg, msg["body"][out]["response"][0]["certifiedKeyPair"]["certOrEncCert"]["encryptedCert"]["envelopedData"]
    if how == "key":
        args["ee_private_key"] = keys.get(name, 2 if k == "ec" else 1)
    elif how == "kari":
        other = cert_for(name, 2, True, CA1, cn="CA KARI", key_usage="keyAgreement")
        args["server_cert"] = other
        m = cmpx.parse(cmpx.Wire(der).build(certs=D.ctx(1, D.seq(*[cmpx.enc(other) if c == cmpx.enc(scert) else c for c in cmpx.Wire(der).certs]))))
    elif how == "type":
        other = next(n for n in (RSA + KEMS[:1] + ECS[:1]) if kind(n) != k)
        args["ee_private_key"] = keys.get(other, 0)
    else:
        ri = env["recipientInfos"][0]
        if how == "content":
            old = env["encryptedContentInfo"]["encryptedContent"].asOctets()
        elif ri.getName() == "kari":
            old = ri["kari"]["recipientEncryptedKeys"][0]["encryptedKey"].asOctets()
        else:
            old = content(D.split(ri["ori"]["oriValue"].asOctets())[-1])
        new = bytearray(old)
        new[case["p"] % len(new)] ^= 1 << (case["p"] // 4096) % 8
        m = cmpx.parse(der.replace(old, bytes(new)))
    ctx.op()
    try:
        got = X.get_enc_cert_from_pkimessage(m, **args)
    except OK + (PyAsn1Error, InvalidUnwrap) as exc:
        ctx.label(f"refused {type(exc).__name__}")
        return
    if how == "content":
        ctx.check(cmpx.enc(got) != issued, "the certificate of a damaged content is the issued one", key="damaged-same")
    else:
        ctx.fail(f"the encrypted certificate was opened although: {how}", key=f"opened-{how}")


# --- the challenge handler

STEP = st.fixed_dictionaries({"op": st.sampled_from(["ask", "ask", "ask", "answer", "answer", "answer", "replay", "wrong", "cross"]), "key": st.sampled_from(["rsa2048", "ec:secp256r1", "x25519", "x448", "ml-kem-512", "composite-kem:ml-kem-768:x25519"]),
                              "body": st.sampled_from(["ir", "cr"]), "pvno": st.sampled_from([2, 3]), "rid": st.integers(0, 1000), "pick": st.integers(0, 1000)})
HIST = st.fixed_dictionaries({"steps": st.lists(STEP, min_size=2, max_size=10), "cn": DN})


def answer_msg(challenge, num):
    h = challenge["header"]
    m = cmputils.prepare_pki_message(sender="CN=Client", recipient="CN=CA", transaction_id=h["transactionID"].asOctets(), recip_nonce=h["senderNonce"].asOctets(), sender_nonce=b"m" * 16, pvno=int(h["pvno"]))
    m["body"]["popdecr"].append(num)
    return cmpx.parse(cmpx.enc(m))


def history(case, ctx):
    cc, ck = ca()
    h = ChallengeHandler(ca_key=ck, ca_cert=cc, ecc_key=keys.get("ec:secp256r1", 1), x25519_key=keys.get("x25519", 1), x448_key=keys.get("x448", 1), cmp_protection_cert=cert_for("ec:secp256r1", 1, True, cn="CA prot"))
    out, done, n = {}, [], 0
    for s in case["steps"]:
        op = s["op"]
        if op == "ask":
            tx, n = bytes([n + 1]) * 16, n + 1
            cn = f"{case['cn']}{n}"
            r = request(s["key"], 0, s["body"], s["pvno"], tx, s["rid"], cn=cn)
            r = protectionutils.protect_pkimessage(r, "signature", private_key=keys.get("ec:secp256r1", 5), cert=cert_for("ec:secp256r1", 5, True, cn="Client"))
            m, _ = ctx.accepts("a challenge is prepared", lambda: h.handle_challenge(r), key="ask")
            m = cmpx.parse(cmpx.enc(m))
            scert = server(s["key"])[0]
            res = X.process_pkimessage_with_popdecc(m, ee_key=keys.get(s["key"], 0), cert_req_id=s["rid"], kari_cert=scert)
            num = int(res["body"]["popdecr"][0])
            ctx.check(num not in [v["num"] for v in out.values()] + [v["num"] for v in done], "a challenge number was used twice", key="number-reuse")
            out[tx] = {"num": num, "msg": m, "cn": cn, "key": s["key"], "rid": s["rid"], "body": s["body"]}
            ctx.label("ask")
        elif op == "answer" and out:
            tx = sorted(out)[s["pick"] % len(out)]
            v = out.pop(tx)
            resp, certs = ctx.accepts("the right number is accepted", lambda: h.handle_challenge(answer_msg(v["msg"], v["num"])), key="answer")
            resp = cmpx.parse(cmpx.enc(resp))
            body = {"ir": "ip", "cr": "cp"}[v["body"]]
            ctx.eq(resp["body"].getName(), body, "body of the response", key="response-body")
            ctx.eq(resp["header"]["transactionID"].asOctets(), tx, "transactionID of the response", key="response-tx")
            r = resp["body"][body]["response"]
            ctx.eq(len(r), 1, "number of responses", key="responses")
            ctx.eq(int(r[0]["certReqId"]), v["rid"], "certReqId of the response", key="response-rid")
            c = r[0]["certifiedKeyPair"]["certOrEncCert"]["certificate"]
            ctx.eq(cmpx.enc(c["tbsCertificate"]["subject"]), cmpx.enc(prepare_name(v["cn"])), "subject of the issued certificate", key="response-subject")
            ctx.eq([cmpx.enc(x["tbsCertificate"]) for x in certs], [cmpx.enc(c["tbsCertificate"])], "certificates handed to the CA state", key="response-certs")
            done.append(v)
            ctx.label("answer")
            ctx.nontrivial()
        elif op == "replay" and done:
            v = done[s["pick"] % len(done)]
            ctx.rejects("an answer that was already used", lambda: h.handle_challenge(answer_msg(v["msg"], v["num"])), exc=OK, key="replay")
            ctx.label("replay")
        elif op == "wrong" and out:
            v = out[sorted(out)[s["pick"] % len(out)]]
            ctx.rejects("a wrong number", lambda: h.handle_challenge(answer_msg(v["msg"], v["num"] + 1 if s["rid"] % 2 else v["num"] ^ 0x80)), exc=OK, key="wrong")
            ctx.label("wrong")
        elif op == "cross" and len(out) > 1:
            a, b = [sorted(out)[(s["pick"] + i) % len(out)] for i in (0, 1)]
            ctx.rejects("the number of another transaction", lambda: h.handle_challenge(answer_msg(out[a]["msg"], out[b]["num"])), exc=OK, key="cross")
            ctx.label("cross")


SUBS = [Sub("challenge", CH, challenge, quick=400, thorough=20000, shards=8, text="build_popdecc_from_request answered by process_pkimessage_with_popdecc"),
        Sub("encrcert", ENC, encrcert, quick=200, thorough=12000, shards=8, text="encrypted certificates opened by get_enc_cert_from_pkimessage"),
        Sub("history", HIST, history, quick=120, thorough=6000, shards=8, text="histories of the ChallengeHandler against a model of the outstanding challenges")]
