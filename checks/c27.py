"""C27: message builders produce conforming messages that carry what was asked for; header patching changes only the fields it names."""
import datetime
import hashlib
import time

from hypothesis import strategies as st
from pyasn1.codec.der import decoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc4211, rfc5280, rfc6402, rfc9480

from lib import cmpx, der as D, gram, keys, pki, sigs
from lib.harness import Skip, Sub
from resources import certbuildutils, cmputils, prepareutils  # noqa: F401

PROPERTY = "C27"
TECHNIQUE = "property-based testing: generated builder arguments and patches; every built message is encoded, read back by the check's own DER reader and compared with the arguments, a second build decides freshness; each patch is compared field by field with the message before"
RULE = "the message was built or patched with at least one argument given by the case"
ASSUMPTIONS = ["messages without sender, recipient or pvno cannot be encoded: their absence is checked on the object", "default values documented for recipKID, senderKID and messageTime are accepted where none was given"]
ERR = (ValueError, TypeError)
NUL = D.null()
OID_IC, OID_CW, OID_CP = "1.3.6.1.5.5.7.4.13", "1.3.6.1.5.5.7.4.14", "1.3.6.1.5.5.7.4.21"
TAGS = {"ir": 0, "cr": 2, "p10cr": 4, "kur": 7, "krr": 9, "rr": 11, "ccr": 13, "error": 23, "certConf": 24, "pollReq": 25, "pollRep": 26}
CRMF = ["ir", "cr", "kur", "krr", "ccr"]
KEYS = [("ec:secp256r1", 0), ("ed25519", 0), ("rsa2048", 0), ("ec:secp384r1", 1), ("x25519", 0), ("ed448", 0), ("ml-kem-768", 0), ("x448", 0)]
STATUS = ["accepted", "grantedWithMods", "rejection", "waiting", "revocationWarning", "revocationNotification", "keyUpdateWarning"]
FAIL = ["badAlg", "badMessageCheck", "badRequest", "badTime", "badCertId", "badDataFormat", "wrongAuthority", "incorrectData", "missingTimeStamp", "badPOP", "certRevoked", "certConfirmed", "wrongIntegrity", "badRecipientNonce",
        "timeNotAvailable", "unacceptedPolicy", "unacceptedExtension", "addInfoNotAvailable", "badSenderNonce", "badCertTemplate", "signerNotTrusted", "transactionIdInUse", "unsupportedVersion", "notAuthorized", "systemUnavail",
        "systemFailure", "duplicateCertReq"]
REASON = {"unspecified": 0, "keyCompromise": 1, "cACompromise": 2, "affiliationChanged": 3, "superseded": 4, "cessationOfOperation": 5, "certificateHold": 6, "removeFromCRL": 8, "privilegeWithdrawn": 9, "aACompromise": 10}
MAIL = ["alice@example.com", "bob@test.org", "x@y.de"]
text = st.text(st.characters(min_codepoint=32, max_codepoint=0x2FF, exclude_categories=["Cs"]), min_size=1, max_size=20)
octs = st.binary(min_size=1, max_size=24)
opt = lambda s: st.none() | s  # noqa: E731


@st.composite
def header(draw, mac=False):
    return {"sender": draw(st.sampled_from(MAIL)), "recipient": draw(st.sampled_from(MAIL)), "tx": draw(opt(octs)), "nonce": draw(opt(octs)), "recip": draw(opt(octs)), "rkid": draw(opt(octs)), "skid": draw(opt(octs)),
            "pvno": draw(st.sampled_from([None, 1, 2, 3])), "ic": draw(st.booleans()), "time": draw(opt(st.integers(1600000000, 2000000000))), "free": draw(opt(st.lists(text, min_size=1, max_size=3))), "mac": mac and draw(st.booleans()),
            "cn": draw(st.sampled_from(["me", "A B", "RA-7"])), "skip": draw(st.lists(st.sampled_from(["transactionID", "senderNonce", "recipNonce", "messageTime", "senderKID", "recipKID", "generalInfo", "freeText"]), unique=True, max_size=3)),
            "space": draw(st.booleans()), "hard": draw(st.sampled_from([None] * 6 + ["sender", "recipient", "pvno"]))}


BASIC = ["tx", "nonce", "recip", "rkid", "skid", "pvno", "ic"]
PY = {"tx": "transaction_id", "nonce": "sender_nonce", "recip": "recip_nonce", "rkid": "recip_kid", "skid": "sender_kid", "pvno": "pvno"}


def kwargs(h, names, strpv=False):
    kw = {"sender": h["sender"], "recipient": h["recipient"]}
    for n in names:
        if n in PY and h[n] is not None:
            kw[PY[n]] = str(h[n]) if n == "pvno" and strpv else h[n]
    if h["ic"] and "ic" in names:
        kw["implicit_confirm"] = True
    if "time" in names and h["time"] is not None:
        kw["message_time"] = prepareutils.prepare_generalized_time(datetime.datetime.fromtimestamp(h["time"], datetime.timezone.utc))
    if "free" in names and h["free"] is not None:
        kw["pki_free_text"] = list(h["free"])
    if "mac" in names and h["mac"]:
        kw["for_mac"] = True
        kw["sender"] = "CN=" + h["cn"]
    skip = list(h["skip"]) + ([h["hard"]] if h["hard"] else [])
    kw["exclude_fields"] = ((", " if h["space"] else ",").join(skip)) or None
    return kw


def ext_objs(pairs):
    """Extensions as the suite builds them (pyasn1 refuses a decoded value here)."""
    out = rfc5280.Extensions()
    for oid, value in pairs:
        e = rfc5280.Extension()
        e["extnID"], e["extnValue"] = univ.ObjectIdentifier(oid), univ.OctetString(value)
        out.append(e)
    return out


def stamp_of(der):
    text = der[2:].decode().rstrip("Z").split(".")[0]
    return datetime.datetime.strptime(text, "%Y%m%d%H%M%S").replace(tzinfo=datetime.timezone.utc).timestamp()


def header_ok(ctx, h, names, m, what, pvno=2, fixed=None):
    """The header of the built message is what the arguments say; returns the Wire or None if it cannot be encoded."""
    if h["hard"]:
        ctx.check(not m["header"][h["hard"]].isValue, f"{what}: {h['hard']} was excluded but is there", key="hdr-excluded")
        return None
    der = cmpx.enc(m)
    w = cmpx.Wire(der)
    f = w.fields()
    given = lambda n: h[n] if n in names else None  # noqa: E731
    fixed = fixed or {}
    ctx.eq(f["pvno"], D.integer(given("pvno") if given("pvno") is not None else pvno), what + ": pvno", key="hdr-pvno")
    mac = "mac" in names and h["mac"]
    ctx.eq(f["sender"], D.ctx(4, pki.name(h["cn"])) if mac else D.ctxp(1, h["sender"].encode()), what + ": sender", key="hdr-sender")
    ctx.eq(f["recipient"], D.ctxp(1, h["recipient"].encode()), what + ": recipient", key="hdr-recipient")
    octet = {"tx": "transactionID", "nonce": "senderNonce", "recip": "recipNonce", "rkid": "recipKID", "skid": "senderKID"}
    for n, field in octet.items():
        v = fixed.get(n, given(n))
        got = w.value(field)
        if field in h["skip"]:
            ctx.check(got is None, f"{what}: {field} was excluded but is {got!r}", key="hdr-excluded")
        elif v is not None:
            ctx.eq(got, v, f"{what}: {field}", key="hdr-" + n)
        elif n in ("tx", "nonce"):
            ctx.check(got is not None and len(got) == 16, f"{what}: {field} was not generated: {got!r}", key="hdr-fresh")
        elif n == "recip":
            ctx.check(got is None, f"{what}: recipNonce appeared: {got!r}", key="hdr-recip")
        elif n == "skid" and mac:
            ctx.eq(got, b"CN=" + h["cn"].encode(), what + ": senderKID of a MAC-protected message", key="hdr-skid")
    if "messageTime" in h["skip"]:
        ctx.check("messageTime" not in f, what + ": messageTime was excluded", key="hdr-excluded")
    elif "time" in names and h["time"] is not None:
        ctx.eq(stamp_of(f["messageTime"]), h["time"], what + ": messageTime", key="hdr-time")
    else:
        ctx.check("messageTime" in f and abs(stamp_of(f["messageTime"]) - time.time()) < 30, what + ": messageTime is not the current time", key="hdr-time")
    ic = h["ic"] and "ic" in names and "generalInfo" not in h["skip"]
    ctx.eq(f.get("generalInfo"), D.seq(D.seq(D.oid(OID_IC), NUL)) if ic else None, what + ": generalInfo", key="hdr-info")
    free = h["free"] if "free" in names and "freeText" not in h["skip"] else None
    ctx.eq(f.get("freeText"), D.seq(*[D.utf8(x) for x in free]) if free else None, what + ": freeText", key="hdr-free")
    ctx.check(w.prot is None and w.certs_raw is None, what + ": protection or extraCerts appeared", key="hdr-more")
    back = cmputils.parse_pkimessage(der)
    ctx.eq(cmpx.enc(back), der, what + ": decoded and encoded again", key="roundtrip")
    return w


def freshness(ctx, h, w1, m2, names, what):
    w2 = cmpx.Wire(cmpx.enc(m2))
    for n, field in (("tx", "transactionID"), ("nonce", "senderNonce")):
        if field not in h["skip"] and not (n in names and h[n] is not None):
            ctx.check(w1.value(field) != w2.value(field), f"{what}: {field} repeats in the next message", key="hdr-random")


def content(w, ctx, name):
    ctx.eq(w.body[0], 0xA0 + TAGS[name], "tag of the body", key="body-tag")
    return D.split(w.body)[0]


def status_info(status, fails, texts):
    return D.seq(D.integer(STATUS.index(status)), *([D.seq(*[D.utf8(t) for t in texts])] if texts else []), *([D.bits_from_set({FAIL.index(f) for f in fails})] if fails else []))


# ------------------------------------------------------------------ certificate requests

def exts_of(case):
    out = []
    if case["ext"] & 1:
        out.append(pki.ku("digitalSignature"))
    if case["ext"] & 2:
        out.append(pki.eku("1.3.6.1.5.5.7.3.2"))
    if case["ext"] & 4:
        out.append(pki.bc(False))
    return out


@st.composite
def requests_(draw):
    return {"h": draw(header(mac=True)), "body": draw(st.sampled_from(CRMF)), "key": draw(st.integers(0, len(KEYS) - 1)), "cn": draw(text), "id": draw(st.integers(-1, 5)), "ext": draw(st.integers(0, 7)),
            "how": draw(st.sampled_from(["plain", "plain", "ra", "popo", "template", "kga", "msgs", "controls", "csr"])), "hash": draw(st.sampled_from(["sha256", "sha384", "sha512"])), "n": draw(st.integers(1, 3)), "old": draw(st.booleans()),
            "serial": draw(st.integers(1, 1 << 64)), "strid": draw(st.booleans())}


def template_of(der):
    return {x[0]: x for x in D.split(der)}


def run_requests(case, ctx):
    h, name, how = case["h"], case["body"], case["how"]
    kn, ki = KEYS[case["key"]]
    key = keys.get(kn, ki)
    sign = not kn.startswith(("x", "ml-kem"))
    if not sign and how in ("ra", "csr"):
        raise Skip("needs a signing key")
    if how == "csr" and name not in ("ir", "cr", "ccr"):
        raise Skip("no CSR builder")
    if h["mac"] and h["hard"] == "sender":
        h = dict(h, hard=None)  # a MAC-protected message names its sender
    names = BASIC + ["time", "mac"]
    kw = kwargs(h, names, strpv=case["strid"])
    ctx.nontrivial()
    ctx.label("body:" + name, "how:" + how, "key:" + kn, *(["mac"] if h["mac"] else []), *("skip:" + s for s in h["skip"]))
    subject = pki.name(case["cn"])
    xs = exts_of(case)
    ext = decoder.decode(D.seq(*xs), asn1Spec=rfc5280.Extensions())[0] if xs else None
    name_obj = decoder.decode(subject, asn1Spec=rfc9480.Name())[0]
    build = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request, "krr": cmputils.build_krr_from_key, "ccr": cmputils.build_ccr_from_key}[name]
    kw.update(cert_req_id=str(case["id"]) if case["strid"] else case["id"], hash_alg=case["hash"])
    args = (key,)
    want_popo = {"sig": 0xA1, "enc": 0xA2, "agree": 0xA3}["sig" if sign else "agree" if kn in ("x25519", "x448") else "enc"]
    want = {0xA5: D.ctx(5, subject), 0xA6: D.retag(0xA6, pki.spki(kn, ki))}
    if xs:
        want[0xA9] = D.retag(0xA9, D.seq(*xs))
    pvno, controls = 2, None
    if how == "csr":
        build = {"ir": cmputils.build_ir_from_csr, "cr": cmputils.build_cr_from_csr, "ccr": cmputils.build_ccr_from_csr}[name]
        info = D.seq(D.integer(0), subject, pki.spki(kn, ki), D.tlv(0xA0, D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(D.seq(*xs)))) if xs else D.tlv(0xA0, b""))
        a = pki.alg(kn, "sha256")
        csr = decoder.decode(D.seq(info, a, D.bits(pki.sign(kn, ki, info, "sha256"))), asn1Spec=rfc6402.CertificationRequest())[0]
        args = (csr, key)
    else:
        kw.update(common_name=name_obj, extensions=ext)
    if how == "ra":
        kw["ra_verified"] = True
        want_popo = 0x80
    if how == "popo":
        kw["popo"] = cmputils.prepare_popo(ra_verified=True)
        want_popo = 0x80
    if how == "kga":
        kw["for_kga"] = True
        want_popo, pvno = None, 3
    if how in ("template", "msgs"):
        tmpl = [D.tlv(0x81, D.integer(case["serial"])[2:]) if False else b"", D.ctx(3, pki.name("Issuer of " + case["cn"])), D.ctx(5, subject), D.retag(0xA6, pki.spki(kn, ki))] + ([D.retag(0xA9, D.seq(*xs))] if xs else [])
        t = decoder.decode(D.seq(*[x for x in tmpl if x]), asn1Spec=rfc4211.CertTemplate())[0]
        want = template_of(D.seq(*[x for x in tmpl if x]))
        kw["cert_template"] = t
    if how == "controls":
        c = cmputils.prepare_reg_token_controls("token-" + case["cn"])
        kw["controls"] = c
        controls = D.seq(D.seq(D.oid("1.3.6.1.5.5.7.5.1.1"), D.utf8("token-" + case["cn"])))
    old = None
    if name == "kur" and case["old"] and how in ("plain", "ra"):
        old = pki.make(pki.name("Old EE"), ("ec:secp256r1", 1), issuer=pki.name("Old CA"), by=("ed25519", 0), serial=case["serial"])
        kw.update(cert=pki.obj(old), use_controls=True)
        controls = D.seq(D.seq(D.oid("1.3.6.1.5.5.7.5.1.5"), D.seq(D.ctx(4, pki.name("Old CA")), D.integer(case["serial"]))))
    given = None
    if how == "msgs":
        msgs = [cmputils.prepare_cert_req_msg(private_key=key, cert_template=t, cert_req_id=i) for i in range(case["n"])]
        given = [cmpx.enc(x) for x in msgs]
        kw["cert_req_msg"] = msgs if case["n"] > 1 else msgs[0]
    m = build(*args, **kw)
    w = header_ok(ctx, h, names, m, name, pvno)
    if w is None:
        return
    freshness(ctx, h, w, build(*args, **kw), names, name)
    reqs = D.split(content(w, ctx, name))
    if given is not None:
        ctx.eq(reqs, given, "the given CertReqMsg", key="req-given")
        return
    if not ctx.eq(len(reqs), 1, "number of requests", key="req-n"):
        return
    p = D.split(reqs[0])
    r = D.split(p[0])
    ctx.eq(r[0], D.integer(case["id"]), "certReqId", key="req-id")
    got = template_of(r[1])
    if how == "kga":
        pk = got.pop(0xA6, None)
        want.pop(0xA6)
        ctx.check(pk is None or sigs.bits(D.split(D.retag(0x30, pk))[1]) == b"", "a public key in a request for central key generation", key="req-kga")
    if old is not None:
        got_issuer = got.pop(0xA3, None)
        ctx.check(got_issuer in (None, D.ctx(3, pki.name("Old CA"))), "issuer of the update request", key="req-issuer")
    ctx.eq(got, want, "certificate template", key="req-template")
    ctx.eq(r[2] if len(r) > 2 else None, controls, "controls", key="req-controls")
    popo = p[1] if len(p) > 1 else None
    ctx.eq(popo[0] if popo else None, want_popo, "proof of possession", key="req-popo")
    if want_popo == 0xA1 and popo:
        q = D.split(popo)
        ctx.check(sigs.verify(q[-2], pki.spki(kn, ki), p[0], sigs.bits(q[-1])), "the proof of possession does not verify", key="req-pop-sig")
        if kn.startswith(("rsa", "ec")):
            ctx.eq(D.split(q[-2])[0], D.split(pki.alg(kn, case["hash"]))[0], "signature algorithm of the proof", key="req-pop-alg")
    ctx.eq(len(p), 2 if want_popo else 1, "parts of the CertReqMsg", key="req-more")


# ------------------------------------------------------------------ other bodies

@st.composite
def others(draw):
    kind = draw(st.sampled_from(["plain", "error", "pollReq", "pollRep", "rr", "certConf", "status", "p10cr", "reasons", "exchange"]))
    return {"h": draw(header()), "kind": kind, "status": draw(st.sampled_from(STATUS)), "fails": draw(st.lists(st.sampled_from(FAIL), unique=True, max_size=4)), "texts": draw(st.lists(text, max_size=3)), "etexts": draw(st.lists(text, max_size=3)),
            "code": draw(st.integers(-5, 1 << 40)), "id": draw(st.integers(-1, 1 << 20)), "after": draw(st.integers(0, 1 << 30)), "serial": draw(st.integers(1, 1 << 120)), "reasons": draw(st.lists(st.sampled_from(list(REASON)), unique=True, min_size=1, max_size=3)),
            "way": draw(st.integers(0, 3)), "str": draw(st.booleans()), "hash": draw(st.sampled_from(["sha224", "sha256", "sha384", "sha512"])), "body": draw(gram.messages(names=["ip", "pollReq", "pollRep", "error", "cr"])), "cn": draw(text)}


def run_others(case, ctx):
    h, kind = case["h"], case["kind"]
    if h["mac"] and h["hard"] == "sender":
        h = dict(h, hard=None)
    names = list(BASIC)
    ctx.label("kind:" + kind, *("skip:" + s for s in h["skip"]))
    ctx.nontrivial()
    one = lambda l: l if len(l) != 1 or case["str"] else l[0]  # noqa: E731
    if kind == "plain":
        names += ["time", "free"]
        m = cmputils.prepare_pki_message(**kwargs(h, names, case["str"]))
        m2 = cmputils.prepare_pki_message(**kwargs(h, names))
        for x in (m, m2):
            x["body"]["pkiconf"] = rfc9480.PKIConfirmContent("").subtype(explicitTag=__import__("pyasn1.type.tag", fromlist=["tag"]).Tag(128, 32, 19))
        w = header_ok(ctx, h, names, m, kind)
        if w is not None:
            freshness(ctx, h, w, m2, names, kind)
        return
    if kind == "exchange":
        # fields taken over from the message answered
        other = cmputils.parse_pkimessage(case["body"]["der"])
        before = cmpx.Wire(case["body"]["der"])
        kw = kwargs(h, [n for n in names if n in ("tx", "pvno")])
        fixed = {n: before.value(f) for n, f in (("tx", "transactionID"), ("recip", "senderNonce"), ("rkid", "senderKID"), ("skid", "recipKID"), ("nonce", "recipNonce")) if before.value(f)}
        if h["tx"] is not None:
            fixed["tx"] = h["tx"]
        f = lambda: cmputils.build_polling_request(resp_pki_message=other, cert_req_id=case["id"], **kw) if case["way"] % 2 else cmputils.build_polling_response(req_pki_message=other, cert_req_id=case["id"], check_after=case["after"], **kw)  # noqa: E731
        m = f()
        w = header_ok(ctx, dict(h, ic=False), ["pvno"], m, "answer to " + case["body"]["body"], fixed=fixed)
        ctx.eq(cmpx.enc(other), case["body"]["der"], "the message answered", key="exchange-source")
        if w is not None and "nonce" not in fixed and "senderNonce" not in h["skip"]:
            ctx.check(w.value("senderNonce") != cmpx.Wire(cmpx.enc(f())).value("senderNonce"), "senderNonce repeats", key="hdr-random")
        return
    if kind == "status":
        s = cmputils.prepare_pkistatusinfo(case["status"], failinfo=",".join(case["fails"]) or None, texts=one(case["texts"]) or None)
        ctx.eq(cmpx.enc(s), status_info(case["status"], case["fails"], case["texts"]), "PKIStatusInfo", key="status")
        hv = hashlib.new(case["hash"], b"cert").digest()
        c = cmputils.prepare_certstatus(cert_hash=hv, cert_req_id=str(case["id"]) if case["str"] else case["id"], status=case["status"], failinfo=",".join(case["fails"]) or None, text=one(case["texts"]) or None)
        info = status_info(case["status"], case["fails"], case["texts"]) if case["status"] != "accepted" or case["fails"] else b""
        ctx.eq(cmpx.enc(c), D.seq(D.octets(hv), D.integer(case["id"]), info), "CertStatus", key="certstatus")
        return
    if kind == "reasons":
        sep = ", " if h["space"] else ","
        e = cmputils.prepare_crl_reason_extensions(sep.join(case["reasons"]), critical=case["str"])
        want = [D.seq(D.oid("2.5.29.21"), *([D.boolean(True)] if case["str"] else []), D.octets(bytes([10, 1, REASON[r]]))) for r in case["reasons"]]
        ctx.eq(D.split(cmpx.enc(e)), want, "reasons", key="reasons")
        return
    if kind == "error":
        f = lambda: cmputils.build_cmp_error_message(status=case["status"], failinfo=",".join(case["fails"]) or None, texts=one(case["texts"]) or None, error_texts=one(case["etexts"]) or None, error_code=str(case["code"]) if case["str"] else case["code"], **kwargs(h, names, case["str"]))  # noqa: E731
        want = D.seq(status_info(case["status"], case["fails"], case["texts"]), D.integer(case["code"]), D.seq(*[D.utf8(t) for t in case["etexts"]]) if case["etexts"] else b"")
    elif kind == "pollReq":
        f = lambda: cmputils.build_polling_request(cert_req_id=case["id"], **kwargs(h, names))  # noqa: E731
        want = D.seq(D.seq(D.integer(case["id"])))
    elif kind == "pollRep":
        f = lambda: cmputils.build_polling_response(cert_req_id=case["id"], check_after=str(case["after"]) if case["str"] else case["after"], status_text=one(case["texts"]) or None, **kwargs(h, names, case["str"]))  # noqa: E731
        want = D.seq(D.seq(D.integer(case["id"]), D.integer(case["after"]), D.seq(*[D.utf8(t) for t in case["texts"]]) if case["texts"] else b""))
    elif kind == "rr":
        names += ["time"]
        cert = pki.make(pki.name(case["cn"]), ("ec:secp256r1", 0), issuer=pki.name("CA of " + case["cn"][:5]), by=("ed25519", 0), serial=case["serial"], exts=[pki.bc(False)])
        iss, subj = pki.name("CA of " + case["cn"][:5]), pki.name(case["cn"])
        serial = D.ctxp(1, D.integer(case["serial"])[2:])
        reason = D.seq(D.seq(D.oid("2.5.29.21"), D.octets(bytes([10, 1, REASON[case["reasons"][0]]]))))
        kw = {"reason": case["reasons"][0]}
        tmpl = D.seq(serial, D.ctx(3, iss))
        if case["way"] == 0:
            kw.update(cert=pki.obj(cert))
        elif case["way"] == 1:
            kw.update(cert=pki.obj(cert), exclude_cert_temp_vals="extensions, validity, publicKey" if h["space"] else "extensions,validity,publicKey", exclude_crl_entry=True)
            tmpl, reason = D.seq(serial, D.ctx(3, iss), D.ctx(5, subj)), b""
        elif case["way"] == 2:
            t = decoder.decode(tmpl, asn1Spec=rfc4211.CertTemplate())[0]
            kw.update(cert_template=t, crl_entry_details=ext_objs([("2.5.29.24", D.gtime("20260101000000Z"))]))
            reason = D.seq(pki.ext("2.5.29.24", D.gtime("20260101000000Z")))
        else:
            kw.update(serial_number=str(case["serial"]) if case["str"] else case["serial"], issuer="CN=CA of Nobody")
            tmpl = D.seq(serial, D.ctx(3, pki.name("CA of Nobody")))
        f = lambda: cmputils.build_cmp_revoke_request(**dict(kw), **kwargs(h, names))  # noqa: E731
        want = D.seq(D.seq(tmpl, reason))
    elif kind == "certConf":
        names += ["mac"]
        cert = pki.make(pki.name("EE"), ("ed25519", 0), issuer=pki.name("CA"), by=("ec:secp256r1", 0), serial=case["serial"], h=case["hash"])
        hv = hashlib.new(case["hash"], cert).digest()
        kw = {"cert_req_id": str(case["id"]) if case["str"] else case["id"]}
        if case["way"] == 0:
            kw["cert"] = pki.obj(cert)
        elif case["way"] == 1:
            kw["cert"], kw["hash_alg"] = pki.obj(cert), "sha512"
            hv = hashlib.sha512(cert).digest()
        else:
            kw["cert_hash"] = hv = hashlib.sha3_256(cert).digest()
        info = b""
        if case["status"] != "accepted":
            kw["status_info"] = cmputils.prepare_pkistatusinfo(case["status"], failinfo=",".join(case["fails"]) or None, texts=case["texts"] or None)
            info = status_info(case["status"], case["fails"], case["texts"])
        f = lambda: cmputils.build_cert_conf(**dict(kw), **kwargs(h, names, case["str"]))  # noqa: E731
        want = D.seq(D.seq(D.octets(hv), D.integer(case["id"]), info))
    else:
        names += ["time", "mac"]
        subject = pki.name(case["cn"])
        info = D.seq(D.integer(0), subject, pki.spki("ed25519", 0), D.tlv(0xA0, b""))
        want = D.seq(info, pki.alg("ed25519", None), D.bits(pki.sign("ed25519", 0, info, None)))
        csr = decoder.decode(want, asn1Spec=rfc6402.CertificationRequest())[0]
        f = lambda: cmputils.build_p10cr_from_csr(csr, **kwargs(h, names, case["str"]))  # noqa: E731
    m = f()
    w = header_ok(ctx, h, names, m, kind)
    if w is None:
        return
    ctx.eq(content(w, ctx, kind), want, kind + ": body", key="body-" + kind)
    freshness(ctx, h, w, f(), names, kind)


# ------------------------------------------------------------------ patches

PATCH = ["tx", "time", "skid", "nonce", "recip", "sender", "info", "addinfo", "certs", "include", "exchange", "nested", "added"]


@st.composite
def patches(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(PATCH), st.integers(0, 5), opt(octs), st.booleans(), st.lists(st.sampled_from(["transactionID", "senderNonce", "recipNonce", "senderKID", "recipKID", "messageTime", "recipient", "sender"]), unique=True, min_size=1, max_size=3)), min_size=1, max_size=5))
    return {"msg": draw(gram.messages(names=["ir", "cr", "ip", "certConf", "pkiconf", "error", "pollReq", "rr", "p10cr", "genm"])), "other": draw(gram.messages(names=["ir", "ip", "pollRep", "error"])), "ops": [list(o) for o in ops]}


def run_patches(case, ctx):
    ders = [case["msg"]["der"], case["other"]["der"]]
    try:
        m, other = [cmputils.parse_pkimessage(d) for d in ders]
        if cmpx.enc(m) != ders[0] or cmpx.enc(other) != ders[1]:
            raise Skip("does not re-encode")
    except ERR:
        raise Skip("not decodable")
    ctx.nontrivial()
    ow = cmpx.Wire(ders[1])
    of = ow.fields()
    certs = [pki.make(pki.name("C%d" % i), ("ed25519", 0), serial=i + 1, exts=[pki.ski("ed25519", 0)]) for i in range(3)]
    nested = False
    for op, way, data, flag, fields in case["ops"]:
        der = cmpx.enc(m)
        w = cmpx.Wire(der)
        f = w.fields()
        want, fresh, body, xs = dict(f), {}, w.body, w.certs_raw
        ctx.label("op:" + op)
        sep = ", " if flag else ","
        if op == "tx":
            prefix = b"pre" if way == 1 else None
            m = cmputils.patch_transaction_id(m, new_id=(data.hex() if way == 2 and data else data), prefix=prefix)
            if data is None:
                fresh["transactionID"] = 16 + len(prefix or b"")
            else:
                v = bytes.fromhex(data.hex()) if way == 2 else data
                got = cmpx.Wire(cmpx.enc(m)).value("transactionID")
                want["transactionID"] = D.octets((prefix or b"") + (v if way != 2 else got))
        elif op == "time":
            t = 1700000000 + way * 86400 * 31 + 7
            m = cmputils.patch_messageTime(m, datetime.datetime.fromtimestamp(t, datetime.timezone.utc) if flag else None)
            if flag:
                want["messageTime"] = D.gtime(datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y%m%d%H%M%SZ"))
            else:
                got = cmpx.Wire(cmpx.enc(m)).fields()["messageTime"]
                ctx.check(abs(stamp_of(got) - time.time()) < 30, "messageTime is not now", key="patch-time")
                want["messageTime"] = got
        elif op == "skid":
            if way % 2 and data:
                m = cmputils.patch_senderkid(m, data)
                want["senderKID"] = D.octets(data)
            else:
                m = cmputils.patch_senderkid(m, pki.obj(certs[0]))
                want["senderKID"] = D.octets(pki.kid("ed25519", 0))
        elif op == "nonce":
            src = "senderNonce" if flag else "recipNonce"
            if data is not None and way % 2:
                m = cmputils.patch_sendernonce(m, sender_nonce=data)
                want["senderNonce"] = D.octets(data)
            elif ow.value(src) is None:
                ctx.rejects("nonce from a message without one", lambda: cmputils.patch_sendernonce(m, other_msg=other, use_sender_nonce=flag), exc=ERR, key="patch-nonce")
            else:
                m = cmputils.patch_sendernonce(m, other_msg=other, use_sender_nonce=flag)
                want["senderNonce"] = of[src]
        elif op == "recip":
            m = cmputils.patch_recipnonce(m, data)
            if data is None:
                fresh["recipNonce"] = 16
            else:
                want["recipNonce"] = D.octets(data)
        elif op == "sender":
            c = pki.make(pki.name("Subject %d" % way), ("ed25519", 0), issuer=pki.name("Issuer %d" % way), by=("ed25519", 1))
            if way % 3 == 0:
                m = cmputils.patch_sender(m, cert=pki.obj(c), subject=flag)
                want["sender"] = D.ctx(4, pki.name(("Subject %d" if flag else "Issuer %d") % way))
            elif way % 3 == 1:
                m = cmputils.patch_sender(m, sender_name="CN=Name %d" % way)
                want["sender"] = D.ctx(4, pki.name("Name %d" % way))
            else:
                m = cmputils.patch_sender(m, general_name=decoder.decode(D.ctxp(1, b"a@b.c"), asn1Spec=rfc9480.GeneralName())[0])
                want["sender"] = D.ctxp(1, b"a@b.c")
        elif op in ("info", "addinfo"):
            ic, wait, prof = bool(way & 1), (1000 if way & 2 else None), ("profile-" + str(way) if way & 4 or flag else None)
            own = [cmputils.prepare_info_type_and_value("1.2.3.4", __import__("pyasn1.type.univ", fromlist=["univ"]).Null(""))] if op == "addinfo" and flag else []
            if op == "info":
                m = cmputils.patch_generalinfo(m, implicit_confirm=ic, confirm_wait_time=wait, cert_profile=prof)
            elif own or ic or wait or prof:
                n_own = len(own)
                m = cmputils.add_general_info_values(m, info_vals=own or None, implicit_confirm=ic, confirm_wait_time=wait, cert_profile=prof)
                ctx.eq(len(own), n_own, "length of the caller's list of values", key="patch-info-list")
            got = cmpx.Wire(cmpx.enc(m)).fields().get("generalInfo")
            new = []
            if ic:
                new.append(D.seq(D.oid(OID_IC), NUL))
            if wait:
                rows = [x for x in (D.split(got) if got else []) if D.split(x)[0] == D.oid(OID_CW)]
                if ctx.check(bool(rows), "confirmWaitTime is missing", key="patch-wait"):
                    t = stamp_of(D.split(rows[-1])[1])
                    ctx.check(abs(t - time.time() - wait) < 30, f"confirmWaitTime is {t - time.time():.0f} s ahead instead of {wait}", key="patch-wait")
                    new.append(rows[-1])
            if prof:
                new.append(D.seq(D.oid(OID_CP), D.seq(D.utf8(prof))))
            if op == "info":
                if new:
                    want["generalInfo"] = D.seq(*new)
            elif new or own:
                new = [D.seq(D.oid("1.2.3.4"), NUL)] * bool(own) + new
                have = D.split(f["generalInfo"]) if "generalInfo" in f else []
                rows = D.split(got) if got else []
                ctx.eq(rows[: len(have)], have, "generalInfo values that were there", key="patch-info-kept")
                ctx.eq(sorted(rows[len(have):]), sorted(new), "added generalInfo values", key="patch-info")
                want["generalInfo"] = got
        elif op == "certs":
            lst = [pki.obj(c) for c in certs[: 2 + way % 2]]
            m = cmputils.patch_extra_certs(m, lst, swap_certs=flag)
            ctx.eq([cmpx.enc(c) for c in lst], certs[: 2 + way % 2], "the caller's list of certificates", key="patch-certs-list")
            order = [certs[1], certs[0]] + certs[2:] if flag else certs
            xs = D.ctx(1, D.seq(*order[: 2 + way % 2]))
        elif op == "include":
            fs = [x for x in fields if x in of]
            if not fs:
                continue
            m = cmputils.patch_pkimessage_header_with_other_message(m, other, include_fields=sep.join(fs))
            for x in fs:
                want[x] = of[x]
        elif op == "exchange":
            skip = [x for x in fields if x not in ("messageTime", "recipient", "sender")]
            m = cmputils.patch_pkimessage_header_with_other_message(m, other, for_exchange=True, exclude_fields=sep.join(skip) or None)
            for x, y in (("transactionID", "transactionID"), ("recipNonce", "senderNonce"), ("senderNonce", "recipNonce"), ("recipKID", "senderKID"), ("senderKID", "recipKID")):
                if x not in skip and y in of:
                    want[x] = of[y]
                elif x == "senderNonce" and x not in skip:
                    fresh[x] = 16
        else:
            if w.body[0] == 0xB4:
                continue
            n = cmputils.build_nested_pkimessage(sender="a@b.c", recipient="d@e.f", exclude_fields=None, other_messages=[m] if op == "added" else [m, other], transaction_id=b"T" * 16, sender_nonce=b"N" * 16)
            der = cmpx.enc(n)
            nw = cmpx.Wire(der)
            want, body, xs, inner = nw.fields(), nw.body, nw.certs_raw, f
            skip = [x for x in fields if x in ("transactionID", "senderNonce")]
            cmputils.patch_pkimessage_header_with_other_message(n, exclude_fields=sep.join(skip) or None, **({"for_added_protection": True} if op == "added" else {"for_nested": True}))
            for x in ("transactionID", "senderNonce"):
                if x not in skip:
                    if op == "added" and x in inner:
                        want[x] = inner[x]
                    elif op == "nested":
                        fresh[x] = 16
            if op == "added" and not all(x in inner for x in ("transactionID", "senderNonce")):
                continue
            nested = True
            compare(ctx, n, want, fresh, body, nw.prot_raw, xs, op)
            continue
        compare(ctx, m, want, fresh, body, w.prot_raw, xs, op)
        ctx.eq(cmpx.enc(other), ders[1], op + ": the other message", key="patch-other")
    ctx.label("nested" if nested else "flat")


def compare(ctx, m, want, fresh, body, prot, xs, op):
    ctx.op(1)
    g = cmpx.Wire(cmpx.enc(m))
    got = g.fields()
    for x, n in fresh.items():
        v = g.value(x)
        ctx.check(v is not None and len(v) == n and D.octets(v) != want.get(x), f"{op}: {x} was not generated: {v!r}", key="patch-fresh")
        want[x] = got.get(x)
    diff = {x: (got.get(x), want.get(x)) for x in set(got) | set(want) if got.get(x) != want.get(x)}
    ctx.check(not diff, f"{op}: fields differ from what was asked: { {k: tuple(v and v.hex()[:60] for v in p) for k, p in sorted(diff.items())} }", key="patch-" + op)
    ctx.eq(g.body, body, op + ": body", key="patch-body")
    ctx.eq(g.prot_raw, prot, op + ": protection", key="patch-prot")
    ctx.eq(g.certs_raw, xs, op + ": extraCerts", key="patch-xcerts")


SUBS = [
    Sub("requests", requests_(), run_requests, quick=500, thorough=8000, shards=3, text="certificate request builders (from keys and CSRs): header, template, controls, proof"),
    Sub("others", others(), run_others, quick=900, thorough=15000, shards=2, text="error, polling, revocation, confirmation, p10cr builders, status structures, fields taken from a message answered"),
    Sub("patches", patches(), run_patches, quick=700, thorough=12000, shards=3, text="sequences of header patches on generated messages"),
]
