"""C26: response-body validation accepts exactly conforming bodies."""
import hashlib
import os
import time

from hypothesis import strategies as st

from lib import cmpx, der as D, harness, mca, pki, ref
from lib.harness import Sub
from checks.c25 import CN, PBM, dirname, gtime, load, rdn
from pyasn1.error import PyAsn1Error
from resources import asn1utils, checkutils, cmputils
from pyasn1_alt_modules import rfc9480
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C26"
TECHNIQUE = "generated response bodies with independent choices of status, failure bits, ids, certificates, keys, caPubs and versions, against a model of the documented body rules; signed and MAC-protected confirmation exchanges with one deviation; failure-bit queries against set operations"
RULE = "non-trivial: a complete body was judged by its validator, or a bit query was answered"
ASSUMPTIONS = ["messages are written by lib/der.py from RFC 9810", "openssl judges the chain of a certificate when caPubs is present"]

ERR = (CMPTestSuiteError, ValueError, PyAsn1Error, IndexError, NotImplementedError)
TAG = {"ir": 0, "ip": 1, "cr": 2, "cp": 3, "p10cr": 4, "kur": 7, "kup": 8, "rr": 11, "rp": 12, "ccr": 13, "ccp": 14, "pkiconf": 19, "nested": 20, "genm": 21, "genp": 22, "error": 23, "certConf": 24, "pollReq": 25, "pollRep": 26}
STATUS = ["accepted", "grantedWithMods", "rejection", "waiting", "revocationWarning", "revocationNotification", "keyUpdateWarning"]
FAIL = ["badAlg", "badMessageCheck", "badRequest", "badTime", "badCertId", "badDataFormat", "wrongAuthority", "incorrectData", "missingTimeStamp", "badPOP", "certRevoked", "certConfirmed",
        "wrongIntegrity", "badRecipientNonce", "timeNotAvailable", "unacceptedPolicy", "unacceptedExtension", "addInfoNotAvailable", "badSenderNonce", "badCertTemplate", "signerNotTrusted",
        "transactionIdInUse", "unsupportedVersion", "notAuthorized", "systemUnavail", "systemFailure", "duplicateCertReq"]


def status_info(status, fail=None, text=None):
    return D.seq(D.integer(STATUS.index(status)), *([D.seq(D.utf8(text))] if text else []), *([D.bits_from_set(fail)] if fail else []))


def msg(name, content, pvno=2, alg=None, kid=None, certs=(), prot=None, extra_opt=()):
    h = D.seq(D.integer(pvno), dirname((CN, "ca")), dirname((CN, "client")), D.ctx(0, gtime(time.time())), *([D.ctx(1, alg)] if alg else []), *([D.ctx(2, D.octets(kid))] if kid else []),
              D.ctx(4, D.octets(b"t" * 16)), D.ctx(5, D.octets(b"s" * 16)), D.ctx(6, D.octets(b"r" * 16)))
    b = D.ctx(TAG[name], content)
    tail = []
    if prot is not None:
        tail.append(D.ctx(0, D.bits(prot(D.seq(h, b)))))
    if certs:
        tail.append(D.ctx(1, D.seq(*certs)))
    return D.seq(h, b, *tail)


ENV = D.seq(D.integer(2), D.set_of(D.tlv(0xA3, D.integer(0) + D.seq(D.oid("1.2.3")) + D.octets(b"k"))), D.seq(D.oid("1.2.840.113549.1.7.1"), D.seq(D.oid("2.16.840.1.101.3.4.1.42"), D.octets(b"i" * 16)), D.retag(0, D.octets(b"e" * 16))))
ENCVAL = D.seq(D.bits(b"encrypted"))
ROOTS = [("ed25519", 3), ("ed25519", 4)]
_cache = {}


def pkiset():
    """Trust anchor folder, roots and end-entity certificates below a root, an intermediate CA and a stranger."""
    if not _cache:
        d = os.path.join(harness.SCRATCH, "c26-anchors-%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        roots = [pki.make(rdn((CN, "root%d" % i)), ("ed25519", i), exts=[pki.bc(True), pki.ku("keyCertSign"), pki.ski("ed25519", i)]) for i in (0, 1)]
        import base64
        for i in (0,):
            with open(os.path.join(d, "r%d.pem" % i), "w") as f:
                f.write("-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(roots[i]).decode() + "-----END CERTIFICATE-----\n")
        inter = pki.make(rdn((CN, "inter")), ("ed448", 0), rdn((CN, "root0")), ("ed25519", 0), 7, exts=[pki.bc(True), pki.ku("keyCertSign"), pki.ski("ed448", 0), pki.aki("ed25519", 0)])
        ees = [pki.make(rdn((CN, "ee")), ("ec:secp256r1", 0), rdn((CN, iss)), by, 11, exts=[pki.ku("digitalSignature"), pki.ski("ec:secp256r1", 0), pki.aki(*by)])
               for iss, by in (("root0", ("ed25519", 0)), ("inter", ("ed448", 0)), ("root1", ("ed25519", 1)))]
        _cache.update(dir=d, roots=roots, inter=inter, ees=ees)
    return _cache


# --- certificate responses -----------------------------------------------------------------------------
def response(r, p):
    if r["cert"] is None:
        pair = None
    else:
        c = {"cert": lambda: D.ctx(0, p["ees"][r["ee"]]), "env": lambda: D.ctx(1, D.retag(0, ENV)), "val": lambda: D.ctx(1, ENCVAL)}[r["cert"]]()
        k = {None: lambda: [], "env": lambda: [D.ctx(0, D.retag(0, ENV))], "val": lambda: [D.ctx(0, ENCVAL)]}[r["priv"]]()
        pair = D.seq(c, *k)
    return D.seq(D.integer(r["id"]), status_info(r["status"], r["fail"]), *([pair] if pair else []))


def model(case):
    """None when the body conforms, a text otherwise."""
    f, n = case["flags"], len(case["resps"])
    if case["body"] not in ("ip", "cp", "kup", "ccp"):
        return "body type"
    if n != case["expected"]:
        return "size"
    r = case["resps"][case["index"]]
    if r["id"] != (-1 if f["p10"] else 0):
        return "certReqId"
    if r["status"] in ("accepted", "grantedWithMods"):
        if r["fail"]:
            return "failInfo with %s" % r["status"]
        if r["cert"] != "cert":
            return "no certificate"
        if case["pubs"]:
            if case["body"] == "kup":
                return "caPubs in kup"
            if (case["body"] == "cp" or f["ircr"]) and not f["p10"]:
                return "caPubs in cp"
            if any(x != 0 for x in case["pubs"]):
                return "caPubs not trusted"
            if r["ee"] == 2:
                return "certificate not below caPubs"
            if r["ee"] == 1 and not case["extra"]:
                return "chain incomplete"
        if f["local"] and r["priv"]:
            return "private key sent"
        if not f["local"] and not r["priv"]:
            return "no private key"
        if r["priv"] == "env" and case["pvno"] != 3:
            return "EnvelopedData below version 3"
        return None
    if r["status"] == "rejection":
        if r["cert"]:
            return "certifiedKeyPair in rejection"
        if case["pubs"]:
            return "caPubs in rejection"
        return None
    return "status %s" % r["status"]


def resp_msg(case):
    p = pkiset()
    rs = D.seq(*[response(r, p) for r in case["resps"]])
    pubs = [D.ctx(1, D.seq(*[p["roots"][i] for i in case["pubs"]]))] if case["pubs"] else []
    return msg(case["body"], D.seq(*pubs, rs), pvno=case["pvno"], certs=[p["inter"]] if case["extra"] else [])


def run_response(case, ctx):
    want = model(case)
    der = resp_msg(case)
    m = load(der)
    f = case["flags"]
    ctx.label("body:" + case["body"], "verdict:" + (want or "conforming"), "responses:%d" % len(case["resps"]), "pubs:%s" % bool(case["pubs"]))
    fn = lambda: checkutils.validate_ca_message_body(m, local_key_gen=f["local"], trustanchors=pkiset()["dir"], used_p10cr=f["p10"], verbose=False, allow_os_store=False,  # noqa: E731
                                                     expected_size=case["expected"], response_index=case["index"], used_ir_as_cr=f["ircr"])
    if case["body"] == "ccp" and case["pubs"]:
        return  # the documentation does not say whether a ccp may carry caPubs
    ctx.nontrivial()
    if want is None:
        ctx.accepts("%s body %r" % (case["body"], case), fn, key="resp-accept")
    else:
        ctx.rejects("%s body with %s: %r" % (case["body"], want, case), fn, exc=ERR, key="resp-reject:" + want)
    r = case["resps"][case["index"]]
    ctx.eq(checkutils.check_if_response_contains_private_key(m, case["index"]), bool(r["cert"] and r["priv"]), "check_if_response_contains_private_key for %r" % r, key="has-key")
    ctx.eq(checkutils.check_if_response_contains_encrypted_cert(m, case["index"]), r["cert"] in ("env", "val"), "check_if_response_contains_encrypted_cert for %r" % r, key="has-enc")
    # the validators look at the message, they do not change it
    ctx.eq(cmpx.enc(m), der, "message after validation", key="unchanged")
    info = cmputils.get_pkistatusinfo(m, case["index"])
    ctx.eq((int(info["status"]), set_of(info["failInfo"])), (STATUS.index(r["status"]), set(r["fail"])), "PKIStatusInfo of response %d" % case["index"], key="statusinfo")


def set_of(b):
    return {i for i, v in enumerate(tuple(b)) if v} if b.isValue else set()


@st.composite
def responses(draw):
    p10 = draw(st.integers(0, 3)) == 0
    good = draw(st.integers(0, 2)) > 0
    body = "cp" if p10 else draw(st.sampled_from(["ip", "ip", "cp", "kup", "ccp"]))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    index = draw(st.integers(0, n - 1))
    local = draw(st.booleans())
    def one(i):
        s = draw(st.sampled_from(["accepted", "grantedWithMods", "rejection", "accepted"] if good else STATUS))
        ok = s in ("accepted", "grantedWithMods")
        r = {"id": -1 if p10 else 0, "status": s, "fail": [], "cert": "cert" if ok else None, "priv": None, "ee": draw(st.integers(0, 1))}
        if ok and not local:
            r["priv"] = draw(st.sampled_from(["env", "env", "val"]))
        if s == "rejection" and draw(st.booleans()):
            r["fail"] = sorted(draw(st.sets(st.integers(0, 26), min_size=1, max_size=3)))
        return r
    rs = [one(i) for i in range(n)]
    ircr = body == "ip" and draw(st.integers(0, 4)) == 0
    may = body == "ip" and not ircr or p10
    case = {"body": body, "resps": rs, "index": index, "expected": n, "pvno": 3, "pubs": [], "extra": True, "flags": {"p10": p10, "local": local, "ircr": ircr}}
    t = rs[index]
    if may and t["cert"] and draw(st.booleans()):
        case["pubs"] = [0]
        if t["ee"] == 0:
            case["extra"] = draw(st.booleans())
    elif draw(st.integers(0, 3)) == 0:
        case["extra"] = False
    if local and draw(st.booleans()):
        case["pvno"] = 2
    # the responses besides the judged one may be anything
    for i in range(n):
        if i != index and draw(st.booleans()):
            rs[i] = dict(rs[i], id=draw(st.integers(0, 3)), status=draw(st.sampled_from(STATUS)), fail=draw(st.sampled_from([[], [3], [26]])), cert=draw(st.sampled_from([None, "cert", "env"])), ee=draw(st.integers(0, 2)))
            if rs[i]["cert"] is None:
                rs[i]["priv"] = None
    if not good:
        d = draw(st.sampled_from(["body", "size", "id", "fail", "nocert", "enc", "key", "pvno", "pubs", "untrusted", "both", "stranger", "chain", "rejcert", "rejpubs", "status", "p10"]))
        if d == "body":
            case["body"] = draw(st.sampled_from(["ip", "cp", "kup", "ccp"]))
        elif d == "size":
            case["expected"] = draw(st.integers(0, 4))
        elif d == "id":
            t["id"] = draw(st.sampled_from([-2, -1, 0, 1, 2, 256, 2**32]))
        elif d == "fail":
            t["fail"] = sorted(draw(st.sets(st.integers(0, 26), min_size=1, max_size=3)))
        elif d == "nocert":
            t["cert"], t["priv"] = None, None
        elif d == "enc":
            t["cert"] = draw(st.sampled_from(["env", "val"]))
        elif d == "key" and t["cert"]:
            t["priv"] = draw(st.sampled_from([None, "env", "val"]))
        elif d == "pvno":
            case["pvno"] = draw(st.integers(1, 3))
        elif d == "pubs":
            case["pubs"] = [0]
        elif d == "untrusted":
            case["pubs"] = [1]
        elif d == "both":
            case["pubs"] = draw(st.sampled_from([[0, 1], [1, 0], [0, 0]]))
        elif d == "stranger":
            t["ee"], case["pubs"] = 2, [0]
        elif d == "chain":
            t["ee"], case["pubs"], case["extra"] = 1, [0], False
        elif d == "rejcert":
            t["status"], t["cert"] = "rejection", "cert"
        elif d == "rejpubs":
            t.update(status="rejection", cert=None, priv=None)
            case["pubs"] = [0]
        elif d == "status":
            t["status"] = draw(st.sampled_from(STATUS))
        elif d == "p10":
            case["flags"]["p10"] = not p10
    return case


# --- revocation responses, failure bits ----------------------------------------------------------------
def run_rp(case, ctx):
    infos = case["infos"]
    name = case["body"]
    content = {"rp": lambda: D.seq(D.seq(*[status_info(s, f) for s, f in infos])), "error": lambda: D.seq(status_info(*infos[0])), "pkiconf": lambda: D.null(),
               "ip": lambda: D.seq(D.seq(*[D.seq(D.integer(i), status_info(s, f)) for i, (s, f) in enumerate(infos)]))}[name]()
    m = load(msg(name, content))
    i = case["index"]
    want = name == "rp" and i < len(infos) and (infos[i][0] == "rejection" or infos[i][0] == "accepted" and not infos[i][1])
    ctx.nontrivial()
    ctx.label("body:" + name, "verdict:%s" % want, "status:" + infos[min(i, len(infos) - 1)][0], "infos:%d" % len(infos))
    fn = lambda: checkutils.check_rp_cmp_message_body(m, i if case["int"] else str(i))  # noqa: E731
    if want:
        ctx.accepts("rp entry %r" % (infos[i],), fn, key="rp-accept")
    else:
        ctx.rejects("%s entry %r" % (name, infos[min(i, len(infos) - 1)]), fn, exc=ERR, key="rp-reject")


def rps():
    info = st.tuples(st.sampled_from(["accepted", "rejection"] * 3 + STATUS), st.lists(st.integers(0, 26), max_size=2, unique=True)).map(lambda x: [x[0], sorted(x[1])])
    return st.fixed_dictionaries({"body": st.sampled_from(["rp"] * 6 + ["error", "pkiconf", "ip"]), "infos": st.lists(info, min_size=1, max_size=4), "index": st.integers(0, 3), "int": st.booleans()}).map(
        lambda c: dict(c, index=c["index"] % (len(c["infos"]) + 1) if c["index"] == 3 else c["index"] % len(c["infos"])))


def run_bits(case, ctx):
    bits, ask, excl = set(case["set"]), case["ask"], case["exclusive"]
    val = rfc9480.PKIFailureInfo(tuple(1 if i in bits else 0 for i in range(case["len"]))) if case["len"] > max(bits) else rfc9480.PKIFailureInfo(tuple(1 if i in bits else 0 for i in range(max(bits) + 1)))
    hit = bool(bits & set(ask)) and (len(bits) == 1 or not excl)
    ctx.nontrivial()
    ctx.label("set:%d" % len(bits), "ask:%d" % len(ask), "form:" + case["form"], "answer:%s" % hit)
    sep = case["sep"]
    if case["form"] == "int":
        q = ask[0]
        hit = ask[0] in bits and (len(bits) == 1 or not excl)
    elif case["form"] == "digits":
        q = sep.join(map(str, ask))
    else:
        q = sep.join(FAIL[a] for a in ask)
    ctx.eq(asn1utils.is_bit_set(val, q, exclusive=excl), hit, "is_bit_set(bits %s, %r, exclusive=%s)" % (sorted(bits), q, excl), key="is_bit_set:" + case["form"])
    ctx.eq(asn1utils.get_set_bitstring_names(val), ", ".join(FAIL[i] for i in sorted(bits)), "names of bits %s" % sorted(bits), key="names")
    ctx.rejects("unknown bit name", lambda: asn1utils.is_bit_set(val, "badAlgo"), exc=ERR, key="unknown-name")
    ctx.rejects("unknown bit name among known ones", lambda: asn1utils.is_bit_set(val, FAIL[min(bits)] + ", nosuch"), exc=ERR, key="unknown-name")
    # the same question asked of a whole message
    name, status = case["body"], case["status"]
    info = status_info(status, bits if case["present"] else None)
    content = {"error": lambda: D.seq(info), "rp": lambda: D.seq(D.seq(info)), "ip": lambda: D.seq(D.seq(D.seq(D.integer(0), info))), "kup": lambda: D.seq(D.seq(D.seq(D.integer(0), info))),
               "certConf": lambda: D.seq(D.seq(D.octets(b"h" * 32), D.integer(0), info))}[name]()
    m = load(msg(name, content))
    names = sep.join(FAIL[a] for a in ask)
    expect_body = case["expect_body"]
    st_arg = case["status_arg"]
    fi = names if case["with_fail"] else None
    if st_arg is None and fi is None:
        ctx.rejects("nothing expected", lambda: cmputils.verify_pkistatusinfo(m, body_type=name), exc=ERR, key="verify-none")
        return
    if fi is not None and not case["present"] and not case["must"]:
        return  # an absent failInfo with expected bits: the documentation leaves both readings open
    want_status = st_arg if st_arg is not None else "rejection"
    named = bool(bits & set(ask)) and (len(bits) == 1 or not excl)
    ok = status == want_status and (not case["must"] or case["present"]) and (fi is None or named) and (expect_body is None or expect_body == name)
    fn = lambda: cmputils.verify_pkistatusinfo(m, body_type=expect_body, status=st_arg, failinfos=fi, exclusive=excl, must_be_present=case["must"], allow_failure_info=False)  # noqa: E731
    what = "%s with status %s bits %s, expected status %s bits %s exclusive=%s must=%s body=%s" % (name, status, sorted(bits) if case["present"] else None, st_arg, fi, excl, case["must"], expect_body)
    if ok:
        ctx.accepts(what, fn, key="verify-accept")
    else:
        ctx.rejects(what, fn, exc=ERR, key="verify-reject")


def bit_cases():
    return st.builds(lambda s, extra, sub, **k: dict(k, set=sorted(s), ask=(sorted(s)[:sub] + [e for e in extra if e not in s])[:4] or [sorted(s)[0]]),
                     s=st.one_of(st.sets(st.integers(0, 26), min_size=1, max_size=1), st.sets(st.integers(0, 26), min_size=1, max_size=5)), extra=st.lists(st.integers(0, 26), max_size=2, unique=True), sub=st.integers(0, 2),
                     exclusive=st.booleans(), len=st.integers(1, 32), form=st.sampled_from(["int", "digits", "names"]), sep=st.sampled_from([",", ", ", " ,"]), body=st.sampled_from(["error", "rp", "ip", "kup", "certConf"]),
                     status=st.sampled_from(["rejection"] * 4 + STATUS), present=st.sampled_from([True, True, True, False]), expect_body=st.sampled_from([None, "error", "rp", "ip"]), status_arg=st.sampled_from([None, "rejection", "rejection", "accepted"]),
                     with_fail=st.booleans(), must=st.booleans())


# --- body types ----------------------------------------------------------------------------------------
PAIR = {"ir": "ip", "cr": "cp", "kur": "kup", "p10cr": "cp", "genm": "genp", "ccr": "ccp", "rr": "rp"}


def simple(name):
    from checks.c25 import bodies
    if name == "ccp":
        return bodies("ip")
    if name == "ccr":
        return bodies("ir")
    if name == "certConf":
        return D.seq(D.seq(D.octets(b"h" * 32), D.integer(0)))
    if name == "pollReq":
        return D.seq(D.seq(D.integer(0)))
    return bodies(name)


def tree(t):
    return msg("nested", D.seq(*[tree(x) for x in t])) if isinstance(t, list) else msg(t, simple(t))


def type_ok(resp, req, error):
    """Verdict on body types: True/False."""
    if not isinstance(req, list):
        if req not in PAIR:
            return False
        want = {PAIR[req], "error"} if error is None else {"error"} if error else {PAIR[req]}
        return isinstance(resp, str) and resp in want
    if len(req) == 1:
        return not isinstance(resp, list) and type_ok(resp, req[0], error)
    if resp == "error":
        return error is not False
    return isinstance(resp, list) and len(resp) == len(req) and all(type_ok(a, b, error) for a, b in zip(resp, req))


def run_types(case, ctx):
    req, resp, error = case["req"], case["resp"], case["error"]
    want = type_ok(resp, req, error)
    ctx.nontrivial()
    ctx.label("req:" + (req if isinstance(req, str) else "nested%d" % len(req)), "error:%s" % error, "verdict:%s" % want)
    q, r = load(tree(req)), load(tree(resp))
    fn = lambda: checkutils.validate_cmp_body_types(r, q, error)  # noqa: E731
    what = "response %r to request %r with error=%s" % (resp, req, error)
    if want:
        ctx.accepts(what, fn, key="types-accept")
    else:
        ctx.rejects(what, fn, exc=ERR, key="types-reject")


@st.composite
def types(draw):
    reqs = st.sampled_from(sorted(PAIR))
    req = draw(st.one_of(reqs, st.lists(reqs, min_size=1, max_size=4)))
    error = draw(st.sampled_from([None, True, False]))
    def answer(q):
        if error is True or error is None and draw(st.integers(0, 3)) == 0:
            return "error"
        return PAIR[q]
    if isinstance(req, str):
        resp = answer(req)
    elif len(req) == 1:
        resp = answer(req[0])
    else:
        resp = [answer(q) for q in req] if draw(st.integers(0, 4)) else "error"
    d = draw(st.sampled_from(["none", "none", "other", "swap", "less", "more", "wrap", "unwrap", "reqtype"]))
    anyresp = st.sampled_from(["ip", "cp", "kup", "ccp", "rp", "genp", "error", "pkiconf", "pollRep"])
    if d == "other":
        if isinstance(resp, list):
            resp = list(resp)
            resp[draw(st.integers(0, len(resp) - 1))] = draw(anyresp)
        else:
            resp = draw(anyresp)
    elif d == "swap" and isinstance(resp, list):
        resp = resp[::-1]
    elif d == "less" and isinstance(resp, list):
        resp = resp[:-1] or resp
    elif d == "more" and isinstance(resp, list):
        resp = resp + [draw(anyresp)]
    elif d == "wrap":
        resp = [resp] if isinstance(resp, str) else resp
    elif d == "unwrap" and isinstance(resp, list):
        resp = resp[0]
    elif d == "reqtype" and isinstance(req, str):
        req = draw(st.sampled_from(["certConf", "pollReq", "ip", "error", "pkiconf"]))
    return {"req": req, "resp": resp, "error": error}


# --- confirmations and cross-certification -------------------------------------------------------------
SIGN = [("ed25519", 2), ("ed448", 1), ("ec:secp256r1", 1), ("ec:secp384r1", 1), ("ml-dsa-44", 0), ("ml-dsa-65", 0), ("rsa2048", 0)]
SHA = {"sha256": "2.16.840.1.101.3.4.2.1", "sha384": "2.16.840.1.101.3.4.2.2", "sha512": "2.16.840.1.101.3.4.2.3"}
HM = {"sha1": "1.3.6.1.5.5.8.1.2", "sha256": "1.2.840.113549.2.9", "sha512": "1.2.840.113549.2.11"}


def mac_alg(p):
    mac = D.seq(D.oid(HM[p["mac"]]), *([D.null()] if p["null"] else []))
    if p["kind"] == "pbm":
        return D.seq(D.oid("1.2.840.113533.7.66.13"), D.seq(D.octets(p["salt"]), D.seq(D.oid(SHA[p["h"]]), *([D.null()] if p["null"] else [])), D.integer(p["iter"]), mac))
    kdf = D.seq(D.oid("1.2.840.113549.1.5.12"), D.seq(D.octets(p["salt"]), D.integer(p["iter"]), D.integer(32), D.seq(D.oid({"sha256": HM["sha256"], "sha384": "1.2.840.113549.2.10", "sha512": HM["sha512"]}[p["h"]]), D.null())))
    return D.seq(D.oid("1.2.840.113549.1.5.14"), D.seq(kdf, mac))


def run_mac(case, ctx):
    p = {"kind": case["kind"], "h": case["h"], "mac": case["mac"], "iter": case["iter"], "null": case["null"]}
    qs = [dict(p, salt=bytes([65 + i]) * 16) for i in range(3)]
    dev, who = case["dev"], case["who"]
    t = qs[who]
    want = True
    if dev == "kind":
        t["kind"] = "pbmac1" if t["kind"] == "pbm" else "pbm"
        want = False
    elif dev == "iter":
        t["iter"] += case["delta"]
        want = False
    elif dev == "mac":
        t["mac"] = {"sha1": "sha256", "sha256": "sha512", "sha512": "sha256"}[t["mac"]]
        want = False
    elif dev == "h":
        t["h"] = {"sha256": "sha512", "sha384": "sha256", "sha512": "sha384"}[t["h"]]
        want = False
    names = [case["req"], PAIR[case["req"]], "pkiconf"]
    if dev == "sig":
        want = False
    algs = [mac_alg(q) for q in qs]
    if dev == "sig":
        algs[who] = D.seq(D.oid("1.3.101.112"))
    if dev == "body":
        names[2] = case["other"]
        want = False
    if dev == "cabody":
        names[1] = "genp"
        want = False
    ms = [load(msg(n, simple(n), alg=a, kid=b"ca", prot=lambda d: b"\0" * 32)) for n, a in zip(names, algs)]
    ctx.nontrivial()
    ctx.label("mac:" + dev, "who:%d" % who, "kind:" + case["kind"], "verdict:%s" % want)
    fn = lambda: checkutils.validate_pki_confirmation_message(ms[2], ms[1], ms[0])  # noqa: E731
    what = "pkiconf after MAC-protected %s, message %d with deviation %s (%s)" % (names[0], who, dev, case["kind"])
    if want:
        ctx.accepts(what, fn, key="mac-accept")
    else:
        ctx.rejects(what, fn, exc=ERR, key="mac-reject:%s:%d" % (dev, who))


def macs():
    return st.fixed_dictionaries({"kind": st.sampled_from(["pbm", "pbmac1"]), "h": st.sampled_from(sorted(SHA)), "mac": st.sampled_from(sorted(HM)), "iter": st.integers(100, 5000), "null": st.booleans(), "req": st.sampled_from(["ir", "cr", "kur", "rr", "p10cr"]),
                                  "dev": st.sampled_from(["none", "none", "kind", "iter", "mac", "h", "sig", "body", "cabody"]), "who": st.integers(0, 2), "delta": st.sampled_from([1, -1, 1000]), "other": st.sampled_from(["error", "ip", "genp"])})


def sig_msg(name, content, key, chain, h="sha256", spoil=None, alg=None, certs=True, param=False):
    def prot(d):
        s = pki.sign(key[0], key[1], d, h)
        if spoil is not None:
            s = bytearray(s)
            s[spoil % len(s)] ^= 1
            s = bytes(s)
        return s
    a = alg or pki.alg(key[0], h)
    return msg(name, content, alg=a, kid=pki.kid(*key), certs=chain if certs else (), prot=prot)


def run_sig(case, ctx):
    key = SIGN[case["key"]]
    h = case["h"]
    def chain(k, cn, serial):
        root = pkiset()["roots"][0]
        return [pki.make(rdn((CN, cn)), k, rdn((CN, "root0")), ("ed25519", 0), serial, exts=[pki.ku("digitalSignature"), pki.ski(*k), pki.aki("ed25519", 0)]), root]
    ch = chain(key, "signer", 21)
    other = SIGN[(case["key"] + 1 + case["k"] % (len(SIGN) - 1)) % len(SIGN)]
    same_kind = (key[0], 1 if key[0].startswith("rsa") else 4)
    dev, who = case["dev"], case["who"]
    args = [dict(key=key, chain=ch, h=h, certs=True), dict(key=key, chain=ch, h=h, certs=case["certs"])]
    names = [case["resp"], "pkiconf"]
    caching = case["caching"]
    want = True
    if not case["certs"] and not caching:
        want = False
    t = args[who]
    if dev == "spoil":
        t["spoil"] = case["k"]
        want = False
    elif dev == "other-key":
        args[1].update(key=same_kind, chain=chain(same_kind, "signer", 22))
        want = False
    elif dev == "other-alg":
        args[1].update(key=other, chain=chain(other, "signer", 22))
        want = False
    elif dev == "other-certs":
        args[1].update(chain=chain(same_kind, "signer", 23) if case["k"] % 2 else [ch[0], pkiset()["roots"][1]], certs=True)
        want = False
    elif dev == "no-certs":
        args[0]["certs"] = False
        want = False
    elif dev == "body":
        names[1] = case["other"]
        want = False
    elif dev == "cabody":
        names[0] = "genp"
        want = False
    elif dev == "swapped":
        # the confirmation's protection was computed for another message
        args[1]["spoil"] = 0
        want = False
    ms = [load(sig_msg(n, simple(n), a["key"], a["chain"], a["h"], a.get("spoil"), certs=a["certs"])) for n, a in zip(names, args)]
    ctx.nontrivial()
    ctx.label("sig:" + dev, "key:" + key[0], "verdict:%s" % want)
    fn = lambda: checkutils.validate_pki_confirmation_message(ms[1], ms[0], allow_caching_certs=caching)  # noqa: E731
    what = "pkiconf after %s signed with %s/%s, deviation %s in message %d (certs %s, caching %s)" % (names[0], key[0], h, dev, who, case["certs"], caching)
    if want:
        ctx.accepts(what, fn, key="sig-accept")
    else:
        ctx.rejects(what, fn, exc=ERR, key="sig-reject:" + dev)


def sigs():
    return st.fixed_dictionaries({"key": st.integers(0, len(SIGN) - 1), "h": st.sampled_from(["sha256", "sha384", "sha512"]), "resp": st.sampled_from(["ip", "cp", "kup", "rp"]), "certs": st.booleans(), "caching": st.sampled_from([True, True, False]), "who": st.integers(0, 1), "k": st.integers(0, 63),
                                  "dev": st.sampled_from(["none", "none", "none", "spoil", "other-key", "other-alg", "other-certs", "no-certs", "body", "cabody", "swapped"]), "other": st.sampled_from(["error", "ip", "genp"])})


def run_ccp(case, ctx):
    p = pkiset()
    c = case["resp"]
    key = SIGN[case["key"]]
    content = D.seq(D.seq(*[response(c, p)] * case["n"]))
    if case["prot"] == "sig":
        der = sig_msg("ccp", content, key, [pki.make(rdn((CN, "signer")), key, rdn((CN, "root0")), ("ed25519", 0), 31), p["roots"][0]], certs=case["certs"])
    elif case["prot"] == "none":
        der = msg("ccp", content, certs=[p["roots"][0]])
    else:
        der = msg("ccp", content, alg=PBM if case["prot"] == "mac" else D.seq(D.oid("1.2.840.113533.7.66.16"), D.seq(D.integer(0))), kid=b"ca", prot=lambda d: b"\0" * 32, certs=[p["roots"][0]] if case["certs"] else [])
    flags = {"p10": False, "local": True, "ircr": False}
    body = model({"body": "ccp", "resps": [c] * case["n"], "index": 0, "expected": 1, "pvno": 2, "pubs": [], "extra": False, "flags": flags})
    want = case["n"] == 1 and case["prot"] == "sig" and case["certs"] and body is None
    m = load(der)
    ctx.nontrivial()
    ctx.label("ccp:%s" % want, "prot:" + case["prot"], "body:%s" % body)
    fn = lambda: checkutils.validate_cross_certification_response(m, trustanchors=p["dir"], allow_os_store=False)  # noqa: E731
    what = "ccp with %d responses, protection %s, extraCerts %s, body %s" % (case["n"], case["prot"], case["certs"], body or "conforming")
    if want:
        ctx.accepts(what, fn, key="ccp-accept")
    else:
        ctx.rejects(what, fn, exc=ERR, key="ccp-reject")


def ccps():
    resp = st.fixed_dictionaries({"id": st.sampled_from([0, 0, 0, 1]), "status": st.sampled_from(["accepted", "grantedWithMods", "rejection", "accepted", "waiting"]), "fail": st.sampled_from([[], [], [], [2]]), "cert": st.sampled_from(["cert", "cert", "cert", None, "env"]), "priv": st.sampled_from([None, None, None, "val"]), "ee": st.integers(0, 1)}).map(
        lambda r: dict(r, priv=None) if r["cert"] is None else r).map(lambda r: dict(r, cert=None, priv=None) if r["status"] == "rejection" and r["id"] == 0 else r)
    return st.fixed_dictionaries({"resp": resp, "n": st.sampled_from([1, 1, 1, 1, 2, 3]), "prot": st.sampled_from(["sig", "sig", "sig", "sig", "mac", "kem", "none"]), "certs": st.sampled_from([True, True, True, False]), "key": st.integers(0, len(SIGN) - 1)})


SUBS = [
    Sub("response", responses(), run_response, quick=600, thorough=30000, shards=3, text="validate_ca_message_body and the private-key / encrypted-certificate questions on generated ip, cp, kup and ccp bodies"),
    Sub("rp", rps(), run_rp, quick=300, thorough=10000, text="check_rp_cmp_message_body on generated revocation responses"),
    Sub("bits", bit_cases(), run_bits, quick=600, thorough=30000, text="is_bit_set, get_set_bitstring_names and verify_pkistatusinfo against set operations"),
    Sub("types", types(), run_types, quick=400, thorough=20000, text="validate_cmp_body_types on single and nested exchanges"),
    Sub("mac", macs(), run_mac, quick=300, thorough=10000, text="validate_pki_confirmation_message with MAC protection"),
    Sub("sig", sigs(), run_sig, quick=160, thorough=5000, shards=2, text="validate_pki_confirmation_message with signatures"),
    Sub("ccp", ccps(), run_ccp, quick=200, thorough=8000, text="validate_cross_certification_response"),
]
