"""C25: header validation accepts conforming messages and flags every deviation."""
import datetime
import time

from hypothesis import strategies as st

from lib import cmpx, der as D, mca, pki
from lib.harness import Sub
from pyasn1.error import PyAsn1Error
from resources import checkutils, cmputils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C25"
TECHNIQUE = "generated request/response headers, each with at most one deviation from the CMP header rules, against a model of the documented rules; signed messages with moved, exchanged or altered parts"
RULE = "non-trivial: a complete request/response pair or message was judged by the validator; half of the cases carry one deviation"
ASSUMPTIONS = ["headers and messages are written by lib/der.py from RFC 9810", "the clock of the process is frozen by the harness"]

ERR = (CMPTestSuiteError, ValueError, PyAsn1Error, IndexError)
RESP = {"ip": 1, "cp": 3, "kup": 8, "pkiconf": 19, "genp": 22, "error": 23, "rp": 12, "pollRep": 26}
REQ = {"ir": 0, "cr": 2, "kur": 7, "genm": 21, "rr": 11, "p10cr": 4}


def bodies(name, n=1):
    if name in ("ir", "cr", "kur"):
        return D.seq(*[D.seq(D.seq(D.integer(i), D.seq())) for i in range(n)])
    if name in ("ip", "cp", "kup"):
        return D.seq(D.seq(*[D.seq(D.integer(i), D.seq(D.integer(2))) for i in range(n)]))
    if name == "pkiconf":
        return D.null()
    if name in ("genm", "genp"):
        return D.seq(*[D.seq(D.oid("1.3.6.1.5.5.7.4.2")) for _ in range(n)])
    if name == "error":
        return D.seq(D.seq(D.integer(2)))
    if name == "rp":
        return D.seq(D.seq(*[D.seq(D.integer(0)) for _ in range(n)]))
    if name == "rr":
        return D.seq(*[D.seq(D.seq(D.retag(1, D.integer(5)))) for _ in range(n)])
    if name == "pollRep":
        return D.seq(*[D.seq(D.integer(i), D.integer(10)) for i in range(n)])
    if name == "p10cr":
        return D.seq(D.seq(D.integer(0), D.seq(), pki.spki("ed25519", 0), D.tlv(0xA0, b"")), D.seq(D.oid("1.3.101.112")), D.tlv(3, b"\0" * 65))
    raise KeyError(name)


def gtime(t):
    return D.tlv(0x18, datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y%m%d%H%M%SZ").encode())


def dirname(*parts):
    return D.ctx(4, rdn(*parts))


def rdn(*parts):
    return D.seq(*[D.set_of(D.seq(D.oid(o), D.utf8(v))) for o, v in parts])


CN, ORG = "2.5.4.3", "2.5.4.10"
SUBJ = [(ORG, "org"), (CN, "signer")]
PBM = D.seq(D.oid("1.2.840.113533.7.66.13"), D.seq(D.octets(b"saltsaltsaltsalt"), D.seq(D.oid("2.16.840.1.101.3.4.2.1"), D.null()), D.integer(1000), D.seq(D.oid("1.2.840.113549.2.9"))))
EDALG = D.seq(D.oid("1.3.101.112"))


def cert(with_ski=True, key=("ed25519", 0), subject=SUBJ, serial=5, issuer=None, by=None):
    return pki.make(rdn(*subject), key, issuer=issuer, by=by, serial=serial, exts=[pki.ski(*key)] if with_ski else [])


def head(h):
    opt = []
    for i, v in enumerate(h["opt"]):
        if v is not None:
            opt.append(D.ctx(i, v))
    return D.seq(D.integer(h["pvno"]), h["sender"], h["recipient"], *opt)


def message(h, name, n=1, prot=True, certs=(), tag=None):
    return D.seq(head(h), D.ctx({**RESP, **REQ}[name], bodies(name, n)), *([D.ctx(0, D.tlv(3, b"\0" + b"p" * 32))] if prot else []), *([D.ctx(1, D.seq(*certs))] if certs else []))


def load(der):
    return cmputils.parse_pkimessage(der)


def itav(oid, *v):
    return D.seq(D.oid(oid), *v)


IMPL, WAIT, PROF = "1.3.6.1.5.5.7.4.13", "1.3.6.1.5.5.7.4.14", "1.3.6.1.5.5.7.4.21"
# deviation -> always an error (True), or only in the strict mode ("strict"), or none (False)
DEV = {"none": False, "pvno0": True, "pvno1": True, "pvno4": True, "pvno-": True, "pvno3": False, "no-prot": "prot", "no-alg": True, "no-value": True, "sender-other": "strict", "sender-uri": "strict", "sender-nocn": "mac-strict",
       "kid-none": True, "kid-other": "kid", "kid-cut": "kid", "kid-long": "kid", "kid-bytes": "mac", "impl-int": True, "impl-octets": True, "impl-here": "impl", "wait-past": True, "wait-int": True, "wait-trail": True, "wait-impl": True,
       "wait-notime": True, "wait": False, "prof": True, "time-late": "interval", "time-early": "interval", "time-in": False, "time-none": "interval", "tx-none": True, "tx-other": True, "tx-cut": True, "tx-long": True,
       "tx-short-both": True, "recip-none": True, "recip-other": True, "recip-cut": True, "recip-own": True, "nonce-none": True, "nonce-short": True, "nonce-empty": True, "nonce-long": False, "recipient-other": False,
       "short-both": True, "bit-tx": True, "bit-recip": True}


def build(case):
    """Request and response headers as plain values with one deviation in the response."""
    dev, kind = case["dev"], case["kind"]
    NOW = int(time.time())
    req_time = NOW - case["age"]
    tx, rn, sn = case["tx"], case["rn"], case["sn"]
    certs = []
    if kind == "sig":
        certs, alg, kid, sender = [cert(case["ski"])], EDALG, pki.kid("ed25519", 0), dirname(*SUBJ)
    else:
        alg, kid, sender = PBM, b"signer", dirname(*SUBJ)
        if case["extra"]:
            certs = [cert(True, ("ed25519", 1), [(CN, "any")])]
    opt = [gtime(req_time + case["delay"]), alg, D.octets(kid), None, D.octets(tx), D.octets(sn), D.octets(rn), None, None]
    info = []
    if case["impl"] and dev != "wait" and not dev.startswith("wait"):
        info.append(itav(IMPL, D.null()))
    r = {"pvno": 2 + case["v"], "sender": sender, "recipient": dirname((CN, "client")), "opt": opt}
    reqopt = [gtime(req_time) if case["reqtime"] else None, None, None, None, D.octets(tx), D.octets(rn), None, None, None]
    q = {"pvno": 2, "sender": dirname((CN, "client")), "recipient": sender, "opt": reqopt}
    prot = True
    k = case["k"]
    if dev.startswith("pvno"):
        r["pvno"] = -1 if dev == "pvno-" else int(dev[-1])
    elif dev == "no-prot":
        prot, opt[1] = False, None
        opt[2] = None
    elif dev == "no-alg":
        opt[1] = None
    elif dev == "no-value":
        prot = False
    elif dev == "sender-other":
        other = [[(ORG, "org"), (CN, "signet")], [(CN, "signer"), (ORG, "org")], [(ORG, "org"), (CN, "signer"), (CN, "x")], [(CN, "signer2")]][k % 4]
        r["sender"] = dirname(*other)
    elif dev == "sender-uri":
        r["sender"] = D.retag(6, D.ia5("http://x/" + str(k)))
    elif dev == "sender-nocn":
        r["sender"] = dirname((ORG, "org"))
    elif dev == "kid-none":
        opt[2] = None
    elif dev == "kid-other":
        opt[2] = D.octets(bytes([kid[0] ^ 1]) + kid[1:]) if k % 2 else D.octets(kid[:-1] + bytes([kid[-1] ^ 1]))
    elif dev == "kid-cut":
        opt[2] = D.octets(kid[:-1])
    elif dev == "kid-long":
        opt[2] = D.octets(kid + b"r")
    elif dev == "kid-bytes":
        opt[2] = D.octets(b"\xff\xfe" + kid)
    elif dev == "impl-int":
        info = [itav(IMPL, D.integer(k % 5))]
    elif dev == "impl-octets":
        info = [itav(IMPL, D.octets(b"\x05\x00"))]
    elif dev == "impl-here":
        info = [itav(IMPL, D.null())]
    elif dev == "wait":
        info = [itav(WAIT, gtime(NOW + 60 + k % 5000))]
    elif dev == "wait-past":
        info = [itav(WAIT, gtime(NOW - 1 - k % 5000))]
    elif dev == "wait-int":
        info = [itav(WAIT, D.integer(600))]
    elif dev == "wait-trail":
        info = [itav(WAIT, gtime(NOW + 600)), itav("1.2.3", D.null())][:1]
        info = [itav(WAIT, D.tlv(0x18, b"20990101"))]
    elif dev == "wait-impl":
        info = [itav(WAIT, gtime(NOW + 600)), itav(IMPL, D.null())]
        if k % 2:
            info.reverse()
    elif dev == "wait-notime":
        info, opt[0] = [itav(WAIT, gtime(NOW + 600))], None
    elif dev == "prof":
        info.append(itav(PROF, D.seq(D.utf8("base"))))
    elif dev in ("time-late", "time-early"):
        step = case["interval"] + 1 + k % 100000
        base = req_time if case["reqtime"] else NOW
        opt[0] = gtime(base + step) if dev == "time-late" else gtime(base - step)
        if dev == "time-late" and not case["reqtime"]:
            opt[0] = gtime(NOW + 30 + k % 5000)
    elif dev == "time-in":
        opt[0] = gtime(req_time + k % (case["interval"] + 1) if case["reqtime"] else NOW - k % (case["interval"] - 40))
    elif dev == "time-none":
        opt[0] = None
    elif dev == "tx-none":
        opt[4] = None
    elif dev == "tx-other":
        opt[4] = D.octets(tx[::-1] if tx[::-1] != tx else bytes(16))
        if tx == bytes(16):
            opt[4] = D.octets(b"\1" * 16)
    elif dev == "bit-tx":
        opt[4] = D.octets(flip(tx, k))
    elif dev == "tx-cut":
        opt[4] = D.octets(tx[:k % 16])
    elif dev == "tx-long":
        opt[4] = D.octets(tx + bytes(1 + k % 3))
    elif dev == "tx-short-both":
        n = [0, 1, 8, 15, 17, 32][k % 6]
        opt[4] = reqopt[4] = D.octets((tx + tx)[:n])
    elif dev == "recip-none":
        opt[6] = None
    elif dev == "recip-other":
        opt[6] = D.octets(rn[1:] + bytes([rn[0] ^ 0x55]))
        if rn[1:] + bytes([rn[0] ^ 0x55]) == rn:
            opt[6] = D.octets(flip(rn, 0))
    elif dev == "bit-recip":
        opt[6] = D.octets(flip(rn, k))
    elif dev == "recip-cut":
        opt[6] = D.octets(rn[:k % 16])
    elif dev == "recip-own":
        opt[6] = D.octets(sn)
    elif dev == "short-both":
        opt[6] = reqopt[5] = D.octets(rn[:k % 16])
    elif dev == "nonce-none":
        opt[5] = None
    elif dev == "nonce-short":
        opt[5] = D.octets(sn[:k % 15 + 1])
    elif dev == "nonce-empty":
        opt[5] = D.octets(b"")
    elif dev == "nonce-long":
        opt[5] = D.octets(sn + bytes(16))
    elif dev == "recipient-other":
        r["recipient"] = dirname((CN, "someone"))
    if info:
        opt[8] = D.seq(*info)
    return q, r, prot, certs


def flip(b, k):
    b = bytearray(b)
    b[k // 8 % len(b)] ^= 1 << k % 8
    return bytes(b)


def expected(case):
    d, kind, strict = case["dev"], case["kind"], not case["allow"]
    w = DEV[d]
    if w == "strict":
        return strict and (kind == "sig" or d == "sender-uri" or d == "sender-other" and case["k"] % 4 in (0, 3, 2) and False)
    if w == "mac-strict":
        return strict
    if w == "kid":
        return case["ski"] if kind == "sig" else strict
    if w == "mac":
        return kind == "mac" or case["ski"]
    if w == "impl":
        return case["body"] not in ("ip", "cp", "kup")
    if w == "interval":
        return case["use"]
    if w == "prot":
        return case["must"]
    return w


def run_pair(case, ctx):
    case = dict(case)
    if case["body"] not in ("ip", "cp", "kup") and case["dev"] != "impl-here":
        case["impl"] = False
    dev = case["dev"]
    if dev == "recip-own" and case["sn"] == case["rn"]:
        dev = case["dev"] = "none"
    # time window of the request itself: inside the interval
    if not case["reqtime"]:
        # measured from the running clock: leave room for the time the case takes
        case["age"], case["delay"], case["interval"] = 2, 0, case["interval"] + 60
    q, r, prot, certs = build(case)
    req, resp = load(message(q, case["req"], 1, False)), load(message(r, case["body"], 1, prot, certs))
    want = expected(case)
    if case["kind"] == "mac" and dev == "sender-other":
        # the common name decides: the key identifier no longer agrees with it
        want = not case["allow"] and case["k"] % 4 in (0, 3)
        if case["k"] % 4 == 2:
            return
    kw = {"protection": case["must"], "time_interval": str(case["interval"]) if case["astext"] else case["interval"], "allow_failure_sender": case["allow"]}
    if not case["use"]:
        kw["time_interval"] = None
    what = f"{case['kind']}-protected {case['body']}, deviation {dev}/{case['k']}, allow_failure_sender={case['allow']}, protection={case['must']}, interval={kw['time_interval']}"
    if want:
        ctx.rejects(what, checkutils.validate_pkimessage_header, resp, req, exc=ERR, key="pair-" + dev, **kw)
    else:
        ctx.accepts(what, checkutils.validate_pkimessage_header, resp, req, **kw)
    ctx.label("dev:" + dev, f"{case['kind']}:{'refuse' if want else 'accept'}")
    ctx.nontrivial(f"{dev}:{case['kind']}")


QDEV = {"none": False, "tx-none": True, "tx-len": True, "nonce-none": True, "nonce-len": True, "recip": True}


def run_request(case, ctx):
    """Rules for requests: identifiers, nonces and certProfile."""
    name, n, dev, k = case["body"], case["n"], case["dev"], case["k"]
    if name == "p10cr":
        n = 1
    opt = [gtime(int(time.time())), None, None, None, D.octets(case["tx"]), D.octets(case["sn"]), None, None, None]
    bad = [0, 1, 8, 15, 17, 32][k % 6]
    if dev == "tx-none":
        opt[4] = None
    elif dev == "tx-len":
        opt[4] = D.octets((case["tx"] * 2)[:bad])
    elif dev == "nonce-none":
        opt[5] = None
    elif dev == "nonce-len":
        opt[5] = D.octets((case["sn"] * 2)[:bad])
    elif dev == "recip":
        opt[6] = D.octets(case["rn"][:k % 17])
    h = {"pvno": 2, "sender": dirname((CN, "c")), "recipient": dirname((CN, "ca")), "opt": opt}
    msg = load(message(h, name, n, False))
    what = f"{name} request, {dev}, length {bad}"
    if QDEV[dev]:
        ctx.rejects(what, checkutils.validate_request_message_nonces_and_tx_id, msg, exc=(CMPTestSuiteError,), key="request-" + dev)
    else:
        ctx.accepts(what, checkutils.validate_request_message_nonces_and_tx_id, msg)
    # certProfile
    prof = case["prof"]
    allowed = name in ("ir", "cr", "kur", "p10cr", "genm")
    known = ["base", "extra"]
    opt[8] = D.seq(itav(PROF, D.seq(*[D.utf8(p) for p in prof]))) if prof is not None else None
    msg = load(message(h, name, n, False))
    bad_prof = prof is not None and (not allowed or not prof or len(prof) > n)
    unknown = prof is not None and any(p not in known + [""] for p in prof)
    for names in (None, known):
        err = bad_prof or names is not None and unknown
        what = f"{name} with {n} entries, profiles {prof}, known {names}"
        f = checkutils.validate_cert_profile_for_ca
        if err:
            ctx.rejects(what, f, msg, list(names) if names else None, exc=ERR, key="profile")
        else:
            ctx.accepts(what, f, msg, list(names) if names else None)
    f = checkutils.check_certprofile_in_generalinfo
    if prof is not None and not allowed:
        ctx.rejects(f"{name} with a profile", f, msg, exc=ERR, key="profile-body")
    else:
        ctx.accepts(f"{name} with a profile", f, msg)
    ctx.label("dev:" + dev, f"profiles:{'none' if prof is None else 'bad' if bad_prof else 'good'}")
    ctx.nontrivial(f"req:{name}:{dev}")


SIGN = [("ed25519", None), ("ed448", None), ("ec:secp256r1", "sha256"), ("ec:secp384r1", "sha384"), ("rsa2048", "sha256"), ("rsa2048", "sha512")]
SDEV = ["none", "none", "sig", "body", "header", "sender", "kid", "second", "other-cert", "no-certs", "mac", "alg"]


def run_signed(case, ctx):
    """check_pkimessage_signature_protection: signature, position of the certificate, sender and key identifier."""
    key, h = SIGN[case["s"] % len(SIGN)]
    dev, k = case["dev"], case["k"]
    own = cert(True, (key, 0), SUBJ, 7)
    other = cert(True, (key, 1), SUBJ if case["same"] else [(CN, "other")], 8)
    alg = pki.alg(key, h or "sha256")
    opt = [gtime(int(time.time())), alg, D.octets(pki.kid(key, 0)), None, D.octets(case["tx"]), D.octets(case["sn"]), D.octets(case["rn"]), None, None]
    r = {"pvno": 2, "sender": dirname(*SUBJ), "recipient": dirname((CN, "client")), "opt": opt}
    if dev == "sender":
        r["sender"] = dirname(*[[(CN, "signer"), (ORG, "org")], [(CN, "sign")]][k % 2])
    if dev == "kid":
        opt[2] = D.octets(pki.kid(key, 1))
    if dev == "mac":
        opt[1] = PBM
    if dev == "alg":
        opt[1] = pki.alg(*SIGN[(case["s"] + 2) % len(SIGN)][:1], SIGN[(case["s"] + 2) % len(SIGN)][1] or "sha256")
    header, body = head(r), D.ctx(RESP[case["body"]], bodies(case["body"]))
    sig = pki.sign(key, 0, D.seq(header, body), h or "sha256")
    if dev == "sig":
        sig = flip(sig, k)
    if dev == "body":
        body = D.ctx(RESP[case["body"]], bodies(case["body"], 2)) if case["body"] not in ("pkiconf", "error") else D.ctx(22, bodies("genp"))
    if dev == "header":
        opt[5] = D.octets(flip(case["sn"], k))
        header = head(r)
    certs = [own] + ([other] if case["more"] else [])
    if dev == "second":
        certs = [other, own]
    if dev == "other-cert":
        certs = [other]
    msg = load(D.seq(header, body, D.ctx(0, D.tlv(3, b"\0" + sig)), *([D.ctx(1, D.seq(*certs))] if dev != "no-certs" else [])))
    kw = {"allow_sender_failure": case["allow"], "check_sender_kid": case["ck"]}
    want = dev != "none" and not (dev == "sender" and case["allow"] or dev == "kid" and not case["ck"])
    what = f"{case['body']} signed with {key}, {dev}/{k}, {kw}"
    from cryptography.exceptions import InvalidSignature
    if want:
        ctx.rejects(what, checkutils.check_pkimessage_signature_protection, msg, exc=ERR + (InvalidSignature,), key="signed-" + dev, **kw)
    else:
        ctx.accepts(what, checkutils.check_pkimessage_signature_protection, msg, **kw)
    ctx.label("dev:" + dev, "key:" + key)
    ctx.nontrivial(f"signed:{dev}:{key}")


B16 = st.one_of(st.binary(min_size=16, max_size=16), st.sampled_from([bytes(16), b"\xff" * 16, bytes(range(16))]))
N = st.integers(0, 10 ** 6)
SUBS = [
    Sub("pair", st.fixed_dictionaries({"dev": st.one_of(st.just("none"), st.sampled_from(sorted(DEV)), st.sampled_from(sorted(DEV))), "kind": st.sampled_from(["sig", "mac"]), "body": st.sampled_from(["ip", "ip", "cp", "kup", "pkiconf", "genp", "error", "rp", "pollRep"]),
                                       "req": st.sampled_from(["ir", "cr", "kur", "genm", "rr"]), "ski": st.sampled_from([True, True, False]), "extra": st.booleans(), "impl": st.booleans(), "v": st.integers(0, 1), "k": N,
                                       "tx": B16, "rn": B16, "sn": B16, "interval": st.sampled_from([0, 1, 30, 200, 500]), "age": st.integers(0, 4000), "delay": st.just(0), "reqtime": st.sampled_from([True, True, False]),
                                       "must": st.booleans(), "allow": st.booleans(), "use": st.sampled_from([True, True, False]), "astext": st.booleans()}), run_pair, quick=2500, thorough=60000, shards=3, text="responses with respect to their requests"),
    Sub("request", st.fixed_dictionaries({"body": st.sampled_from(sorted(REQ)), "n": st.integers(1, 3), "dev": st.sampled_from(sorted(QDEV)), "k": N, "tx": B16, "sn": B16, "rn": B16,
                                          "prof": st.one_of(st.none(), st.lists(st.sampled_from(["base", "base", "extra", "", "unknown", "Base"]), max_size=4))}), run_request, quick=1200, thorough=20000, text="rules for requests"),
    Sub("signed", st.fixed_dictionaries({"s": N, "dev": st.sampled_from(SDEV), "k": N, "tx": B16, "sn": B16, "rn": B16, "same": st.booleans(), "more": st.booleans(), "allow": st.booleans(), "ck": st.booleans(),
                                         "body": st.sampled_from(sorted(RESP))}), run_signed, quick=500, thorough=8000, shards=2, text="signature-protected messages"),
]
