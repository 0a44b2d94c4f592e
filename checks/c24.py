"""C24: nested, batched and added protection."""
import base64
import os

from hypothesis import strategies as st

from lib import cmpx, der as D, gram, mca as M, mreq, pki
from lib.harness import Skip, Sub
from lib.mca import Prot
from checks.c25 import ERR, bodies
from pyasn1_alt_modules import rfc9480
from resources import checkutils, cmputils

PROPERTY = "C24"
TECHNIQUE = "wrap/unwrap round trip over generated messages of every body type; identifier and nonce rules against a model of RFC 9483 section 5.2.2 on generated header values; batches and added protection sent to the Mock CA, answers compared one by one with the inner requests"
RULE = "non-trivial: at least one inner message was wrapped and compared, judged or answered"
ASSUMPTIONS = ["RA certificates are placed in a folder of the check's own and given to the Mock CA as its trusted RAs"]


# --- wrap and unwrap -----------------------------------------------------------------------------------
def run_wrap(case, ctx):
    ders = [m["der"] for m in case["msgs"]]
    try:
        msgs = [cmputils.parse_pkimessage(d) for d in ders]
        if any(cmpx.enc(m) != d for m, d in zip(msgs, ders)):
            raise Skip("message does not re-encode")
    except ERR:
        raise Skip("not decodable")
    ctx.nontrivial()
    ctx.label(*{"inner:" + m["body"] for m in case["msgs"]}, "n:%d" % len(ders))
    tx, nonce, recip = case["tx"], case["nonce"], case["recip"]
    kw = dict(sender="tests@example.com", recipient="testr@example.com", other_messages=msgs if len(msgs) > 1 or case["list"] else msgs[0], transaction_id=tx, sender_nonce=nonce, recip_nonce=recip, pvno=case["pvno"], exclude_fields=case["exclude"])
    first = cmpx.Wire(ders[0]).fields()
    val = lambda n: (D.octets_value(first[n]) or None) if first.get(n) is not None else None  # noqa: E731
    added = case["added"] and len(msgs) == 1
    if added:
        kw["for_added_protection"] = True
    m = cmputils.build_nested_pkimessage(**kw)
    # the builder keeps the inner messages and the caller's values
    der = cmpx.enc(m)
    w = cmpx.Wire(der)
    ctx.eq(w.body[0], 0xB4, "tag of the nested body")
    inner = D.split(D.split(w.body)[0])
    ctx.eq(inner, ders, "inner messages of the built message", key="build-inner")
    f = w.fields()
    got = {n: (D.octets_value(f[n]) if f.get(n) is not None else None) for n in ("transactionID", "senderNonce", "recipNonce")}
    if added:
        is_conf = case["msgs"][0]["body"] == "certConf"
        want = {"transactionID": tx if tx is not None else val("transactionID"), "senderNonce": nonce if nonce is not None else val("senderNonce"), "recipNonce": recip if recip is not None else (val("recipNonce") if is_conf else None)}
    else:
        want = {"transactionID": tx, "senderNonce": nonce, "recipNonce": recip}
    for n, v in want.items():
        excl = n in (case["exclude"] or "").split(",")
        if excl:
            ctx.check(got[n] is None, "%s was excluded but is %r" % (n, got[n]), key="build-header")
        elif v is not None:
            ctx.eq(got[n], v, "%s of the nested message (added protection: %s)" % (n, added), key="build-header")
        elif n == "recipNonce":
            ctx.check(got[n] is None, "recipNonce appeared: %r" % got[n], key="build-header")
        else:
            ctx.check(got[n] is not None and len(got[n]) == 16, "%s was not generated: %r" % (n, got[n]), key="build-header")
    # unwrap after transport
    back = cmputils.parse_pkimessage(der)
    ctx.eq(len(back["body"]["nested"]), len(ders), "number of unwrapped messages")
    for i, d in enumerate(ders):
        x = cmputils.get_inner_pkimessage(back, i)
        ctx.eq(cmpx.enc(x), d, "unwrapped message %d (%s)" % (i, case["msgs"][i]["body"]), key="unwrap")
        ctx.eq(cmputils.get_cmp_message_type(x), case["msgs"][i]["body"], "body type of unwrapped message %d" % i, key="unwrap-type")
    ctx.rejects("index behind the last", lambda: cmputils.get_inner_pkimessage(back, len(ders)), exc=ERR, key="index")
    ctx.rejects("index -1", lambda: cmputils.get_inner_pkimessage(back, -1), exc=ERR, key="index")
    ctx.eq(cmpx.enc(back), der, "nested message after unwrapping", key="unwrap-whole")
    # twice wrapped
    if case["twice"]:
        outer = cmputils.build_nested_pkimessage(sender="a@b", recipient="c@d", exclude_fields=None, other_messages=[back], transaction_id=b"o" * 16, sender_nonce=b"n" * 16)
        o = cmputils.parse_pkimessage(cmpx.enc(outer))
        x = cmputils.get_inner_pkimessage(o, 0)
        ctx.eq(cmpx.enc(x), der, "nested message in a nested message", key="twice")
        for i, d in enumerate(ders):
            ctx.eq(cmpx.enc(cmputils.get_inner_pkimessage(x, i)), d, "message %d two levels down" % i, key="twice-inner")
    # header patching
    p = cmputils.parse_pkimessage(der)
    how = case["patch"]
    if how == "added":
        if val("transactionID") is None or val("senderNonce") is None:
            return
        p = cmputils.patch_pkimessage_header_with_other_message(p, for_added_protection=True)
        g = cmpx.Wire(cmpx.enc(p))
        gf = g.fields()
        ctx.eq([D.octets_value(gf[n]) for n in ("transactionID", "senderNonce")], [val("transactionID"), val("senderNonce")], "identifiers patched for added protection", key="patch-added")
    else:
        p = cmputils.patch_pkimessage_header_with_other_message(p, for_nested=True)
        g = cmpx.Wire(cmpx.enc(p))
        gf = g.fields()
        for n in ("transactionID", "senderNonce"):
            used = [D.octets_value(cmpx.Wire(d).fields()[n]) for d in ders if cmpx.Wire(d).fields().get(n) is not None]
            v = D.octets_value(gf[n])
            ctx.check(len(v) == 16 and v not in used, "%s patched for nesting is %r, inner values %r" % (n, v, used), key="patch-nested")
    ctx.eq(g.body, w.body, "body after patching the header", key="patch-body")
    for n in f:
        if n not in ("transactionID", "senderNonce"):
            ctx.eq(gf.get(n), f[n], "%s after patching" % n, key="patch-other")


def wraps():
    b16 = st.one_of(st.none(), st.binary(min_size=16, max_size=16), st.binary(min_size=1, max_size=20))
    return st.fixed_dictionaries({"msgs": st.lists(gram.messages(names=[b for b in gram.BODY_NAMES if b != "nested"]), min_size=1, max_size=4), "tx": b16, "nonce": b16, "recip": b16, "list": st.booleans(), "added": st.booleans(), "twice": st.booleans(),
                                  "pvno": st.sampled_from([2, 3]), "exclude": st.sampled_from([None, None, "senderKID", "transactionID", "senderNonce,senderKID"]), "patch": st.sampled_from(["added", "nested"])})


# --- identifier and nonce rules ------------------------------------------------------------------------
def plain(name, tx, nonce, recip, content=None):
    h = D.seq(D.integer(2), D.ctx(4, pki.name("a")), D.ctx(4, pki.name("b")), *[D.ctx(i, D.octets(v)) for i, v in ((4, tx), (5, nonce), (6, recip)) if v is not None])
    return D.seq(h, D.ctx(M.BODY[name], content if content is not None else body_of(name)))


def body_of(name):
    if name == "certConf":
        return D.seq(D.seq(D.octets(b"h" * 32), D.integer(0)))
    if name in ("ccr", "ccp"):
        return bodies({"ccr": "ir", "ccp": "ip"}[name])
    if name == "pollReq":
        return D.seq(D.seq(D.integer(0)))
    return bodies(name)


def nested_of(case):
    t = case["outer"]
    return plain("nested", t["tx"], t["nonce"], t["recip"], D.seq(*[plain(m["name"], m["tx"], m["nonce"], m["recip"]) for m in case["inner"]]))


def run_added(case, ctx):
    m = cmputils.parse_pkimessage(nested_of(case))
    o, ins, length = case["outer"], case["inner"], case["length"]
    bad = None
    if len(ins) != 1:
        bad = "%d messages" % len(ins)
    else:
        i = ins[0]
        if None in (o["tx"], i["tx"]) or o["tx"] != i["tx"]:
            bad = "transactionID"
        elif None in (o["nonce"], i["nonce"]) or o["nonce"] != i["nonce"]:
            bad = "senderNonce"
        elif i["name"] == "certConf" and (o["recip"] is None or o["recip"] != i["recip"]):
            bad = "recipNonce of certConf"
        elif i["name"] != "certConf" and (o["recip"] is not None or i["recip"] is not None):
            bad = "recipNonce set"
        elif length and (len(i["tx"]) != 16 or len(i["nonce"]) != 16 or i["recip"] is not None and len(i["recip"]) != 16):
            bad = "length"
    ctx.nontrivial()
    ctx.label("added:" + str(bad), "body:" + (ins[0]["name"] if ins else "-"))
    fn = lambda: checkutils.validate_add_protection_tx_id_and_nonces(m, check_length=length)  # noqa: E731
    what = "added protection %s" % show(case)
    if bad is None:
        ctx.accepts(what, fn, key="added-accept")
    else:
        ctx.rejects("%s: %s" % (bad, what), fn, exc=ERR, key="added-reject:" + bad.split(" ")[0])


def show(case):
    h = lambda v: None if v is None else v[:2].hex() + "/%d" % len(v)  # noqa: E731
    return "outer %s inner %s" % ([h(case["outer"][k]) for k in ("tx", "nonce", "recip")], [[m["name"]] + [h(m[k]) for k in ("tx", "nonce", "recip")] for m in case["inner"]])


def run_unique(case, ctx):
    m = cmputils.parse_pkimessage(nested_of(case))
    o, ins, fl = case["outer"], case["inner"], case["flags"]
    allm = [o] + ins
    bad = None
    if any(x["tx"] is None for x in allm):
        bad = "transactionID missing"
    elif any(x["nonce"] is None for x in allm):
        bad = "senderNonce missing"
    elif fl["recip"] and any(x["recip"] is None for x in allm):
        bad = "recipNonce missing"
    else:
        for k, n in (("tx", "transactionID"), ("nonce", "senderNonce"), ("recip", "recipNonce")):
            vals = [x[k] for x in allm]
            if fl[k] and len(set(vals)) != len(vals):
                bad = n + " repeated"
        if bad is None and fl["length"]:
            for k in ("tx", "nonce"):
                if any(len(x[k]) != 16 for x in allm):
                    bad = "length"
            if fl["recip"] and any(len(x["recip"]) != 16 for x in allm) or o["recip"] is not None and len(o["recip"]) != 16:
                bad = "length"
    ctx.nontrivial()
    ctx.label("unique:" + str(bad), "n:%d" % len(ins))
    fn = lambda: checkutils.validate_nested_message_unique_nonces_and_ids(m, check_transaction_id=fl["tx"], check_sender_nonce=fl["nonce"], check_recip_nonce=fl["recip"], check_length=fl["length"])  # noqa: E731
    if bad is None:
        ctx.accepts("batch %s flags %s" % (show(case), fl), fn, key="unique-accept")
    else:
        ctx.rejects("%s: batch %s flags %s" % (bad, show(case), fl), fn, exc=ERR, key="unique-reject:" + bad)


ANS = {"p10cr": "cp", "cr": "cp", "genm": "genp", "kur": "kup", "ir": "ip", "rr": "rp"}


def run_answers(case, ctx):
    req = cmputils.parse_pkimessage(nested_of({"outer": case["outer"], "inner": case["inner"]}))
    o = case["outer"]
    resp_inner = [{"name": a["name"], "tx": a["tx"], "nonce": a["nonce"], "recip": a["recip"]} for a in case["answers"]]
    resp = cmputils.parse_pkimessage(plain("nested", o["tx"], b"R" * 16, o["nonce"], D.seq(*[plain(a["name"], a["tx"], a["nonce"], a["recip"]) for a in resp_inner])))
    bad = None
    if len(resp_inner) != len(case["inner"]):
        bad = "size"
    else:
        table = {(a["recip"], a["tx"]): a["name"] for a in resp_inner}
        for q in case["inner"]:
            a = table.get((q["nonce"], q["tx"]))
            if a is None:
                bad = "no answer"
            elif a not in ("error", "pollReq", ANS[q["name"]]):
                bad = "body"
    if any(a["name"] == "pollReq" for a in resp_inner):
        raise Skip("documented text and the protocol disagree on polling")
    ctx.nontrivial()
    ctx.label("answers:" + str(bad), "n:%d" % len(resp_inner))
    fn = lambda: checkutils.validate_ids_and_nonces_for_nested_response(req, resp)  # noqa: E731
    what = "requests %s answers %s" % (show({"outer": o, "inner": case["inner"]}), show({"outer": o, "inner": resp_inner}))
    if bad is None:
        ctx.accepts(what, fn, key="answers-accept")
    else:
        ctx.rejects("%s: %s" % (bad, what), fn, exc=ERR, key="answers-reject:" + bad)


V16 = st.integers(0, 255).map(lambda i: bytes([i]) * 15 + b"z")


def distinct(draw, n):
    return [bytes([i]) * 16 for i in draw(st.permutations(range(1, n + 3)))][:n]


NAMES = ["ir", "cr", "kur", "p10cr", "rr", "genm", "ccr", "certConf"]


@st.composite
def added(draw):
    n = draw(st.sampled_from([1] * 9 + [2, 0]))
    tx, nonce, recip = distinct(draw, 3)
    ins = [{"name": draw(st.sampled_from(NAMES)), "tx": tx, "nonce": nonce, "recip": None} for _ in range(n)]
    case = {"outer": {"tx": tx, "nonce": nonce, "recip": None}, "inner": ins, "length": draw(st.booleans())}
    if n == 1 and ins[0]["name"] == "certConf":
        ins[0]["recip"] = case["outer"]["recip"] = recip
    if n and draw(st.booleans()):
        where = draw(st.sampled_from([case["outer"], ins[0]]))
        k = draw(st.sampled_from(["tx", "nonce", "recip"]))
        v = draw(st.sampled_from([None, tx, nonce, recip, b"other value 1234", tx[:15], b""]))
        where[k] = v
        if draw(st.integers(0, 3)) == 0:
            case["outer"][k] = ins[0][k] = v
    return case


@st.composite
def batches(draw):
    n = draw(st.integers(1, 4))
    has = draw(st.booleans())
    ids = [distinct(draw, n + 1) for _ in range(3)]
    allm = [{"tx": ids[0][i], "nonce": ids[1][i], "recip": ids[2][i] if has else None} for i in range(n + 1)]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        i, j = draw(st.integers(0, n)), draw(st.integers(0, n))
        k = draw(st.sampled_from(["tx", "nonce", "recip"]))
        v = allm[i][k]
        allm[j][k] = draw(st.sampled_from([v, v, v[:15] if v else v, None, (v or b"") + b"x"]))
    return {"outer": allm[0], "inner": [dict(m, name=draw(st.sampled_from(NAMES))) for m in allm[1:]],
            "flags": {"tx": draw(st.sampled_from([True, True, False])), "nonce": draw(st.sampled_from([True, True, False])), "recip": has if draw(st.integers(0, 4)) else not has, "length": draw(st.booleans())}}


@st.composite
def answers(draw):
    n = draw(st.integers(1, 5))
    tx, nonce = distinct(draw, n + 1), distinct(draw, n + 1)
    inner = [{"name": draw(st.sampled_from(sorted(ANS))), "tx": tx[i], "nonce": nonce[i], "recip": None} for i in range(n)]
    ans = [{"name": draw(st.sampled_from([ANS[q["name"]]] * 3 + ["error"])), "tx": q["tx"], "nonce": b"S" * 15 + bytes([i]), "recip": q["nonce"]} for i, q in enumerate(inner)]
    d = draw(st.sampled_from(["none", "none", "body", "tx", "nonce", "swap", "drop", "double", "order"]))
    i = draw(st.integers(0, n - 1))
    if d == "body":
        ans[i]["name"] = draw(st.sampled_from(["ip", "cp", "kup", "rp", "genp"]))
    elif d == "tx":
        ans[i]["tx"] = draw(st.sampled_from([tx[n], tx[i][:15], nonce[i]]))
    elif d == "nonce":
        ans[i]["recip"] = draw(st.sampled_from([nonce[n], nonce[i][:15], ans[i]["nonce"]]))
    elif d == "swap":
        j = draw(st.integers(0, n - 1))
        ans[i]["recip"], ans[j]["recip"] = ans[j]["recip"], ans[i]["recip"]
    elif d == "drop":
        del ans[i]
    elif d == "double":
        ans[i] = dict(ans[(i + 1) % n])
    elif d == "order":
        ans = draw(st.permutations(ans))
    return {"outer": {"tx": tx[n], "nonce": nonce[n], "recip": None}, "inner": inner, "answers": list(ans)}


# --- the Mock CA ---------------------------------------------------------------------------------------
class Unprotected:
    def alg(self):
        return None
    kid = alg

    def certs(self):
        return []

    def sender(self):
        return pki.name("Unprotected")


BATCH_DEV = ["tx-inner", "tx-outer", "nonce-inner", "nonce-outer", "outer-recip", "inner-recip", "short-tx", "short-nonce", "flip", "stranger", "outer-flip", "outer-stranger", "outer-mac", "body", "empty", "no-prot", "w-tx", "w-nonce", "w-recip", "w-flip", "w-stranger", "w-two"]
ADDED_DEV = ["tx", "nonce", "recip", "flip", "stranger", "outer-flip", "outer-stranger", "outer-mac", "body", "popo"]


def run_ca(case, ctx):
    folder = os.path.abspath("c24-ras")
    os.makedirs(folder, exist_ok=True)
    env = mreq.Env(trusted_ras_dir=folder)
    ra = env.ra(0)
    with open(os.path.join(folder, "ra.pem"), "w") as f:
        f.write("-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(ra.chain[0]).decode() + "-----END CERTIFICATE-----\n")
    for rnd, batch in enumerate(case["rounds"]):
        ca_round(batch, rnd, env, ra, ctx)


def ca_round(case, rnd, env, ra, ctx):
    dev, is_added = case["dev"], case["added"]
    steps = case["msgs"][:1] if is_added else case["msgs"]
    outer = {"tx": env.rnd(), "nonce": env.rnd(), "recip": None}
    ids = [{"tx": outer["tx"] if is_added else env.rnd(), "nonce": outer["nonce"] if is_added else env.rnd(), "recip": None} for _ in steps]
    at = case["at"] % len(steps)
    t = ids[at]
    other = outer if dev in ("tx-outer", "nonce-outer") or len(ids) < 2 else ids[at - 1]
    if dev in ("tx-inner", "tx-outer"):
        t["tx"] = other["tx"]
    elif dev in ("nonce-inner", "nonce-outer"):
        t["nonce"] = other["nonce"]
    elif dev == "outer-recip":
        outer["recip"] = env.rnd()
    elif dev in ("inner-recip", "recip"):
        t["recip"] = env.rnd()
    elif dev == "short-tx":
        t["tx"] = t["tx"][:15]
    elif dev == "short-nonce":
        t["nonce"] = t["nonce"][:-1]
    elif dev == "tx":
        t["tx"] = env.rnd()
    elif dev == "nonce":
        t["nonce"] = env.rnd()
    msgs, subjects = [], []
    for i, s in enumerate(steps):
        subj = mreq.subject(s, 100 * rnd + i)
        subjects.append(subj)
        bad = s["bad"] or dev == "popo" and i == at
        body, _exts = mreq.make_body(s, subj, tuple(s["key"]), "popo-flip" if bad else None, s["bit"])
        if dev == "body" and i == at:
            body = M.genm()
        prot = Prot(secret=env.ca.secret, kind=s["mac"][0], h=s["mac"][1]) if s["prot"] == "mac" else Unprotected() if s["prot"] == "none" else Prot(party=env.ra(s["ra"]))
        damage = None
        if i == at and dev == "stranger":
            prot = Prot(party=env.stranger(s["ra"]))
        if i == at and dev == "flip":
            if s["prot"] == "none":
                prot = Prot(party=env.ra(s["ra"]))
            damage = mreq.flip(s["bit"])
        msgs.append(M.message(body, prot, ids[i]["tx"], ids[i]["nonce"], ids[i]["recip"], implicit=s["implicit"], damage=damage))
    inner = list(msgs)
    for i, s in enumerate(steps):
        here = str(dev)[2:] if i == at and str(dev).startswith("w-") else None
        if not is_added and (s.get("wrap") or here):  # an entry of a batch with added protection of its own
            w = dict(ids[i])
            if here in w:
                w[here] = env.rnd()
            wprot = Prot(party=env.stranger(1)) if here == "stranger" else Prot(party=ra)
            msgs[i] = M.message(M.body("nested", D.seq(*[msgs[i]] * (2 if here == "two" else 1))), wprot, w["tx"], w["nonce"], w["recip"], damage=mreq.flip(s["bit"]) if here == "flip" else None)
    oprot = Prot(party=env.stranger(1)) if dev == "outer-stranger" else Prot(secret=env.ca.secret) if dev == "outer-mac" else Prot(party=ra)
    if dev == "no-prot":
        oprot = Unprotected()
    sent = [] if dev == "empty" else msgs
    der = M.message(M.body("nested", D.seq(*sent)), oprot, outer["tx"], outer["nonce"], outer["recip"], damage=mreq.flip(case["bit"]) if dev == "outer-flip" else None)
    before = set(env.ca.certs())
    raw = env.ca.send(der)
    r = M.Resp(raw)
    kind = "added protection" if is_added else "batch of %d" % len(steps)
    what = "%s (%s) deviation %s" % (kind, ",".join("%s/%s%s%s" % (s["name"], s["prot"], "/bad" if s["bad"] else "", "/wrapped" if s.get("wrap") and not is_added else "") for s in steps), dev)
    ctx.nontrivial()
    ctx.op(1)
    ctx.label(*["wrapped"] * (not is_added and any(s.get("wrap") for s in steps)), "kind:" + ("added" if is_added else "batch%d" % len(steps)), "dev:%s" % dev, *["inner:%s/%s" % (s["name"], s["prot"]) for s in steps])
    ctx.check("An error occurred while processing the request" not in r.text, "%s: internal failure: %s" % (what, r.text[:200]), key="internal")
    bad = M.protected_ok(r, env.ca, [env.ca.secret])
    ctx.check(bad is None, "%s: %s" % (what, bad), key="protection")
    new = set(env.ca.certs()) - before
    if dev is not None:
        ctx.check(not r.accepted or r.type == "nested" and not M.Resp(D.split(D.split(r.w.body)[0])[at]).accepted, "%s: granted" % what, key="granted:%s" % dev)
        if r.type == "error":
            ctx.check(not new, "%s: answered with an error, but %d certificate(s) were issued" % (what, len(new)), key="leak:%s" % dev)
        return
    if is_added:
        check_answer(ctx, r, raw, steps[0], subjects[0], ids[0], env, what, new, inner[0])
        return
    ctx.eq(r.type, "nested", "%s: body type (%s)" % (what, r.text[:200]), key="batch-type")
    ctx.eq(r.tx, outer["tx"], what + ": transactionID", key="batch-tx")
    ctx.eq(r.recip, outer["nonce"], what + ": recipNonce", key="batch-recip")
    parts = D.split(D.split(r.w.body)[0])
    ctx.eq(len(parts), len(steps), what + ": number of answers", key="batch-size")
    for i, (s, d) in enumerate(zip(steps, parts)):
        check_answer(ctx, M.Resp(d), d, s, subjects[i], ids[i], env, "%s, answer %d" % (what, i), new, inner[i])
    ctx.eq(len(new), sum(not s["bad"] for s in steps), what + ": certificates issued", key="batch-issued")
    q, a = cmputils.parse_pkimessage(der), cmputils.parse_pkimessage(raw)
    if any(s.get("wrap") for s in steps):
        return  # the suite's own checks know no answer to a nested entry
    ctx.accepts("suite's own check of the answer to " + what, lambda: checkutils.validate_ids_and_nonces_for_nested_response(q, a), key="self-ids")
    ctx.accepts("suite's own body type check of the answer to " + what, lambda: checkutils.validate_cmp_body_types(a, q), key="self-types")


def check_answer(ctx, r, raw, s, subj, ids, env, what, new, req):
    from checks.c11 import Cert
    ctx.eq(r.type, M.ANSWER[s["name"]], what + ": body type (%s)" % r.text[:150], key="ans-type")
    ctx.eq(r.tx, ids["tx"], what + ": transactionID", key="ans-tx")
    ctx.eq(r.recip, ids["nonce"], what + ": recipNonce", key="ans-recip")
    bad = M.protected_ok(r, env.ca, [env.ca.secret])
    ctx.check(bad is None, "%s: %s" % (what, bad), key="ans-prot")
    if s["prot"] == "mac" and s["mac"][0] in ("pbm", "pbmac1"):
        ctx.check(r.alg is not None and D.split(r.alg)[0] == D.split(M.Wire(req).fields()["protectionAlg"])[0], what + ": a MAC-protected request is answered with another protection", key="ans-mac")
    ctx.eq(r.ids, [-1 if s["name"] == "p10cr" else 0], what + ": certReqId", key="ans-id")
    if s["bad"]:
        ctx.check(not r.accepted and "badPOP" in r.fails, "%s: bad proof of possession answered with %s %s" % (what, r.statuses[0].value, r.fails), key="ans-bad")
        return
    ctx.check(r.accepted and r.certs and isinstance(r.certs[0], bytes), "%s: refused: %s" % (what, r.text[:200]), key="ans-refused")
    c = Cert(r.certs[0])
    ctx.eq((c.subject, c.spki), (subj, pki.spki(*s["key"])), what + ": subject and key of the certificate", key="ans-cert")
    ctx.check(r.certs[0] in new, what + ": the certificate is not in the CA's record", key="ans-recorded")


@st.composite
def ca_cases(draw):
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(2, 4))
        msgs = []
        for _i in range(n):
            s = draw(mreq.steps())
            s["prot"] = draw(st.sampled_from(["mac", "sig", "sig", "none"]))
            if s["name"] == "cr" and s["prot"] == "sig":
                s["prot"] = "mac"
            s["bad"] = draw(st.integers(0, 5)) == 0
            s["wrap"] = draw(st.integers(0, 3)) == 0
            msgs.append(s)
        is_added = draw(st.integers(0, 2)) == 0
        dev = draw(st.sampled_from(ADDED_DEV if is_added else BATCH_DEV)) if draw(st.booleans()) else None
        if is_added and dev is None:
            msgs[0]["bad"] = False
        rounds.append({"msgs": msgs, "added": is_added, "dev": dev, "at": draw(st.integers(0, 3)), "bit": draw(st.integers(0, 500))})
    return {"rounds": rounds}


SUBS = [
    Sub("wrap", wraps(), run_wrap, quick=250, thorough=6000, shards=2, text="build_nested_pkimessage, get_inner_pkimessage and header patching for nesting over generated messages of every body type"),
    Sub("added", added(), run_added, quick=500, thorough=10000, text="validate_add_protection_tx_id_and_nonces"),
    Sub("unique", batches(), run_unique, quick=500, thorough=10000, text="validate_nested_message_unique_nonces_and_ids"),
    Sub("answers", answers(), run_answers, quick=500, thorough=10000, text="validate_ids_and_nonces_for_nested_response"),
    Sub("ca", ca_cases(), run_ca, quick=60, thorough=1500, shards=3, text="batches and added protection answered by the Mock CA"),
]
