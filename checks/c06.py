"""C06: proof of possession binds the requested key to the certificate request."""
from cryptography.exceptions import InvalidSignature, UnsupportedAlgorithm
from hypothesis import strategies as st

from checks.c03 import EC_KEYS, SHA2, SHA3, expected_alg, independent, signer
from lib import certs, cmpx, comp, keys
from lib import der as D
from lib.cmpx import Wire, enc, flip_leaf, parse
from lib.harness import Sub
from resources import ca_ra_utils as RA
from resources import certbuildutils, certutils, cmputils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C06"
TECHNIQUE = "generated certificate requests of every signing key type with independent signature verification over the request bytes; damage search over the covered fields, the proof and the request index"
RULE = ("ir/cr/kur with 1-3 requests (own key, hash, extensions, controls each) and p10cr, damaged in one covered field, the proof or the key. "
        "Non-trivial: the proof was verified independently, or the damaged message decodes to a request or proof different from the built one.")
ASSUMPTIONS = ["RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA and SLH-DSA are re-implemented in lib/fips.py, composite signatures in lib/comp.py"]
OK = (InvalidSignature, UnsupportedAlgorithm, ValueError, TypeError, CMPTestSuiteError)
TAG = {"ir": 0, "cr": 2, "p10cr": 4, "kur": 7}
COMPS = ["MLDSA44-RSA2048-PSS-SHA256", "MLDSA44-Ed25519-SHA512", "MLDSA65-ECDSA-P256-SHA512", "MLDSA44-ECDSA-P256-SHA256"]
COMPS = [c for c in COMPS if c in comp.BY_NAME]


@st.composite
def who(draw):
    if draw(st.integers(0, 11)) == 0:
        return {"key": draw(st.sampled_from(COMPS)), "i": draw(st.integers(0, 1)), "prot": "composite", "hash": None}
    s = draw(signer())
    if s["prot"] == "rsassa-pss" and s["hash"] != "sha256":
        s["hash"] = "sha256"
    return s


CN = st.text(alphabet="abcXYZ019 -", min_size=1, max_size=12).map(lambda s: "CN=x" + s.strip())
one = st.fixed_dictionaries({"s": who(), "cn": CN, "id": st.integers(-1, 2**33), "ext": st.sampled_from([None, "san", "ku", "bc"]), "ctrl": st.booleans(), "spki_pss": st.booleans()})
HOW = ["none", "none", "flip", "flip", "flip", "flip", "flip", "sig-flip", "sig-cut", "sig-empty", "other-key", "no-popo", "swap", "alg", "id", "bad_pop", "ra", "kem-popo", "raw-key"]
REQ = st.fixed_dictionaries({"body": st.sampled_from(["ir", "cr", "kur"]), "reqs": st.lists(one, min_size=1, max_size=3), "at": st.integers(0, 2), "how": st.sampled_from(HOW), "n": st.integers(0, 10**6), "bit": st.integers(0, 10**6), "s2": who()})


def key_of(s):
    return keys.get("composite-sig:%s:%s" % comp_parts(s["key"]) if s["prot"] == "composite" else s["key"], s["i"])


def comp_parts(name):
    a = comp.BY_NAME[name]
    return a.pq, a.trad


def exts(kind):
    if kind is None:
        return None
    e = {"san": lambda: certbuildutils.prepare_subject_alt_name_extension("a.example"), "ku": lambda: certbuildutils.prepare_key_usage_extension("digitalSignature"),
         "bc": lambda: certbuildutils.prepare_basic_constraints_extension(ca=False)}[kind]()
    out = certbuildutils.rfc5280.Extensions()
    out.append(e)
    return out


def crmf(r, sign_key=None, **kw):
    """One CertReqMsg made by the suite."""
    s = r["s"]
    k = key_of(s)
    pss = s["prot"] == "rsassa-pss" or (s["prot"] == "composite" and comp.BY_NAME[s["key"]].pss)
    req = cmputils.prepare_cert_request(key=k, common_name=r["cn"], cert_req_id=r["id"], extensions=exts(r["ext"]), controls=cmputils.prepare_controls_structure(cert=certs.cert_for("ec:secp256r1", 0)) if r["ctrl"] else None)
    if not pss and sign_key is None and s["hash"] and not kw:
        return cmputils.prepare_cert_req_msg(private_key=k, cert_request=req, hash_alg=s["hash"])
    popo = cmputils.prepare_signature_popo(sign_key or k, cert_request=req, hash_alg=s["hash"] or None, use_rsa_pss=pss, **kw)
    return cmputils.prepare_cert_req_msg(private_key=k, cert_request=req, popo_structure=popo)


def build(case, how=None):
    msgs = []
    at = case["at"] % len(case["reqs"])
    for i, r in enumerate(case["reqs"]):
        kw = {}
        if i == at and how == "bad_pop":
            kw["bad_pop"] = True
        msgs.append(crmf(r, **kw))
    fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key, "kur": cmputils.build_key_update_request}[case["body"]]
    return fn(key_of(case["reqs"][0]["s"]), cert_req_msg=msgs, sender="CN=a", recipient="CN=b", exclude_fields=None)


def reqs_of(data):
    """DER of the CertReqMsg elements."""
    return D.split(D.split(Wire(data).body)[0])


def rebuild(data, items):
    w = Wire(data)
    return w.build(body=D.tlv(w.body[0], D.seq(*items)))


def proof(msg):
    """(certReq, AlgorithmIdentifier, signature octets) of a CertReqMsg with signature POPO."""
    p = D.split(msg)
    assert p[1][0] == 0xA1, p[1][:4].hex()
    q = [x for x in D.split(p[1]) if x[0] != 0xA0]
    _t, _h, c, e = D.read(q[1])
    return p[0], q[0], q[1][c + 1:e]


def genuine(s, data, alg, sig):
    if s["prot"] == "composite":
        a = comp.BY_NAME[s["key"]]
        return cmpx.algid(alg)[0] == D.oid(a.oid) and all(a.verify(s["i"], data, sig))
    if s["key"].startswith("slh"):
        return True  # slow; C15 decides it
    return alg == expected_alg(s) and independent(s, data, sig)


def check_all(ctx, data, what, bad=None, exc=OK):
    msg = parse(data)
    for i in range(len(reqs_of(data))):
        if i == bad:
            ctx.rejects(f"{what}, request {i}", RA.verify_popo_for_cert_request, msg, cert_req_index=i, exc=exc, key="popo-" + what)
            ctx.rejects(f"{what}, request {i} (signature)", RA.verify_sig_pop_for_pki_request, msg, cert_index=i, exc=exc, key="sig-" + what)
        else:
            ctx.accepts(f"untouched request {i} ({what})", RA.verify_popo_for_cert_request, msg, cert_req_index=i)
            ctx.op()


def req(case, ctx):
    how, n, bit = case["how"], case["n"], case["bit"]
    data = enc(ctx.accepts("building", build, case, how))
    at = case["at"] % len(case["reqs"])
    items = reqs_of(data)
    ctx.label(case["body"], how, f"{at}/{len(items)}", case["reqs"][at]["s"]["prot"])
    s = case["reqs"][at]["s"]
    for i, (r, it) in enumerate(zip(case["reqs"], items)):
        cr, alg, sig = proof(it)
        if how == "bad_pop" and i == at:
            continue
        ctx.check(genuine(r["s"], cr, alg, sig), f"independent verification of the proof of request {i} ({r['s']})")
        ctx.eq(D.split(cr)[0], D.integer(r["id"]), "certReqId")
    if how == "none":
        ctx.nontrivial()
        check_all(ctx, data, "genuine")
        if len(items) > 1:  # the proof of one request does not serve the others
            j = (at + 1) % len(items)
            if items[j] != items[at]:
                mixed = D.seq(D.split(items[at])[0], *D.split(items[j])[1:])
                if proof(mixed)[0] != proof(items[j])[0]:
                    ctx.rejects("proof of another request", RA.verify_popo_for_cert_request, parse(rebuild(data, [mixed if x is items[at] else x for x in items])), cert_req_index=at, exc=OK)
        return
    if how == "bad_pop":
        ctx.nontrivial()
        check_all(ctx, data, "bad_pop switch", bad=at)
        return
    p = D.split(items[at])
    cr, alg, sig = proof(items[at])

    def popo(a, b):
        return D.tlv(0xA1, a + D.bits(b))

    exc = OK
    if how == "flip":
        new = flip_leaf(cr, n, bit)
        if new is None:
            return
        item = D.seq(new, *p[1:])
        exc = (Exception,)
    elif how == "sig-flip":
        b = bytearray(sig)
        b[n % len(b)] ^= 1 << bit % 8
        item = D.seq(cr, popo(alg, bytes(b)))
        if genuine_after(s, cr, alg, bytes(b)):
            return
    elif how == "sig-cut":
        item = D.seq(cr, popo(alg, sig[:len(sig) - 1 - n % len(sig)]))
    elif how == "sig-empty":
        item = D.seq(cr, popo(alg, b""))
    elif how == "other-key":
        s2 = case["s2"]
        if key_of(s2).public_key() == key_of(s).public_key():
            s2 = dict(s, i=1 - s["i"])
        r2 = dict(case["reqs"][at], s=s2)
        other = enc_req(r2)
        item = D.seq(cr, popo(*sign_over(s2, cr)))
        ctx.op()
        check_all(ctx, rebuild(data, [D.seq(cr, *D.split(other)[1:]) if i == at else x for i, x in enumerate(items)]), "proof of another request and key", bad=at)
    elif how == "no-popo":
        item = D.seq(cr)
    elif how == "swap":
        r2 = dict(case["reqs"][at], cn=case["reqs"][at]["cn"] + "2")
        item = D.seq(D.split(enc_req(r2))[0], *p[1:])
    elif how == "alg":
        a2 = [expected_alg(dict(s, hash=h)) if s["prot"] == "signature" else None for h in ("sha256", "sha384") if s["hash"] in SHA2 + SHA3 and h != s["hash"]] if s["key"][:3] in ("rsa", "ec:") else []
        a2 = [x for x in a2 if x] + [D.seq(D.oid("1.3.101.112" if s["key"] != "ed25519" else "1.3.101.113"))]
        item = D.seq(cr, popo(a2[n % len(a2)], sig))
    elif how == "id":
        x = D.split(cr)
        item = D.seq(D.seq(D.integer(case["reqs"][at]["id"] + 1), *x[1:]), *p[1:])
    elif how == "ra":
        item = D.seq(cr, b"\x80\x00")
        ctx.nontrivial()
        m = parse(rebuild(data, [item if i == at else x for i, x in enumerate(items)]))
        ctx.rejects("raVerified without an RA certificate", RA.verify_popo_for_cert_request, m, cert_req_index=at, exc=OK)
        return
    elif how == "kem-popo":
        item = D.seq(cr, D.ctx(2 + n % 2, D.ctxp(1, b"\x00")))  # keyEncipherment/keyAgreement, subsequentMessage encrCert
        if s["key"].startswith("ec:") and n % 2:
            return  # an EC key can agree on keys
        if not s["key"].startswith(("ec:", "ed", "ml", "slh")) and s["prot"] != "composite":
            return  # RSA keys can encrypt
    else:  # raw-key: the proof covers only the key or the template
        t = D.split(cr)[1]
        spki = [x for x in D.split(t) if x[0] == 0xA6][0]
        item = D.seq(cr, popo(*sign_over(s, [t, b"\x30" + spki[1:], b""][n % 3])))
    data2 = rebuild(data, [item if i == at else x for i, x in enumerate(items)])
    try:
        same = enc(parse(data2)) == enc(parse(data))
    except Exception:  # noqa: BLE001 not a message any more
        ctx.label("undecodable")
        return
    if same:
        ctx.label("no-effect")
        return
    ctx.nontrivial()
    check_all(ctx, data2, how, bad=at, exc=exc)


def genuine_after(s, cr, alg, sig):
    """A changed signature that is still valid (none is known, ECDSA with re-encodings aside)."""
    try:
        return not s["key"].startswith("slh") and genuine(s, cr, alg, sig)
    except Exception:  # noqa: BLE001
        return False


def enc_req(r):
    from pyasn1.codec.der import encoder
    return encoder.encode(crmf(r))


def sign_over(s, data):
    """AlgorithmIdentifier and signature of signer `s` over any bytes."""
    from pyasn1.codec.der import encoder
    from resources import prepare_alg_ids, protectionutils
    pss = s["prot"] == "rsassa-pss" or (s["prot"] == "composite" and comp.BY_NAME[s["key"]].pss)
    a = prepare_alg_ids.prepare_sig_alg_id(signing_key=key_of(s), hash_alg=s["hash"], use_rsa_pss=pss)
    return encoder.encode(a), protectionutils.sign_data_with_alg_id(key=key_of(s), alg_id=a, data=data)


P10HOW = ["none", "flip", "flip", "flip", "sig-flip", "sig-cut", "other-key", "bad_pop", "other-spki", "alg"]
P10 = st.fixed_dictionaries({"r": one, "how": st.sampled_from(P10HOW), "n": st.integers(0, 10**6), "bit": st.integers(0, 10**6), "s2": who(), "san": st.booleans()})


def p10(case, ctx):
    r, how, n, bit = case["r"], case["how"], case["n"], case["bit"]
    s = r["s"]
    k = key_of(s)
    pss = s["prot"] == "rsassa-pss" or (s["prot"] == "composite" and comp.BY_NAME[s["key"]].pss)
    ctx.label("p10cr", how, s["prot"])
    kw = dict(common_name=r["cn"], hash_alg=s["hash"], use_rsa_pss=pss)
    csr = ctx.accepts("building", certbuildutils.build_csr, k, extensions=exts(r["ext"]), bad_pop=how == "bad_pop", **kw)
    if how == "other-key":
        s2 = case["s2"] if key_of(case["s2"]).public_key() != k.public_key() else dict(s, i=1 - s["i"])
        pss2 = s2["prot"] == "rsassa-pss" or (s2["prot"] == "composite" and comp.BY_NAME[s2["key"]].pss)
        csr = certbuildutils.sign_csr(csr, key_of(s2), hash_alg=s2["hash"], use_rsa_pss=pss2)
    data = enc(ctx.accepts("building", cmputils.build_p10cr_from_csr, csr))
    body = D.split(Wire(data).body)[0]
    info, alg, sigv = D.split(body)
    _t, _h, c, e = D.read(sigv)
    sig = sigv[c + 1:e]
    exc = OK
    if how in ("none", "flip", "sig-flip", "sig-cut", "other-spki", "alg"):
        ctx.check(genuine(s, info, alg, sig), f"independent verification of the CSR signature ({s})")
    if how == "none":
        ctx.nontrivial()
        ctx.accepts("genuine CSR", RA.verify_sig_pop_for_pki_request, parse(data))
        ctx.accepts("genuine CSR", certutils.verify_csr_signature, parse(data)["body"]["p10cr"])
        m2 = ctx.accepts("building", cmputils.build_p10cr_from_key, k, **kw)
        ctx.accepts("genuine p10cr", RA.verify_sig_pop_for_pki_request, parse(enc(m2)))
        return
    if how == "flip":
        new = flip_leaf(info, n, bit)
        info, exc = new or info, (Exception,)
    elif how == "sig-flip":
        b = bytearray(sig)
        b[n % len(b)] ^= 1 << bit % 8
        if genuine_after(s, info, alg, bytes(b)):
            return
        sigv = D.bits(bytes(b))
    elif how == "sig-cut":
        sigv = D.bits(sig[:len(sig) - 1 - n % len(sig)])
    elif how == "other-spki":
        p = D.split(info)
        from pyasn1.codec.der import encoder
        from resources import convertutils
        s2 = case["s2"] if key_of(case["s2"]).public_key() != k.public_key() else dict(s, i=1 - s["i"])
        p[2] = encoder.encode(convertutils.subject_public_key_info_from_pubkey(key_of(s2).public_key()))
        info = D.seq(*p)
    elif how == "alg":
        alg = D.seq(D.oid("1.3.101.112" if s["key"] != "ed25519" else "1.3.101.113"))
    w = Wire(data)
    data2 = w.build(body=D.tlv(w.body[0], D.seq(info, alg, sigv)))
    try:
        if how not in ("other-key", "bad_pop") and enc(parse(data2)) == data:
            ctx.label("no-effect")
            return
        m = parse(data2)
    except Exception:  # noqa: BLE001
        ctx.label("undecodable")
        return
    ctx.nontrivial()
    ctx.rejects(f"CSR with {how}", RA.verify_sig_pop_for_pki_request, m, exc=exc, key="p10-" + how)
    ctx.op()
    ctx.rejects(f"CSR with {how}", certutils.verify_csr_signature, m["body"]["p10cr"], exc=exc, key="csr-" + how)


NOSIG = ["ml-kem-512", "x25519", "x448", "xwing"]
NS = st.fixed_dictionaries({"key": st.sampled_from(NOSIG), "body": st.sampled_from(["ir", "cr"]), "cn": CN, "s2": who(), "n": st.integers(0, 100)})


def nonsig(case, ctx):
    """Keys that cannot sign ask for another proof; a signature by some other key is no proof for them."""
    ctx.label("nonsig", case["key"])
    k = keys.get(case["key"], 0)
    fn = {"ir": cmputils.build_ir_from_key, "cr": cmputils.build_cr_from_key}[case["body"]]
    m = enc(ctx.accepts("building", fn, k, case["cn"]))
    item = reqs_of(m)[0]
    cr = D.split(item)[0]
    ctx.eq(D.split(item)[1][0], 0xA3 if case["key"].startswith("x") and case["key"] != "xwing" else 0xA2, "kind of proof")
    ctx.accepts("request of a key that cannot sign", RA.verify_popo_for_cert_request, parse(m))
    ctx.nontrivial()
    alg, sig = sign_over(case["s2"], cr)
    bad = rebuild(m, [D.seq(cr, D.tlv(0xA1, alg + D.bits(sig)))])
    ctx.rejects("signature of another key for a key that cannot sign", RA.verify_popo_for_cert_request, parse(bad), exc=OK)
    ctx.rejects("no proof at all", RA.verify_popo_for_cert_request, parse(rebuild(m, [D.seq(cr)])), exc=OK)
    ctx.op(2)


SUBS = [
    Sub("req", REQ, req, quick=400, thorough=9000, shards=4, text="CRMF requests with signature proofs: genuine and damaged, at every index"),
    Sub("p10", P10, p10, quick=220, thorough=5000, shards=2, text="PKCS#10 requests: genuine and damaged"),
    Sub("nonsig", NS, nonsig, quick=60, thorough=600, shards=1, text="keys that cannot sign"),
]
