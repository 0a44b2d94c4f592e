"""C14: composite signatures verify only if both components verify in context."""
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives.asymmetric import ec, padding
from hypothesis import strategies as st

from lib import comp, fips, keys
from lib.harness import Sub
from pyasn1_alt_modules import rfc9480
from pyasn1.type import univ
from resources import protectionutils as PU
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C14"
TECHNIQUE = "generated algorithms, data and contexts against an independent implementation of the composite construction in both directions; component-level forgery search"
RULE = ("All 18 composite algorithms with data and contexts of all lengths; forgeries replace, re-sign, re-label, exchange or change one component. "
        "Non-trivial: both parts were decided by the independent implementation, or the forged value differs from the genuine one.")
ASSUMPTIONS = ["RSA, ECDSA and EdDSA of cryptography are correct; ML-DSA is re-implemented in lib/fips.py, the construction in lib/comp.py",
               "changed component bytes are not another encoding of the same ECDSA values (single flips are not)"]
OK = (InvalidSignature,)

data_st = st.one_of(st.binary(max_size=80), st.integers(0, 300).map(lambda n: bytes(range(256))[:n] * 3))
ctx_st = st.one_of(st.just(b""), st.binary(min_size=1, max_size=30), st.sampled_from([0, 1, 127, 128, 254, 255]).map(lambda n: b"\xc3" * n))
alg_st = st.sampled_from([a.name for a in comp.ALGS])


def alg_id(a):
    out = rfc9480.AlgorithmIdentifier()
    out["algorithm"] = univ.ObjectIdentifier(a.oid)
    return out


def genuine(case, ctx):
    a = comp.BY_NAME[case["alg"]]
    i, data, c = case["i"], case["data"], case["ctx"]
    ctx.label(a.name, "ctx" if c else "no ctx")
    key = keys.get(a.key, i)
    ctx.eq(str(key.get_oid(use_pss=a.pss)), a.oid, "OID of the private key")
    ctx.eq(str(key.public_key().get_oid(use_pss=a.pss)), a.oid, "OID of the public key")
    if case["via"] and not c:
        sig = ctx.accepts("signing", PU.sign_data_with_alg_id, key, alg_id(a), data)
    else:
        sig = ctx.accepts("signing", key.sign, data, ctx=c, use_pss=a.pss)
    pq, trad = a.verify(i, data, sig, c)
    ctx.check(pq, "the ML-DSA part is not valid for the message representative of the draft")
    ctx.check(trad, "the traditional part is not valid for the message representative of the draft")
    ctx.nontrivial()
    ctx.accepts("verifying", key.public_key().verify, data=data, signature=sig, ctx=c, use_pss=a.pss)
    # the other direction: a value made outside of the suite
    m = a.mprime(data, c)
    mine = fips.dsa_sign(a.pq, keys.get(a.pq, i).private_bytes_raw(), m, bytes(32), a.label) if case["own"] else None
    if mine:
        own = mine + a.trad_sign(keys.get(a.trad, i), m)
        ctx.accepts("verifying a composite signature made outside of the suite", key.public_key().verify, data=data, signature=own, ctx=c, use_pss=a.pss)
        ctx.label("made outside")
    if not c:
        ctx.accepts("verifying by AlgorithmIdentifier", PU.verify_signature_with_alg_id, key.public_key(), alg_id(a), data, sig)
        ctx.accepts("verifying with separate keys", PU.verify_composite_signature_with_keys, data, sig, alg_id(a), *((key.pq_key.public_key(), key.trad_key.public_key()) if case["via"] else (key.trad_key.public_key(), key.pq_key.public_key())))


good = st.fixed_dictionaries({"alg": alg_st, "i": st.integers(0, 1), "data": data_st, "ctx": ctx_st, "via": st.booleans(), "own": st.sampled_from([False, False, False, True])})

HOW = ["data", "ctx", "ctx-add", "pq-flip", "trad-flip", "flip", "cut", "extend", "pq-only", "trad-only", "swap-order", "pq-other-key", "trad-other-key", "other-key", "pq-other-msg", "trad-other-msg", "pq-other-ctx",
       "trad-other-ctx", "pq-alone", "trad-alone", "pq-mprime-noctx", "pq-other-label", "trad-other-label", "both-other-alg", "trad-raw-data", "wrong-pss", "other-oid", "empty", "pq-prefixless"]
bad = st.fixed_dictionaries({"alg": alg_st, "alg2": alg_st, "i": st.integers(0, 1), "data": data_st, "data2": data_st, "ctx": ctx_st, "ctx2": ctx_st, "how": st.sampled_from(HOW), "p": st.integers(0, 10**6)})


def parts(a, i, data, c):
    """The two parts, each made by the component key over the message representative."""
    m = a.mprime(data, c)
    return keys.get(a.pq, i).sign(m, ctx=a.label), a.trad_sign(keys.get(a.trad, i), m)


def forged(case, ctx):
    a, b = comp.BY_NAME[case["alg"]], comp.BY_NAME[case["alg2"]]
    i, data, c, p, how = case["i"], case["data"], case["ctx"], case["p"], case["how"]
    d2, c2 = case["data2"], case["ctx2"]
    m = a.mprime(data, c)
    pqk, trk = keys.get(a.pq, i), keys.get(a.trad, i)
    pub = keys.get(a.key, i).public_key()
    pq, tr = parts(a, i, data, c)
    vd, vc, pss = data, c, a.pss
    ctx.label(how, a.name)
    if how == "data":
        vd = d2 if d2 != data else data + b"\0"
    elif how in ("ctx", "ctx-add"):
        vc = c2 if how == "ctx" else (c + b"\0")[:255]
        if vc == c:
            return
    elif how == "pq-flip":
        pq = flip(pq, p)
    elif how == "trad-flip":
        tr = flip(tr, p)
    elif how == "other-key":
        pub = keys.get(a.key, 1 - i).public_key()
    elif how == "pq-other-key":
        pq = parts(a, 1 - i, data, c)[0]
    elif how == "trad-other-key":
        tr = parts(a, 1 - i, data, c)[1]
    elif how in ("pq-other-msg", "trad-other-msg"):
        if d2 == data:
            return
        x, y = parts(a, i, d2, c)
        pq, tr = (x, tr) if how[0] == "p" else (pq, y)
    elif how in ("pq-other-ctx", "trad-other-ctx"):
        if c2 == c:
            return
        x, y = parts(a, i, data, c2)
        pq, tr = (x, tr) if how[0] == "p" else (pq, y)
    elif how == "pq-alone":
        pq = pqk.sign(data)
    elif how == "trad-alone" or how == "trad-raw-data":
        tr = a.trad_sign(trk, data if how == "trad-raw-data" else a.prehash(data))
    elif how == "pq-mprime-noctx":
        pq = pqk.sign(m)
    elif how == "pq-prefixless":
        pq = pqk.sign(m[len(comp.PREFIX):], ctx=a.label)
    elif how in ("pq-other-label", "trad-other-label", "both-other-alg"):
        if b.name == a.name:
            return
        m2 = b.mprime(data, c)
        if how != "trad-other-label":
            pq = pqk.sign(m2, ctx=b.label)
        if how != "pq-other-label":
            tr = a.trad_sign(trk, m2)
    elif how == "wrong-pss":
        if "rsa" not in a.trad or (a.pq, a.trad, not a.pss) not in {(x.pq, x.trad, x.pss) for x in comp.ALGS}:
            return
        pss = not pss
    sig = pq + tr
    if how == "flip":
        sig = flip(sig, p)
    elif how == "cut":
        sig = sig[:-(1 + p % (len(sig) - 1))]
    elif how == "extend":
        sig += bytes(1 + p % 4)
    elif how == "pq-only":
        sig = pq
    elif how == "trad-only":
        sig = tr
    elif how == "swap-order":
        sig = tr + pq
    elif how == "empty":
        sig = b""
    elif how == "other-oid":
        if c or b.name == a.name:
            return
        ctx.nontrivial()
        ctx.rejects("verification with another composite AlgorithmIdentifier", PU.verify_signature_with_alg_id, pub, alg_id(b), data, sig, exc=(InvalidSignature, ValueError, CMPTestSuiteError))
        return
    if pss == a.pss and p % 5 == 0:
        x, y = a.verify(i if how != "other-key" else 1 - i, vd, sig, vc)
        ctx.check(not (x and y), "harness: the forged value is genuine")
    ctx.nontrivial()
    ctx.rejects(f"composite signature ({how})", pub.verify, data=vd, signature=sig, ctx=vc, use_pss=pss, exc=OK, key="forged-" + how)
    if not vc and pss == a.pss:
        ctx.rejects(f"composite signature ({how}) by AlgorithmIdentifier", PU.verify_signature_with_alg_id, pub, alg_id(a), vd, sig, exc=OK)


def flip(b, p):
    b = bytearray(b)
    b[p % len(b)] ^= 1 << (p // 7 % 8)
    return bytes(b)


PARAM_ALGS = [a.name for a in comp.ALGS if a.inner]
KINDS = ["salt0", "salt20", "salt+1", "max", "mgf", "hash", "padding", "pq-prehash", "pq-hashed", "pq-ctx+", "pq-ctx0"]
params_st = st.fixed_dictionaries({"alg": st.one_of(st.sampled_from([a.name for a in comp.ALGS if a.pss]), st.sampled_from(PARAM_ALGS)), "kind": st.sampled_from(KINDS),
                                   "i": st.integers(0, 1), "data": data_st, "ctx": ctx_st, "hash": st.sampled_from(["sha256", "sha384", "sha512"])})


def params(case, ctx):
    """Components over the right representative, made with other signature parameters than the algorithm prescribes."""
    a, i, kind = comp.BY_NAME[case["alg"]], case["i"], case["kind"]
    m = a.mprime(case["data"], case["ctx"])
    pq, tr = parts(a, i, case["data"], case["ctx"])
    key, pqk = keys.get(a.trad, i), keys.get(a.pq, i)
    h = comp.HASH[a.inner]
    h2 = comp.HASH[case["hash"]]
    is_rsa = "rsa" in a.trad
    if kind.startswith("pq"):
        if kind == "pq-prehash":
            pq = pqk.sign(m, ctx=a.label, hash_alg="sha512")
        elif kind == "pq-hashed":
            pq = pqk.sign(a.prehash(m), ctx=a.label)
        else:
            pq = pqk.sign(m, ctx=a.label + b"\0" if kind == "pq-ctx+" else b"")
    elif kind in ("hash", "mgf") or not is_rsa:
        if h2.name == h.name or (kind == "mgf" and not a.pss):
            return
        if not is_rsa:
            tr = key.sign(m, ec.ECDSA(h2))
        elif a.pss:
            hh = h if kind == "mgf" else h2
            tr = key.sign(m, padding.PSS(padding.MGF1(h2), hh.digest_size), hh)
        else:
            tr = key.sign(m, padding.PKCS1v15(), h2)
    elif kind == "padding":
        tr = key.sign(m, padding.PKCS1v15() if a.pss else padding.PSS(padding.MGF1(h), h.digest_size), h)
    else:
        if not a.pss:
            return
        n = {"salt0": 0, "salt20": 20, "salt+1": h.digest_size + 1, "max": padding.PSS.MAX_LENGTH}[kind]
        tr = key.sign(m, padding.PSS(padding.MGF1(h), n), h)
    ctx.label(kind, a.name)
    ctx.nontrivial()
    pub = keys.get(a.key, i).public_key()
    ctx.rejects(f"composite signature with a component made with other parameters ({kind})", pub.verify, data=case["data"], signature=pq + tr, ctx=case["ctx"], use_pss=a.pss, exc=OK, key="params-" + kind)


limits_st = st.fixed_dictionaries({"alg": alg_st, "data": data_st, "n": st.integers(256, 700)})


def limits(case, ctx):
    """Contexts above 255 bytes are refused on both sides."""
    a = comp.BY_NAME[case["alg"]]
    key = keys.get(a.key, 0)
    ctx.nontrivial()
    ctx.rejects("signing with a context above 255 bytes", key.sign, case["data"], ctx=bytes(case["n"]), use_pss=a.pss, exc=ValueError)
    sig = key.sign(case["data"], use_pss=a.pss)
    ctx.rejects("verifying with a context above 255 bytes", key.public_key().verify, data=case["data"], signature=sig, ctx=bytes(case["n"]), use_pss=a.pss, exc=(InvalidSignature, ValueError))


SUBS = [
    Sub("genuine", good, genuine, quick=90, thorough=6000, shards=3, text="signatures of the suite are composite signatures and verify"),
    Sub("forged", bad, forged, quick=230, thorough=15000, shards=4, text="forged composite signatures are refused"),
    Sub("params", params_st, params, quick=60, thorough=3000, shards=1, text="components made with other signature parameters"),
    Sub("limits", limits_st, limits, quick=15, thorough=400, shards=1, text="oversized contexts"),
]
