"""C15: ML-KEM, ML-DSA and SLH-DSA agree with FIPS 203, 204 and 205."""
import functools
import json
import os

from cryptography.exceptions import InvalidSignature
from hypothesis import strategies as st

from lib import fips as F
from lib.harness import Sub, VERIF
from pq_logic.fips import fips203, fips204, fips205
from pq_logic.keys.kem_keys import MLKEMPrivateKey, MLKEMPublicKey
from pq_logic.keys.sig_keys import MLDSAPrivateKey, MLDSAPublicKey, SLHDSAPrivateKey, SLHDSAPublicKey

PROPERTY = "C15"
TECHNIQUE = "differential testing against an independent implementation of FIPS 203/204/205, with generated malformed signatures and ciphertexts"
RULE = ("Seeds, messages, contexts, randomness and parameter sets are generated; signatures come from the suite and from the reference and are malformed in structured ways. "
        "Non-trivial: outputs were compared with the reference, or a malformed object differed from the genuine one.")
ASSUMPTIONS = ["lib/fips.py implements FIPS 203/204/205 correctly (written from the standards, ML-KEM and ML-DSA cross-checked against Go's crypto/mlkem and crypto/mldsa test values, all sets against each other)",
               "slh-dsa 's' parameter sets: signing by the suite only in the thorough tier (15 s per signature), verification of reference signatures in both"]

KEM = ["ml-kem-512", "ml-kem-768", "ml-kem-1024"]
DSA = ["ml-dsa-44", "ml-dsa-65", "ml-dsa-87"]
SLH_F = [f"slh-dsa-{h}-{n}f" for h in ("sha2", "shake") for n in (128, 192, 256)]
SLH_S = [x[:-1] + "s" for x in SLH_F]
b32 = st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([bytes(32), b"\xff" * 32]))
MSG = st.one_of(st.binary(max_size=200), st.sampled_from([b"", b"\x00", b"a" * 136, b"b" * 168, b"c" * 64, b"d" * 1000]))
CTX = st.one_of(st.just(b""), st.binary(max_size=40), st.integers(250, 255).map(lambda n: b"x" * n))
LONG = st.integers(256, 300).map(lambda n: b"y" * n)


# ---------------------------------------------------------------- ML-KEM
kem_case = st.fixed_dictionaries({"name": st.sampled_from(KEM), "d": b32, "z": b32, "m": b32,
                                  "bad": st.sampled_from(["flip", "flip", "zero", "ones", "random", "other"]), "pick": st.integers(0, 1 << 20),
                                  "size": st.sampled_from([-1, 1, -32, 32, 384, -384])})


def kem(case, ctx):
    n = case["name"]
    ctx.label(n, case["bad"])
    M = fips203.ML_KEM(n)
    ek, dk = F.kem_keygen(n, case["d"], case["z"])
    got = ctx.accepts("ML-KEM key generation", M.keygen_internal, case["d"], case["z"])
    ctx.eq((bytes(got[0]), bytes(got[1])), (ek, dk), f"{n} key pair")
    k, c = F.kem_encaps(n, ek, case["m"])
    ctx.eq(tuple(map(bytes, M.encaps_internal(ek, case["m"]))), (k, c), f"{n} encapsulation")
    ctx.eq(bytes(M.decaps_internal(dk, c)), k, f"{n} decapsulation")
    key = MLKEMPrivateKey.from_seed(alg_name=n, seed=case["d"] + case["z"])
    ctx.eq((key.private_bytes_raw(), key.public_key().public_bytes_raw()), (dk, ek), f"{n} key object from seed")
    other = MLKEMPrivateKey.from_private_bytes(dk, n)
    ctx.eq(other.public_key().public_bytes_raw(), ek, f"{n} public key of the expanded key")
    pub = MLKEMPublicKey.from_public_bytes(ek, n)
    k2, c2 = pub.encaps()
    ctx.eq((len(k2), len(c2)), (32, len(c)), f"{n} encaps sizes")
    ctx.eq(F.kem_decaps(n, dk, bytes(c2)), bytes(k2), f"{n} encaps of the key object, decapsulated by the reference")
    ctx.eq(bytes(key.decaps(c)), k, f"{n} decaps by the key object")
    b = bytearray(c)
    if case["bad"] == "flip":
        b[case["pick"] % len(b)] ^= 1 << (case["pick"] % 8)
    elif case["bad"] == "zero":
        b = bytearray(len(b))
    elif case["bad"] == "ones":
        b = bytearray(b"\xff" * len(b))
    elif case["bad"] == "random":
        b = bytearray(F.shake256(case["m"] + bytes([case["pick"] % 256]), len(b)))
    else:
        ek2, _ = F.kem_keygen(n, case["z"] + b"", case["d"])
        b = bytearray(F.kem_encaps(n, ek2, case["m"])[1])
    b = bytes(b)
    ctx.nontrivial()
    ctx.eq(bytes(other.decaps(b)), F.kem_decaps(n, dk, b), f"{n} decapsulation of a malformed ciphertext")
    if b != c:
        ctx.check(bytes(M.decaps_internal(dk, b)) != k, f"{n}: a malformed ciphertext yields the shared secret")
    s = case["size"]
    wrong = c[:s] if s < 0 else c + bytes(s)
    ctx.rejects(f"{n}: decaps of a ciphertext of {len(wrong)} bytes", key.decaps, wrong, exc=ValueError, key="ct-length")


# ---------------------------------------------------------------- ML-DSA
dsa_case = st.fixed_dictionaries({"name": st.sampled_from(DSA), "xi": b32, "rnd": b32, "msg": MSG, "ctx": CTX,
                                  "mode": st.sampled_from(["pure", "pure", "sha512"]), "long": LONG})


@functools.lru_cache(maxsize=64)
def dsa_key(n, xi):
    return F.dsa_keygen(n, xi)


def mldsa(case, ctx):
    n, msg, c = case["name"], case["msg"], case["ctx"]
    ctx.label(n, case["mode"])
    M = fips204.ML_DSA(n)
    pk, sk = dsa_key(n, case["xi"])
    ctx.eq(tuple(map(bytes, M.keygen_internal(case["xi"]))), (pk, sk), f"{n} key pair")
    pure = case["mode"] == "pure"
    if pure:
        got = M.sign(sk, msg, c, case["rnd"])
    else:
        got = M.hash_ml_dsa_sign(sk, msg, c, "SHA-512", case["rnd"])
    ctx.nontrivial()
    ctx.eq(bytes(got), F.dsa_sign(n, sk, msg, case["rnd"], c, None if pure else "sha512"), f"{n} signature")
    key = MLDSAPrivateKey.from_seed(n, case["xi"])
    ctx.eq((key.private_bytes_raw(), key.public_key().public_bytes_raw()), (sk, pk), f"{n} key object from seed")
    ctx.eq(MLDSAPrivateKey.from_private_bytes(sk, n).public_key().public_bytes_raw(), pk, f"{n} public key derived from the expanded key")
    h = None if pure else "sha512"
    sig = key.sign(msg, hash_alg=h, ctx=c)
    ctx.check(F.dsa_verify(n, pk, msg, bytes(sig), c, h), f"{n}: signature of the key object does not verify with the reference")
    ctx.accepts(f"{n}: verifying a correct signature", MLDSAPublicKey.from_public_bytes(pk, n).verify, sig, msg, hash_alg=h, ctx=c)
    ctx.rejects(f"{n}: signing with a context of {len(case['long'])} bytes", key.sign, msg, ctx=case["long"], exc=ValueError)


HINT = ["swap", "dup", "pad", "count-down", "count-over", "pad-all"]
bad_case = st.fixed_dictionaries({"name": st.sampled_from(DSA), "xi": st.integers(0, 5), "rnd": st.binary(min_size=32, max_size=32), "msg": st.binary(min_size=1, max_size=40), "ctx": st.one_of(st.just(b""), st.binary(max_size=20)),
                                  "mode": st.sampled_from([None, None, "sha512"]), "pick": st.integers(0, 1 << 30), "val": st.integers(0, 255),
                                  "bad": st.sampled_from(["flip", "flip-c", "flip-h", "cut", "extend", "znorm", "znorm", "msg", "ctx", "mode", "key", "empty", "none", "zeros"] + HINT + HINT)})


def malform_hint(sig, om, k, kind, pick, val):
    """Rewrite the hint part of an ML-DSA signature in a non-canonical way (None if impossible for this one)."""
    off = len(sig) - om - k
    y = bytearray(sig[off:])
    cnt = list(y[om:])
    if kind in ("swap", "dup"):
        start = 0
        spots = []
        for c in cnt:
            spots += [(i, i + 1) for i in range(start, c - 1)]
            start = c
        if not spots:
            return None
        a, b = spots[pick % len(spots)]
        if kind == "swap":
            y[a], y[b] = y[b], y[a]
        else:
            y[b] = y[a]
    elif kind in ("pad", "pad-all"):
        if cnt[-1] >= om:
            return None
        if kind == "pad":
            y[cnt[-1] + pick % (om - cnt[-1])] = val or 1
        else:
            y[om - 1] = max(1, val)
    elif kind == "count-down":
        i = pick % (k - 1)
        y[om + i] = min(255, y[om + i + 1] + 1)
    else:
        y[om + k - 1] = om + 1 + pick % 40
    return sig[:off] + bytes(y)


def mldsa_bad(case, ctx):
    n, msg, c, mode = case["name"], case["msg"], case["ctx"], case["mode"]
    k, l, eta, tau, lam, g1, g2, om = F.DSA[n]
    pk, sk = dsa_key(n, bytes([case["xi"]]) * 32)
    mp = F.format_message(msg, c, mode)
    bad, p = case["bad"], case["pick"]
    vm, vc, vmode, vpk = msg, c, mode, pk
    if bad == "znorm":
        b = g1 - tau * eta
        sig = F.dsa_sign_internal(n, sk, mp, case["rnd"], 0, (b, g1))
    else:
        sig = F.dsa_sign_internal(n, sk, mp, case["rnd"])
    b = bytearray(sig)
    if bad == "flip":
        b[p % len(b)] ^= 1 << (p % 8)
    elif bad == "flip-c":
        b[p % (lam // 4)] ^= 1 << (p % 8)
    elif bad == "flip-h":
        i = len(b) - 1 - p % (om + k)
        b[i] ^= 1 << (p % 8)
    elif bad == "cut":
        b = b[:-(1 + p % 100)] if p % 3 else b[:-1]
    elif bad == "extend":
        b += bytes(1 + p % 40)
    elif bad == "empty":
        b = bytearray()
    elif bad == "zeros":
        b = bytearray(len(b))
    elif bad == "msg":
        vm = msg + b"\x00" if p % 2 else bytes([msg[0] ^ 1]) + msg[1:]
    elif bad == "ctx":
        vc = c + b"\x00" if p % 2 or not c else c[:-1]
    elif bad == "mode":
        vmode = "sha512" if mode is None else None
    elif bad == "key":
        vpk, _ = dsa_key(n, bytes([case["xi"] + 7]) * 32)
    elif bad in HINT:
        m = malform_hint(sig, om, k, bad, p, case["val"])
        if m is None:
            ctx.label("n/a")
            return
        b = m
    b = bytes(b)
    want = F.dsa_verify(n, vpk, vm, b, vc, vmode)
    ctx.label(n, bad, str(want))
    ctx.nontrivial()
    M = fips204.ML_DSA(n)
    pub = MLDSAPublicKey.from_public_bytes(vpk, n)
    if want:
        ctx.check(bad in ("none", "flip-h", "flip"), f"{n}: reference accepts a {bad} signature")  # never expected besides "none"
        ctx.accepts(f"{n}: verifying a correct signature", pub.verify, b, vm, hash_alg=vmode, ctx=vc)
        return
    ctx.rejects(f"{n}: signature with {bad}", pub.verify, b, vm, hash_alg=vmode, ctx=vc, exc=(InvalidSignature, ValueError), key="mldsa-" + bad)
    if vmode is None and len(b) == len(sig):
        ctx.check(not M.verify(vpk, vm, b, vc), f"{n}: the FIPS class accepts a signature with {bad}", key="mldsa-" + bad)


def boundary(case, ctx):
    n, which, pk, sig = json.load(open(os.path.join(VERIF, "fixtures", "mldsa_boundary.json"), encoding="utf-8"))[case["i"]]
    pk, sig = bytes.fromhex(pk), bytes.fromhex(sig)
    ctx.label(n, which)
    ctx.nontrivial()
    pub = MLDSAPublicKey.from_public_bytes(pk, n)
    if which == "good":
        ctx.accepts(f"{n}: signature with the largest allowed coefficient", pub.verify, sig, b"boundary")
    else:
        ctx.rejects(f"{n}: signature with a coefficient at the bound", pub.verify, sig, b"boundary", exc=InvalidSignature)


# ---------------------------------------------------------------- SLH-DSA
def slh_case(names):
    return st.fixed_dictionaries({"name": st.sampled_from(names), "seed": st.integers(0, 40), "rnd": st.one_of(st.none(), st.binary(min_size=32, max_size=32)),
                                  "msg": MSG, "ctx": CTX, "mode": st.sampled_from(["pure", "hash"]), "hash": st.integers(0, 9), "pick": st.integers(0, 1 << 30),
                                  "bad": st.sampled_from(["flip", "flip", "flip", "r", "cut", "extend", "msg", "ctx", "key", "mode", "empty"])})


@functools.lru_cache(maxsize=64)
def slh_key(n, i):
    S = F.Slh(n)
    nn = int(n.split("-")[3][:3]) // 8
    seed = F.shake256(b"slh %d" % i, 3 * nn)
    return (seed,) + tuple(S.keygen(seed[:nn], seed[nn:2 * nn], seed[2 * nn:]))


def ph_for(name, h):
    """Pre-hash algorithm the suite names for the parameter set (RFC 9909: one per set)."""
    n = int(name.split("-")[3][:3])
    if "shake" in name:
        return "shake128" if n == 128 else "shake256"
    return "sha256" if n == 128 else "sha512"


def slh_sign(case, ctx):
    n, msg, c = case["name"], case["msg"], case["ctx"]
    S, P = F.Slh(n), fips205.SLH_DSA_PARAMS[n]
    seed, pk, sk = slh_key(n, case["seed"])
    nn = len(pk) // 2
    ph = None if case["mode"] == "pure" else ph_for(n, case["hash"])
    ctx.label(n, case["mode"])
    key = SLHDSAPrivateKey.from_seed(alg_name=n, seed=seed)
    ctx.eq((key.private_bytes_raw(), key.public_key().public_bytes_raw()), (sk, pk), f"{n} key pair")
    rnd = None if case["rnd"] is None else case["rnd"][:nn]
    if ph is None:
        got = P.slh_sign(msg, c, sk, rnd)
    else:
        got = P.hash_slh_sign(msg, c, {"sha256": "sha-256", "sha512": "sha-512"}.get(ph, ph), sk, rnd)
    ctx.nontrivial()
    ctx.eq(bytes(got), S.sign(sk, msg, sk[2 * nn:3 * nn] if rnd is None else rnd, c, ph), f"{n} signature")
    sig = key.sign(msg, hash_alg=ph, ctx=c)
    ctx.check(S.verify(pk, msg, bytes(sig), c, ph), f"{n}: signature of the key object does not verify with the reference")
    slh_check(case, ctx, n, pk, msg, c, ph, bytes(sig))


def slh_check(case, ctx, n, pk, msg, c, ph, sig):
    """The suite accepts the genuine signature and refuses one malformation of it."""
    pub = SLHDSAPublicKey.from_public_bytes(pk, n)
    ctx.accepts(f"{n}: verifying a correct signature", pub.verify, sig, msg, hash_alg=ph, ctx=c)
    b, p, bad = bytearray(sig), case["pick"], case["bad"]
    vm, vc, vh = msg, c, ph
    if bad == "flip":
        b[p % len(b)] ^= 1 << (p % 8)
    elif bad == "r":
        b[p % 16] ^= 1 << (p % 8)
    elif bad == "cut":
        b = b[:-(1 + p % 20)]
    elif bad == "extend":
        b += bytes(1 + p % 20)
    elif bad == "empty":
        b = bytearray()
    elif bad == "msg":
        vm = msg + b"\x00"
    elif bad == "ctx":
        vc = c[:-1] if c else b"\x00"
    elif bad == "mode":
        vh = ph_for(n, case["hash"]) if ph is None else None
    else:
        pub = SLHDSAPublicKey.from_public_bytes(slh_key(n, case["seed"] + 1)[1], n)
    ctx.label("bad-" + bad)
    ctx.rejects(f"{n}: signature with {bad}", pub.verify, bytes(b), vm, hash_alg=vh, ctx=vc, exc=(InvalidSignature, ValueError), key="slh-" + bad)


def slh_verify(case, ctx):
    n, msg, c = case["name"], case["msg"], case["ctx"]
    S = F.Slh(n)
    _seed, pk, sk = slh_key(n, case["seed"] % 2)
    case = dict(case, seed=case["seed"] % 2)
    nn = len(pk) // 2
    ph = None if case["mode"] == "pure" else ph_for(n, case["hash"])
    ctx.label(n, case["mode"])
    sig = S.sign(sk, msg, (case["rnd"] or bytes(32))[:nn], c, ph)
    ctx.nontrivial()
    slh_check(case, ctx, n, pk, msg, c, ph, sig)


SUBS = [
    Sub("kem", kem_case, kem, quick=80, thorough=3000, shards=2, text="ML-KEM key generation, encapsulation, decapsulation including implicit rejection"),
    Sub("mldsa", dsa_case, mldsa, quick=50, thorough=2500, shards=3, text="ML-DSA key generation and signing, pure and pre-hash"),
    Sub("mldsa-bad", bad_case, mldsa_bad, quick=380, thorough=20000, shards=3, text="ML-DSA verification of malformed signatures"),
    Sub("mldsa-bound", st.fixed_dictionaries({"i": st.integers(0, 5)}), boundary, quick=12, thorough=12, shards=1, examples=[{"i": i} for i in range(6)], text="ML-DSA coefficient bound"),
    Sub("slh-sign", slh_case(SLH_F), slh_sign, quick=26, thorough=1200, shards=4, text="SLH-DSA fast parameter sets: key generation, signing, malformed signatures"),
    Sub("slh-s", slh_case(SLH_S), slh_verify, quick=8, thorough=300, shards=4, text="SLH-DSA small parameter sets: verification of reference signatures"),
    Sub("slh-s-sign", slh_case(SLH_S[:1] + SLH_S[3:4]), slh_sign, quick=0, thorough=16, shards=8, text="SLH-DSA small parameter sets: signing"),
]
