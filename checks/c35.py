"""C35: algorithm identifiers, names and keys map to each other consistently."""
import hashlib

from hypothesis import strategies as st

from checks import c03
from lib import comp, der as D, keys, pki
from lib.harness import Skip, Sub
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc9480
from pq_logic import pq_utils, tmp_oids
from resources import checkutils, compareutils, keyutils, oid_mapping, oidutils, prepare_alg_ids, protectionutils
from resources.exceptions import CMPTestSuiteError

PROPERTY = "C35"
TECHNIQUE = "generated algorithm/key/hash/parameter combinations against an independent table of object identifiers and DER encodings, round trips between names, identifiers and keys, and all mismatching pairs"
RULE = "every generated case names an algorithm, a key or a pair of both; pairs are drawn from all supported algorithms and keys, so most of them do not fit"
ASSUMPTIONS = ["the table of object identifiers in this file and in checks/c03.py is transcribed from RFC 8017, 5758, 8410, 8692, 9688, 9481, 9690, 8018, 4231, 9044, 5084, 3565, FIPS 203-205 registrations"]

N3 = "2.16.840.1.101.3.4."
SHA = {"sha1": "1.3.14.3.2.26", "sha224": N3 + "2.4", "sha256": N3 + "2.1", "sha384": N3 + "2.2", "sha512": N3 + "2.3", "sha3_224": N3 + "2.7", "sha3_256": N3 + "2.8",
       "sha3_384": N3 + "2.9", "sha3_512": N3 + "2.10", "shake128": N3 + "2.11", "shake256": N3 + "2.12"}
HM = {"sha1": "1.3.6.1.5.5.8.1.2", "sha224": "1.2.840.113549.2.8", "sha256": "1.2.840.113549.2.9", "sha384": "1.2.840.113549.2.10", "sha512": "1.2.840.113549.2.11",
      "sha3_224": N3 + "2.13", "sha3_256": N3 + "2.14", "sha3_384": N3 + "2.15", "sha3_512": N3 + "2.16"}
P1 = "1.2.840.113549.1.1."
RSA = {"sha1": P1 + "5", "sha224": P1 + "14", "sha256": P1 + "11", "sha384": P1 + "12", "sha512": P1 + "13", "sha3_224": N3 + "3.13", "sha3_256": N3 + "3.14", "sha3_384": N3 + "3.15",
       "sha3_512": N3 + "3.16"}
EC = {"sha224": "1.2.840.10045.4.3.1", "sha256": "1.2.840.10045.4.3.2", "sha384": "1.2.840.10045.4.3.3", "sha512": "1.2.840.10045.4.3.4", "shake128": "1.3.6.1.5.5.7.6.32",
      "shake256": "1.3.6.1.5.5.7.6.33", "sha3_224": N3 + "3.9", "sha3_256": N3 + "3.10", "sha3_384": N3 + "3.11", "sha3_512": N3 + "3.12"}
PSS = {"sha256": P1 + "10", "shake128": "1.3.6.1.5.5.7.6.30", "shake256": "1.3.6.1.5.5.7.6.31"}
ML = {f"ml-dsa-{n}": N3 + f"3.{17 + i}" for i, n in enumerate((44, 65, 87))}
ML.update({f"ml-dsa-{n}-sha512": N3 + f"3.{32 + i}" for i, n in enumerate((44, 65, 87))})
SLH = {n: N3 + f"3.{20 + i}" for i, n in enumerate(c03.SLH_ORDER)}
SLH.update({n + "-" + c03.slh_ph(n): N3 + f"3.{35 + i}" for i, n in enumerate(c03.SLH_ORDER)})
KEM = {f"ml-kem-{n}": N3 + f"4.{i + 1}" for i, n in enumerate((512, 768, 1024))}
STATEFUL = {"hss": "1.2.840.113549.1.9.16.3.17", "xmss": "1.3.6.1.5.5.7.6.34", "xmssmt": "1.3.6.1.5.5.7.6.35"}
ED = {"ed25519": "1.3.101.112", "ed448": "1.3.101.113"}
WRAP = {f"aes{b}_wrap": N3 + f"1.{n}" for b, n in ((128, 5), (192, 25), (256, 45))}
CBC = {f"aes{b}_cbc": N3 + f"1.{n}" for b, n in ((128, 2), (192, 22), (256, 42))}
GCM = {f"aes{b}_gcm": N3 + f"1.{n}" for b, n in ((128, 6), (192, 26), (256, 46))}
GMAC = {f"aes{b}_gmac": N3 + f"1.{n}" for b, n in ((128, 9), (192, 29), (256, 49))}
HKDF = {"sha256": "1.2.840.113549.1.9.16.3.28", "sha384": "1.2.840.113549.1.9.16.3.29", "sha512": "1.2.840.113549.1.9.16.3.30"}
KMAC = {"shake128": N3 + "2.19", "shake256": N3 + "2.20"}
MACS = {"password_based_mac": "1.2.840.113533.7.66.13", "pbmac1": "1.2.840.113549.1.5.14", "dh_based_mac": "1.2.840.113533.7.66.30", "kem_based_mac": "1.2.840.113533.7.66.16"}
# names which the suite prints and reads for an identifier
NAMES = {"ecPublicKey": "1.2.840.10045.2.1", "x25519": "1.3.101.110", "x448": "1.3.101.111", "rsa": P1 + "1", "xwing": "1.3.6.1.4.1.62253.25722", "pbkdf2": "1.2.840.113549.1.5.12", **ED, **ML, **SLH, **KEM, **STATEFUL, **WRAP, **CBC, **GMAC, **MACS,
         **{"hmac-" + h: o for h, o in HM.items()}, **{"rsa-" + h: o for h, o in RSA.items()}, **{"ecdsa-" + h: o for h, o in EC.items()},
         **{"rsassa_pss-" + h: o for h, o in PSS.items()}, **{"kmac-" + h: o for h, o in KMAC.items()}, **{"hkdf-" + h: o for h, o in HKDF.items()}, **SHA}
SIGS = {**{"rsa-" + h: o for h, o in RSA.items()}, **{"ecdsa-" + h: o for h, o in EC.items()}, **{"rsassa_pss-" + h: o for h, o in PSS.items()}, **ED, **ML, **SLH, "hss": STATEFUL["hss"]}
REFUSE = (CMPTestSuiteError, ValueError)
SKEYS = ["rsa2048", "rsa3072", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:brainpoolP256r1", "ed25519", "ed448", "ml-dsa-44", "ml-dsa-65", "ml-dsa-87",
         "slh-dsa-sha2-128f", "slh-dsa-shake-128f", "slh-dsa-sha2-192f", "slh-dsa-shake-256f", "hss_lms_sha256_m32_h5_lmots_sha256_n32_w4"]


def family_pairs():
    out = []
    for m in (oidutils, tmp_oids):
        for n in sorted(dir(m)):
            for a, b in (("_NAME_2_OID", "_OID_2_NAME"), ("_NAME_TO_OID", "_OID_TO_NAME")):
                if n.endswith(a) and isinstance(getattr(m, n), dict) and isinstance(getattr(m, n[:-len(a)] + b, None), dict):
                    out.append((m, n, n[:-len(a)] + b))
    return out


def run_names(case, ctx):
    name = sorted(NAMES)[case["n"] % len(NAMES)]
    oid = univ.ObjectIdentifier(NAMES[name])
    ctx.eq(ctx.accepts(f"name of {NAMES[name]}", oid_mapping.may_return_oid_to_name, oid), name, f"name of {NAMES[name]}", key="oid-name")
    ctx.eq(str(ctx.accepts(f"identifier of {name}", oid_mapping.may_return_oid_by_name, name)), NAMES[name], f"identifier of {name}", key="name-oid")
    ctx.eq(str(ctx.accepts("identifier of a dotted name", oid_mapping.may_return_oid_by_name, NAMES[name])), NAMES[name], "dotted", key="dotted")
    alg = ctx.accepts("AlgorithmIdentifier of a name", prepare_alg_ids.prepare_alg_id, name)
    ctx.eq(encoder.encode(alg), D.seq(D.oid(NAMES[name])), f"AlgorithmIdentifier of {name}", key="prepare-alg-id")
    pairs = family_pairs()
    if ctx.check(len(pairs) > 5, "families of names not found", key="families"):
        m, a, b = pairs[case["f"] % len(pairs)]
        fwd, back = getattr(m, a), getattr(m, b)
        if a == "CURVE_NAME_2_OID":
            back = {o: n for o, n in back.items() if n in fwd}
        entries = sorted(back.items(), key=lambda x: str(x[0]))
        o, n = entries[case["e"] % len(entries)]
        ctx.eq(str(fwd.get(n)), str(o), f"{a}[{b}[{o}]]", key="family-" + a)
        n, o = sorted(fwd.items(), key=lambda x: str(x[0]))[case["e"] % len(fwd)]
        ctx.check(str(fwd.get(back.get(o))) == str(o), f"{b}[{a}[{n}]] is {back.get(o)}", key="family-" + b)
        ctx.label("family:" + a)
    ctx.label("name:" + name)
    ctx.nontrivial("name:" + name)


def hash_of(name):
    return name.split("-", 1)[1] if name.startswith(("rsa-", "ecdsa-", "rsassa_pss-", "hmac-")) else (name.rsplit("-", 1)[1] if name in ML and name.endswith("sha512") or name in SLH and name.count("-") == 4 else None)


def run_hash(case, ctx):
    pool = {**SIGS, **{"hmac-" + h: o for h, o in HM.items()}, **SHA}
    name = sorted(pool)[case["n"] % len(pool)]
    oid = univ.ObjectIdentifier(pool[name])
    want = name if name in SHA else hash_of(name)
    got = ctx.accepts(f"hash of {name}", oid_mapping.get_hash_from_oid, oid, only_hash=True)
    ctx.eq(got, want, f"hash of {name}", key="only-hash")
    if want and name not in ML and name not in SLH:
        ctx.eq(oid_mapping.get_hash_from_oid(oid), name, f"full name of {name}", key="hash-name")
    if want:
        ctx.eq(oid_mapping.compute_hash(want, case["data"]), hashlib.new(want, case["data"]).digest(*([{"shake128": 32, "shake256": 64}[want]] if want in ("shake128", "shake256") else [])),
               f"digest {want}", key="digest")
        if name in SHA or name.startswith("hmac"):
            ctx.eq(str(ctx.accepts("identifier of a hash name", oid_mapping.sha_alg_name_to_oid, name)), pool[name], f"identifier of {name}", key="hash-oid")
    if name in SIGS and name != "hss":
        digest = want or {"ed25519": "sha512", "ed448": "shake256"}.get(name) or ("sha512" if name in ML else c03.slh_ph(name))
        alg = rfc9480.AlgorithmIdentifier()
        alg["algorithm"] = oid
        ctx.eq(ctx.accepts(f"digest for {name}", oid_mapping.get_digest_hash_alg_from_alg_id, alg), digest, f"digest for {name}", key="sig-digest")
    ctx.label("alg:" + name)
    ctx.nontrivial("hash:" + name)


def base(k):
    return k.split("_")[0] if k.startswith("hss") else k


def fits(alg, k):
    if k.startswith("rsa"):
        return alg.startswith("rsa")
    if k.startswith("ec:"):
        return alg.startswith("ecdsa")
    return alg == base(k) or alg.startswith(k + "-") and (k in ML or k in SLH)


CKEYS = ["composite-sig:ml-dsa-44:rsa2048", "composite-sig:ml-dsa-65:ec:secp384r1", "composite-sig:ml-dsa-65:rsa3072", "composite-sig:ml-dsa-87:ed448", "composite-sig:ml-dsa-44:ed25519", "ml-dsa-44",
         "ml-dsa-65", "ml-dsa-87", "rsa2048", "ec:secp384r1", "ed448"]


def run_comp(case, ctx):
    """Composite signature identifiers."""
    k = CKEYS[case["k"] % len(CKEYS)]
    algs = sorted((n, o) for o, n in tmp_oids.COMPOSITE_SIG_OID_TO_NAME.items())
    key = keys.get(k, 0)
    own = {}
    if k.startswith("composite"):
        for pss in (False, True):
            try:
                own[str(key.get_oid(use_pss=pss))] = pss
            except CMPTestSuiteError:
                ctx.label("no pss variant")
    if case["near"] and own:
        oid = sorted(own)[case["a"] % len(own)]
    else:
        oid = str(algs[case["a"] % len(algs)][1])
    alg = rfc9480.AlgorithmIdentifier()
    alg["algorithm"] = univ.ObjectIdentifier(oid)
    name = oid_mapping.may_return_oid_to_name(alg["algorithm"])
    parts = k.split(":")[1:]
    want = oid in own
    what = f"{name} with {k}"
    if k.startswith("composite"):
        pq, trad = parts[0], parts[-1]
        right = pq in name and (trad.replace("rsa", "rsa-") if "rsa" in trad else trad) in name.replace("rsa_", "rsa-").replace("rsa2", "rsa-2").replace("rsa3", "rsa-3")
        ctx.check(right or not want, f"{what}: the name does not speak of the parts", key="comp-name")
    for kk in (key, key.public_key()):
        if want:
            ctx.accepts(what, keyutils.check_consistency_sig_alg_id_and_key, alg, kk, key="comp-fit")
        else:
            ctx.rejects(what, keyutils.check_consistency_sig_alg_id_and_key, alg, kk, exc=REFUSE, key="comp-unfit")
    if k.startswith("composite"):
        cert = pki.obj(pki.make(pki.name("fit"), (k, 0), pki.name("ca"), ("ed25519", 0)))
        ctx.eq(bool(ctx.accepts(what + ": certificate", checkutils.check_protection_alg_conform_to_spki, alg, cert)), want, what + ": certificate", key="comp-conform")
    if want:
        sig = ctx.accepts(what + ": signature", protectionutils.sign_data_with_alg_id, key, alg, b"data")
        ctx.accepts(what + ": verification", protectionutils.verify_signature_with_alg_id, key.public_key(), alg, b"data", sig, key="comp-verify")
        for o in own:
            if o != oid:
                alg["algorithm"] = univ.ObjectIdentifier(o)
                ctx.rejects(what + " verified under the other variant", protectionutils.verify_signature_with_alg_id, key.public_key(), alg, b"data", sig, exc=(c03.InvalidSignature,) + REFUSE, key="comp-variant")
    else:
        ctx.rejects(what + ": verification", protectionutils.verify_signature_with_alg_id, key.public_key(), alg, b"data", b"\0" * 3000, exc=(c03.InvalidSignature, TypeError) + REFUSE, key="comp-verify")
    ctx.label("key:" + k, f"fits:{want}")
    ctx.nontrivial(f"comp:{k}:{name}")


PRM = [None, b"\x05\x00", b"\x04\x02ab", b"\x30\x00"]


def alg_obj(alg, p):
    der = {"rsassa_pss-sha256": c03.expected_alg({"key": "rsa2048", "hash": "sha256", "prot": "rsassa-pss"})}.get(alg)
    if der is None or p != "right":
        q = (D.null() if alg.startswith("rsa-") else b"") if p == "right" else PRM[p] or b""
        der = D.seq(D.oid(SIGS[alg]), q)
    return decoder.decode(der, asn1Spec=rfc9480.AlgorithmIdentifier())[0], der


def run_fit(case, ctx):
    k = SKEYS[case["k"] % len(SKEYS)]
    names = sorted(SIGS)
    if case["near"]:
        names = [a for a in names if fits(a, k)]
    alg = names[case["a"] % len(names)]
    obj, _ = alg_obj(alg, "right")
    key = keys.get(k, 0)
    if not case["priv"]:
        key = key.public_key()
    want = fits(alg, k)
    what = f"{alg} with a {'private' if case['priv'] else 'public'} {k} key"
    if want:
        ctx.accepts(what, keyutils.check_consistency_sig_alg_id_and_key, obj, key, key="fit")
    else:
        ctx.rejects(what, keyutils.check_consistency_sig_alg_id_and_key, obj, key, exc=REFUSE, key="unfit")
    cert = pki.obj(pki.make(pki.name("fit"), (k, 0), pki.name("ca"), ("ed25519", 0)))
    got = ctx.accepts(what + ": certificate", checkutils.check_protection_alg_conform_to_spki, obj, cert)
    ctx.eq(bool(got), want, what + ": protection with the certificate", key="conform")
    sig = b"\x00" * 64
    if not want:
        ctx.rejects(what + ": verification", protectionutils.verify_signature_with_alg_id, keys.get(k, 0).public_key(), obj, b"data", sig,
                    exc=REFUSE + (c03.InvalidSignature, TypeError), key="unfit-verify")
    ctx.label("key:" + base(k).split(":")[0], f"fits:{want}")
    ctx.nontrivial(f"fit:{alg}:{k}")




def run_write(case, ctx):
    s = case["s"]
    if s["key"] == "rsa2048" and s["prot"] == "rsassa-pss" and s["hash"] not in PSS:
        s = dict(s, hash="sha256")
    key = keys.get(s["key"], s["i"])
    alg = ctx.accepts(f"alg id for {s['key']} {s['hash']}", prepare_alg_ids.prepare_sig_alg_id, key, hash_alg=s["hash"], use_rsa_pss=s["prot"] == "rsassa-pss") \
        if not (s["prot"] == "rsassa-pss" and s["hash"] not in PSS) else ctx.accepts("PSS", prepare_alg_ids.prepare_rsa_pss_alg_id, s["hash"])
    der = encoder.encode(alg)
    if ctx.eq(der, c03.expected_alg(s), f"signature AlgorithmIdentifier for {s['key']}, hash {s['hash']}, {s['prot']}", key="sig"):
        back = decoder.decode(der, asn1Spec=rfc9480.AlgorithmIdentifier())[0]
        ctx.accepts("own key", keyutils.check_consistency_sig_alg_id_and_key, back, key, key="own")
        sig = ctx.accepts("signature", protectionutils.sign_data_with_alg_id, key, back, case["data"])
        ctx.accepts("verification", protectionutils.verify_signature_with_alg_id, key.public_key(), back, case["data"], sig, key="verify")
        ctx.check(c03.independent(s, case["data"], sig), "independent verification refuses the signature made for the identifier", key="independent")
    ctx.label("key:" + s["key"].split(":")[0], f"hash:{s['hash']}")
    ctx.nontrivial("write")


def run_params(case, ctx):
    """Parameters which must be absent, NULL or present."""
    names = sorted(SIGS)
    alg = names[case["a"] % len(names)]
    p = case["p"] % len(PRM)
    obj, der = alg_obj(alg, p)
    k = [x for x in SKEYS if fits(alg, x)]
    if not k:
        k = [alg.rsplit("-", 1)[0] if alg not in ED and hash_of(alg) else alg]
        ctx.label("nokey")
    else:
        key = keys.get(k[0], 0).public_key()
        good = p == (1 if alg.startswith("rsa-") else 0)
        if alg == "rsassa_pss-sha256":
            good = p == 3
        what = f"{alg} with parameters {PRM[p].hex() if PRM[p] else 'absent'}"
        if not good:
            ctx.rejects(what, protectionutils.verify_signature_with_alg_id, key, obj, b"data", b"\x00" * 64, exc=REFUSE + (c03.InvalidSignature, TypeError), key="params")
            try:
                protectionutils.verify_signature_with_alg_id(key, obj, b"data", b"\x00" * 64)
            except Exception as e:
                ctx.check(not isinstance(e, c03.InvalidSignature) or alg == "rsassa_pss-sha256", f"{what}: parameters not noticed, refused as a wrong signature", key="params-unnoticed")
    ctx.eq(compareutils.check_if_alg_id_parameters_is_absent(obj), p == 0, f"{alg} {PRM[p]}: absent?", key="absent")
    ctx.eq(compareutils.check_if_alg_id_parameters_is_absent(obj, allow_null=True), p in (0, 1), f"{alg} {PRM[p]}: absent or NULL?", key="absent-null")
    built = rfc9480.AlgorithmIdentifier()
    built["algorithm"] = univ.ObjectIdentifier(SIGS[alg])
    if p:
        built["parameters"] = decoder.decode(PRM[p])[0] if p != 3 else univ.Any(PRM[p])
    ctx.eq(compareutils.check_if_alg_id_parameters_is_absent(built), p == 0, f"{alg} {PRM[p]}: absent (built)?", key="absent-built")
    ctx.eq(compareutils.check_if_alg_id_parameters_is_absent(built, allow_null=True), p in (0, 1), f"{alg} {PRM[p]}: absent or NULL (built)?", key="absent-null-built")
    from resources import certutils
    if alg in ML or alg in SLH:
        if p == 0:
            ctx.accepts(f"{alg} without parameters", certutils.validate_migration_alg_id, obj, key="migration")
        else:
            ctx.rejects(f"{alg} with parameters", certutils.validate_migration_alg_id, obj, exc=REFUSE, key="migration")
    elif alg != "hss":
        ctx.rejects(f"{alg}: not a post-quantum algorithm", certutils.validate_migration_alg_id, obj, exc=REFUSE, key="migration-trad")
    ctx.label(f"params:{p}")
    ctx.nontrivial(f"params:{alg}:{p}")


def hash_alg(h):
    return D.seq(D.oid(SHA[h]), D.null())


def run_other(case, ctx):
    """Hash, MAC, KDF, key wrap and cipher identifiers."""
    kind, salt, n, L = case["kind"], case["salt"], case["iter"], case["len"]
    h = sorted(SHA)[case["h"] % len(SHA)]
    hm = sorted(HM)[case["h"] % len(HM)]
    P = prepare_alg_ids
    pb = lambda hh: D.seq(D.oid("1.2.840.113549.1.5.12"), D.seq(D.octets(salt), D.integer(n), D.integer(L), D.seq(D.oid(HM[hh]), *prf_null)))
    prf_null = [D.null()]
    got, want = None, None
    if kind == "hash":
        got, want = P.prepare_sha_alg_id(h), hash_alg(h)
    elif kind == "hmac":
        got, want = P.prepare_hmac_alg_id(hm), D.seq(D.oid(HM[hm]))
    elif kind == "kmac":
        x = sorted(KMAC)[case["h"] % 2]
        got, want = P.prepare_kmac_alg_id(x), D.seq(D.oid(KMAC[x]))
        ctx.rejects("KMAC with another hash", P.prepare_kmac_alg_id, "sha256", exc=REFUSE)
    elif kind == "gmac":
        x = sorted(GMAC)[case["h"] % 3]
        got, want = P.prepare_aes_gmac_prot_alg_id(x, salt[:12]), D.seq(D.oid(GMAC[x]), D.seq(D.octets(salt[:12]), D.integer(16)))
    elif kind == "wrap":
        x = sorted(WRAP)[case["h"] % 3]
        got, want = P.prepare_wrap_alg_id(x), D.seq(D.oid(WRAP[x]))
    elif kind == "cbc":
        x = sorted(CBC)[case["h"] % 3]
        from pyasn1.type import univ as u
        got = P.prepare_symmetric_encr_alg_id("cbc", value=u.OctetString(salt[:16]), length=int(x[3:6]) // 8)
        want = D.seq(D.oid(CBC[x]), D.octets(salt[:16]))
    elif kind == "pbm":
        got, want = P.prepare_password_based_mac_parameters(salt, n, hm), D.seq(D.octets(salt), hash_alg(hm), D.integer(n), D.seq(D.oid(HM[hm])))
    elif kind == "dhbm":
        got, want = P.prepare_dh_based_mac_alg_id(hm, "hmac-" + hm), D.seq(D.oid(MACS["dh_based_mac"]), D.seq(hash_alg(hm), D.seq(D.oid(HM[hm]))))
    elif kind == "pbkdf2":
        got = P.prepare_kdf_alg_id("pbkdf2", salt=salt, iterations=n, length=L, hash_alg=hm)
        want = pb(hm)
    elif kind == "pbmac1":
        got, want = P.prepare_pbmac1_parameters(salt, n, L, hm), D.seq(pb(hm), D.seq(D.oid(HM[hm])))
    elif kind == "hkdf":
        x = sorted(HKDF)[case["h"] % 3]
        got, want = P.prepare_kdf_alg_id("hkdf", hash_alg=x), D.seq(D.oid(HKDF[x]))
    elif kind in ("kdf2", "kdf3"):
        x = sorted(SHA)[case["h"] % len(SHA)]
        got = P.prepare_kdf_alg_id(kind, hash_alg=x)
        want = D.seq(D.oid("1.0.18033.2.5." + {"kdf2": "1.1", "kdf3": "1.2"}[kind]), D.seq(D.oid(SHA[x]))) if False else None
        parts = D.split(D.read_value(encoder.encode(got))) if hasattr(D, "read_value") else None
        arc = {"kdf2": "1.3.133.16.840.9.44.1.1", "kdf3": "1.3.133.16.840.9.44.1.2"}[kind]
        want = D.seq(D.oid(arc), D.seq(D.oid(SHA[x])))
    der = encoder.encode(got)
    if kind in ("pbkdf2", "pbmac1") and der != want:
        prf_null = []
        want = pb(hm) if kind == "pbkdf2" else D.seq(pb(hm), D.seq(D.oid(HM[hm])))
    ctx.eq(der, want, f"{kind} identifier, hash {h}/{hm}", key="other-" + kind)
    ctx.label("kind:" + kind)
    ctx.nontrivial("other:" + kind)


KKEYS = ["rsa2048", "ec:secp256r1", "ec:secp384r1", "ec:secp521r1", "ec:secp256k1", "ec:brainpoolP256r1", "ec:brainpoolP384r1", "ec:brainpoolP512r1", "ec:secp224r1", "ed25519", "ed448", "x25519", "x448",
         "ml-dsa-44", "ml-dsa-65", "ml-dsa-87", "slh-dsa-sha2-128f", "slh-dsa-shake-128s", "slh-dsa-sha2-256s", "ml-kem-512", "ml-kem-768", "ml-kem-1024", "xwing",
         "composite-sig:ml-dsa-44:rsa2048", "composite-sig:ml-dsa-65:ec:secp384r1", "composite-sig:ml-dsa-87:ed448", "composite-kem:ml-kem-768:x25519", "composite-kem:ml-kem-768:ec:secp384r1",
         "chempat:ml-kem-768:x25519"]


def run_key(case, ctx):
    from resources import certutils
    k = KKEYS[case["k"] % len(KKEYS)]
    key = keys.get(k, 0)
    spki = pki.spki(k, 0)
    alg_der = D.split(spki)[0]
    oid_der = D.split(alg_der)[0]
    oid = str(decoder.decode(oid_der)[0])
    want = ({"rsa2048": NAMES["rsa"], "x25519": NAMES["x25519"], "x448": NAMES["x448"], "xwing": NAMES["xwing"], **ED, **ML, **SLH, **KEM}.get(k) or (NAMES["ecPublicKey"] if k.startswith("ec:") else None))
    if want:
        ctx.eq(oid, want, f"identifier in the SubjectPublicKeyInfo of {k}", key="spki-oid")
        plain = {"rsa2048": D.null()}.get(k, b"")
        if not k.startswith("ec:"):
            ctx.eq(alg_der, D.seq(oid_der, plain), f"AlgorithmIdentifier of a {k} key", key="spki-params")
    name = oid_mapping.may_return_oid_to_name(univ.ObjectIdentifier(oid))
    if not k.startswith(("rsa", "ec:")):
        ctx.eq(name, keyutils.get_key_name(key), f"name of the identifier and of the key {k}", key="key-name")
        ctx.eq(keyutils.get_key_name(key), keyutils.get_key_name(key.public_key()), f"names of both halves of {k}", key="key-halves")
    if hasattr(key, "get_oid"):
        ctx.eq(str(key.public_key().get_oid()) if not k.startswith("composite-sig") else str(key.public_key().get_oid(use_pss=name.endswith("pss"))), oid, f"get_oid of the public {k} key", key="get-oid")
        ctx.eq(str(key.get_oid()) if not k.startswith("composite-sig") else str(key.get_oid(use_pss=name.endswith("pss"))), oid, f"get_oid of the private {k} key", key="get-oid-private")
    if pq_utils.is_kem_public_key(key.public_key()):
        ctx.eq(str(pq_utils.get_kem_oid_from_key(key)), oid, f"KEM identifier of {k}", key="kem-oid")
    alg = decoder.decode(alg_der, asn1Spec=rfc9480.AlgorithmIdentifier())[0]
    fresh = ctx.accepts(f"key generated for the identifier of {k}", keyutils.generate_key_based_on_alg_id, alg)
    fresh_spki = encoder.encode(keyutils.prepare_subject_public_key_info(fresh))
    ctx.eq(D.split(fresh_spki)[0], alg_der, f"AlgorithmIdentifier of the key generated for {k}", key="generated")
    other = KKEYS[case["o"] % len(KKEYS)]
    if not k.startswith(("rsa", "ec:", "ed", "x25519", "x448")):
        cert = pki.obj(pki.make(pki.name("k"), (k, 0), pki.name("ca"), ("ed25519", 0)))
        ctx.accepts(f"certificate for {name}", certutils.validate_migration_oid_in_certificate, cert, name, key="cert-oid")
        onames = {x: oid_mapping.may_return_oid_to_name(univ.ObjectIdentifier(str(decoder.decode(D.split(D.split(pki.spki(x, 0))[0])[0])[0]))) for x in (other,)}
        if onames[other] != name:
            ctx.rejects(f"certificate for {name} taken as {onames[other]}", certutils.validate_migration_oid_in_certificate, cert, onames[other], exc=REFUSE, key="cert-oid-other")
        ctx.accepts(f"{name} without parameters", certutils.validate_migration_alg_id, alg, key="migration-key")
        bad = decoder.decode(D.seq(oid_der, D.null()), asn1Spec=rfc9480.AlgorithmIdentifier())[0]
        ctx.rejects(f"{name} with NULL parameters", certutils.validate_migration_alg_id, bad, exc=REFUSE, key="migration-key")
    ctx.label("key:" + k.split(":")[0])
    ctx.nontrivial("key:" + k)




N = st.integers(0, 9999)
SUBS = [
    Sub("names", st.fixed_dictionaries({"n": N, "f": N, "e": N}), run_names, quick=1200, thorough=20000, text="names and identifiers are inverse to each other"),
    Sub("hash", st.fixed_dictionaries({"n": N, "data": st.binary(max_size=40)}), run_hash, quick=500, thorough=5000, text="hash of an algorithm identifier"),
    Sub("fit", st.fixed_dictionaries({"k": N, "a": N, "near": st.integers(0, 2).map(lambda x: x == 0), "priv": st.booleans()}), run_fit, quick=900, thorough=15000, shards=2,
        text="an algorithm is accepted exactly with the keys it fits"),
    Sub("comp", st.fixed_dictionaries({"k": N, "a": N, "near": st.booleans()}), run_comp, quick=200, thorough=3000, shards=2, text="composite signature identifiers fit exactly their keys"),
    Sub("write", st.fixed_dictionaries({"s": c03.signer(), "data": st.binary(max_size=60)}), run_write, quick=250, thorough=4000, shards=3, text="signature identifiers written for a key"),
    Sub("params", st.fixed_dictionaries({"a": N, "p": N}), run_params, quick=600, thorough=6000, text="absent, NULL and other parameters"),
    Sub("other", st.fixed_dictionaries({"kind": st.sampled_from(["hash", "hmac", "kmac", "gmac", "wrap", "cbc", "pbm", "dhbm", "pbkdf2", "pbmac1", "hkdf", "kdf2", "kdf3"]), "h": N,
                                        "salt": st.binary(min_size=16, max_size=24), "iter": st.integers(100, 90000), "len": st.integers(16, 64)}), run_other, quick=900, thorough=12000,
        text="hash, MAC, KDF, wrap and cipher identifiers"),
    Sub("key", st.fixed_dictionaries({"k": N, "o": N}), run_key, quick=160, thorough=2000, shards=2, text="identifiers of keys"),
]
