"""C29: comparing templates, requests, keys and certificates finds exactly the differences."""
import datetime

from hypothesis import strategies as st
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import univ
from pyasn1_alt_modules import rfc4211, rfc5280, rfc6402, rfc9480

from lib import der as D
from lib import keys, pki
from lib.harness import Sub
from resources import ca_ra_utils, checkutils, cmputils
from resources import compareutils as C
from resources import keyutils
from resources.exceptions import BadCertId

PROPERTY = "C29"
TECHNIQUE = "metamorphic testing: certificates derived from generated templates, requests and keys by one edit of one field; equality must follow from the edit and the compared fields"
RULE = ("Templates with generated fields, a certificate with the same contents in another representation or with one edited field, field selections and "
        "responses with several certificates. Non-trivial: equality or difference was demanded by the edit.")
ASSUMPTIONS = ["signingAlg is documented as not compared; an extension is compared with its criticality and value, other extensions of the certificate do not matter",
               "without strict_subject_validation the subject of the certificate may contain further attributes",
               "requests (PKCS #10) with attributes other than one extensionRequest are outside what the suite supports"]

KEYS = ["ed25519", "ec:secp256r1", "ec:secp384r1", "rsa2048", "ed448", "ml-dsa-44", "ml-kem-768", "x25519"]
ALLF = ["version", "serialNumber", "signingAlg", "issuer", "validity", "subject", "publicKey", "issuerUID", "subjectUID", "extensions"]
EXT_OIDS = ["2.5.29.15", "2.5.29.37", "2.5.29.19", "2.5.29.17", "1.3.6.1.4.1.99999.1"]
EXT_VAL = [bytes.fromhex("03020780"), bytes.fromhex("300a06082b06010505070301"), bytes.fromhex("3000"), bytes.fromhex("3003820161"), b"\x05\x00"]
EXT_ALT = [bytes.fromhex("03020640"), bytes.fromhex("300a06082b06010505070302"), bytes.fromhex("30030101ff"), bytes.fromhex("3003820162"), b"\x01\x01\xff"]
EDITS = {"serial+": "serialNumber", "issuer-value": "issuer", "issuer-swap": "issuer", "issuer-more": "issuer", "nb": "validity", "na": "validity", "subject-value": "subject",
         "subject-swap": "subject", "subject-more": "subject", "subject-less": "subject", "key": "publicKey", "key-type": "publicKey",
         "iuid-bit": "issuerUID", "iuid-len": "issuerUID", "iuid-absent": "issuerUID", "suid-bit": "subjectUID", "suid-absent": "subjectUID", "ext-value": "extensions",
         "ext-critical": "extensions", "ext-missing": "extensions", "ext-oid": "extensions", "exts-absent": "extensions", "version": "version"}
SAME = ["none", "none", "time-form", "ext-more", "ext-order", "sig-alg"]


def stamp(t, general):
    d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
    if general or d.year >= 2050:
        return D.tlv(0x18, d.strftime("%Y%m%d%H%M%SZ").encode())
    return D.tlv(0x17, d.strftime("%y%m%d%H%M%SZ").encode())


def nm(rdns):
    return pki.name(*[[x, ("2.5.4.10", x), ("2.5.4.11", x)][i % 3] for i, x in enumerate(rdns)])


def bits(b):
    n = (len(b) + 7) // 8
    return D.tlv(3, bytes([n * 8 - len(b)]) + int(b.ljust(n * 8, "0") or "0", 2).to_bytes(n, "big") if n else b"\x00")


def ext(i, crit, val):
    return D.seq(D.oid(EXT_OIDS[i]), D.boolean(True) if crit else b"", D.octets(val))


ALG = D.seq(D.oid("1.2.840.10045.4.3.2"))


def content(case):
    """The field contents of the template, as plain data."""
    f = dict(case["f"])
    f["exts"] = [(i, c, EXT_VAL[i]) for i, c in f["exts"]]
    f["spki"] = pki.spki(*f["key"])
    return f


def template_der(f, fields, kga=False):
    spki = f["spki"]
    if kga:
        spki = D.seq(D.split(spki)[0], D.tlv(3, b"\x00"))
    p = []
    if "version" in fields:
        p.append(D.retag(0, D.integer(2)))
    if "serialNumber" in fields:
        p.append(D.retag(1, D.integer(f["serial"])))
    if "signingAlg" in fields:
        p.append(D.retag(2, ALG))
    if "issuer" in fields:
        p.append(D.ctx(3, nm(f["issuer"])))
    if "validity" in fields:
        w = f["which"]
        p.append(D.ctx(4, (D.ctx(0, stamp(f["nb"], f["tg"])) if w != 1 else b"") + (D.ctx(1, stamp(f["na"], f["tg"])) if w != 2 else b"")))
    if "subject" in fields:
        p.append(D.ctx(5, nm(f["subject"])))
    if "publicKey" in fields:
        p.append(D.retag(6, spki))
    if "issuerUID" in fields:
        p.append(D.retag(7, bits(f["iuid"])))
    if "subjectUID" in fields:
        p.append(D.retag(8, bits(f["suid"])))
    if "extensions" in fields and f["exts"]:
        p.append(D.retag(9, D.seq(*[ext(*e) for e in f["exts"]])))
    return D.seq(*p)


def cert_der(f, edit, at):
    f = dict(f)
    issuer, subject = list(f["issuer"]), list(f["subject"])
    exts = list(f["exts"])
    iuid, suid = f["iuid"], f["suid"]
    serial, nb, na, spki, alg, general, version = f["serial"], f["nb"], f["na"], f["spki"], ALG, f["tg"], 2
    ok = True

    def swap(x):
        nonlocal ok
        # the attribute types follow the position, so the swapped names differ
        if len(x) < 2 or x[0] == x[1]:
            ok = False
        else:
            x[0], x[1] = x[1], x[0]

    if edit == "serial+":
        serial += 1 + at
    elif edit == "issuer-value":
        issuer[at % len(issuer)] += "x"
    elif edit == "issuer-swap":
        swap(issuer)
    elif edit == "issuer-more":
        issuer.append("more")
    elif edit == "nb":
        nb += 1 + at * 1000
        ok = f["which"] != 1
    elif edit == "na":
        na += [1, 60, 86400, -1][at % 4]
        ok = f["which"] != 2
    elif edit == "subject-value":
        subject[at % len(subject)] += "x"
    elif edit == "subject-swap":
        swap(subject)
    elif edit == "subject-more":
        subject.append("more")
    elif edit == "subject-less":
        subject.pop()
    elif edit == "key":
        spki = pki.spki(f["key"][0], 1 - f["key"][1])
    elif edit == "key-type":
        spki = pki.spki(KEYS[(KEYS.index(f["key"][0]) + 1 + at) % len(KEYS)], 0)
        ok = D.split(spki)[0] != D.split(f["spki"])[0]
    elif edit == "key-alg":
        ok = f["key"][0] == "rsa2048"
        spki = D.seq(D.seq(D.oid("1.2.840.113549.1.1.10")), D.split(spki)[1]) if ok else spki
    elif edit == "iuid-bit":
        i = at % len(iuid)
        iuid = iuid[:i] + "10"[int(iuid[i])] + iuid[i + 1:]
    elif edit == "iuid-len":
        iuid = "0" + iuid if at % 2 else iuid + "0"
    elif edit == "iuid-absent":
        iuid = None
    elif edit == "suid-bit":
        i = at % len(suid)
        suid = suid[:i] + "10"[int(suid[i])] + suid[i + 1:]
    elif edit == "suid-absent":
        suid = None
    elif edit.startswith("ext-") and not exts:
        ok = False
    elif edit == "ext-value":
        i, c, _ = exts[at % len(exts)]
        exts[at % len(exts)] = (i, c, EXT_ALT[i])
    elif edit == "ext-critical":
        i, c, v = exts[at % len(exts)]
        exts[at % len(exts)] = (i, not c, v)
    elif edit == "ext-missing":
        del exts[at % len(exts)]
    elif edit == "ext-oid":
        i, c, v = exts[at % len(exts)]
        free = [k for k in range(5) if k not in [e[0] for e in exts]]
        if free:
            exts[at % len(exts)] = (free[0], c, v)
        else:
            ok = False
    elif edit == "exts-absent":
        ok = bool(exts)
        exts = []
    elif edit == "version":
        version = 0 if at % 2 else 1
    elif edit == "time-form":
        general = not general
    elif edit == "ext-more":
        exts += [(k, False, EXT_VAL[k]) for k in range(5) if k not in [e[0] for e in exts]][:1]
    elif edit == "ext-order":
        exts.reverse()
    elif edit == "sig-alg":
        alg = D.seq(D.oid("1.3.101.112"))
    tbs = D.seq(D.ctx(0, D.integer(version)) if version else b"", D.integer(serial), alg, nm(issuer), D.seq(stamp(nb, general), stamp(na, general)), nm(subject), spki,
                D.retag(1, bits(iuid)) if iuid is not None else b"", D.retag(2, bits(suid)) if suid is not None else b"",
                D.ctx(3, D.seq(*[ext(*e) for e in exts])) if exts else b"")
    return D.seq(tbs, alg, bits("1010")), ok


def load(der, spec):
    o, rest = decoder.decode(der, asn1Spec=spec)
    assert not rest
    return o


def equal(edit, ok, fields, compared, strict):
    """Whether the certificate agrees with the template; None if the edit does not apply."""
    if not ok:
        return None
    f = EDITS.get(edit)
    if f is None or f not in fields or f not in compared:
        return True
    if not strict and edit in ("subject-more",):
        return True
    return False


def select(case):
    """(keyword arguments, compared fields)"""
    names = [ALLF[i] for i in sorted(set(case["sel"]))]
    sep = [",", ", ", " , "][case["sep"]]
    if case["mode"] == "include" and names:
        return {"include_fields": sep.join(names)}, names
    if case["mode"] == "exclude" and names:
        return {"exclude_fields": sep.join(names)}, [x for x in ALLF if x not in names]
    return {}, ALLF


def run_template(case, ctx):
    f = content(case)
    fields = [ALLF[i] for i in case["fields"]]
    kw, compared = select(case)
    tder = template_der(f, fields)
    t = load(tder, rfc4211.CertTemplate())
    edit, strict = case["edit"], case["strict"]
    cder, ok = cert_der(f, edit, case["at"])
    want = equal(edit, ok, fields, compared, strict)
    cert = load(cder, rfc9480.CMPCertificate())
    if want is None:
        return
    ctx.label("edit:" + edit, f"equal:{want}", "sel:" + case["mode"])
    if strict:
        kw = dict(kw, strict_subject_validation=True)
    got = ctx.accepts(f"comparison after {edit}", C.compare_cert_template_and_cert, t, cert, **kw)
    ctx.eq(got, want, f"template with {fields}, certificate edited by {edit}, selection {kw}", key="template-" + edit)
    ctx.eq(encoder.encode(t), tder, "template afterwards", key="changed")
    ctx.eq(encoder.encode(cert), cder, "certificate afterwards", key="changed")
    ctx.nontrivial(f"{edit}:{want}")


def run_kga(case, ctx):
    f = content(case)
    t = load(template_der(f, ["publicKey", "subject"], kga=True), rfc4211.CertTemplate())
    other = pki.spki(KEYS[case["other"] % len(KEYS)], case["at"] % 2)
    g = dict(f, spki=other)
    cert = load(cert_der(g, "none", 0)[0], rfc9480.CMPCertificate())
    want = D.split(other)[0] == D.split(f["spki"])[0]
    ctx.eq(ctx.accepts("comparison without key", C.compare_cert_template_and_cert, t, cert), want, f"only the algorithm {f['key'][0]} requested, got {KEYS[case['other'] % len(KEYS)]}", key="kga")
    ctx.label(f"same:{want}")
    ctx.nontrivial("kga")


def message(tag, content):
    n = pki.name("s")
    return cmputils.parse_pkimessage(D.seq(D.seq(D.integer(2), D.ctx(4, n), D.ctx(4, n)), D.ctx(tag, content)))


REQ = {"ir": (0, 1), "cr": (2, 3), "kur": (7, 8)}


def run_granted(case, ctx):
    f0 = content(case)
    reqs, resps, wants = [], [], []
    n = len(case["list"])
    for i, (edit, at, status, fields) in enumerate(case["list"]):
        f = dict(f0, serial=f0["serial"] + 1000 * i, subject=[f"S{i}"] + list(f0["subject"])[1:])
        fields = [ALLF[k] for k in fields] + ["subject"]
        cder, ok = cert_der(f, edit, at)
        if not ok:
            cder, edit = cert_der(f, "none", at)[0], "none"
        want = equal(edit, True, fields, ALLF, case["strict"])
        reqs.append(D.seq(D.seq(D.integer(i), template_der(f, sorted(set(fields), key=ALLF.index)))))
        resps.append(D.seq(D.integer(i), D.seq(D.integer(status)), D.seq(D.ctx(0, cder))))
        wants.append((edit, want, status))
    a, b = REQ[case["kind"]]
    req = message(a, D.seq(*reqs))
    resp = message(b, D.seq(D.seq(*resps)))
    kw = {"strict_subject_validation": True} if case["strict"] else {}
    for i, (edit, want, status) in enumerate(wants):
        what = f"certificate {i} of {n} edited by {edit}, status {status}"
        if want or status == 1:
            ctx.accepts(what, checkutils.check_for_granted_with_mods, resp, req, response_index=i, key="granted", **kw)
        else:
            ctx.rejects(what, checkutils.check_for_granted_with_mods, resp, req, response_index=i, exc=(ValueError,), **kw)
        ctx.label(f"index:{i}", f"equal:{want} status:{status}")
    ctx.rejects("request and response exchanged", checkutils.check_for_granted_with_mods, req, resp, exc=(ValueError,))
    ctx.nontrivial("granted")


def run_exists(case, ctx):
    f = content(case)
    fields = [ALLF[i] for i in case["fields"]]
    full = sorted(set(fields) | {"subject", "publicKey"}, key=ALLF.index)
    t = load(template_der(f, full), rfc4211.CertTemplate())
    certs, simple, strict, near = [], [], [], []
    for edit, at in case["certs"]:
        cder, ok = cert_der(f, edit, at)
        if not ok:
            cder, edit = cert_der(f, "none", 0)[0], "none"
        if edit.startswith("key") and "publicKey" not in full:
            continue
        certs.append(load(cder, rfc9480.CMPCertificate()))
        e = EDITS.get(edit)
        simple.append(e not in ("subject", "publicKey"))
        strict.append(equal(edit, True, full, ALLF, True))
        near.append(equal(edit, True, full, ["serialNumber", "issuer"], True))
    ctx.eq(ca_ra_utils.cert_template_exists(t, certs), any(simple), f"template among certificates edited by {case['certs']}", key="exists")
    ctx.eq(ca_ra_utils.cert_template_exists(t, certs, check_only_subject_and_pub_key=False), any(strict), f"whole template among certificates edited by {case['certs']}", key="exists-whole")
    if any(strict):
        got = ctx.accepts("looking up the template", ca_ra_utils._contains_cert_template, t, certs)
        ctx.check(got is certs[strict.index(True)], "the certificate of the template", key="lookup")
    else:
        ctx.rejects("looking up the template", ca_ra_utils._contains_cert_template, t, certs, exc=(BadCertId,), key="lookup")
    nokey = load(template_der(f, ["subject", "serialNumber"]), rfc4211.CertTemplate())
    ctx.eq(ca_ra_utils.cert_template_exists(nokey, certs), False, "template without a key", key="exists-no-key")
    ctx.label(f"found:{any(strict)}", f"n:{len(certs)}")
    ctx.nontrivial("exists")


def run_csr(case, ctx):
    f = content(case)
    edit = case["edit"]
    cder, ok = cert_der(f, edit, case["at"])
    if not ok:
        return
    attrs = D.seq(D.oid("1.2.840.113549.1.9.14"), D.set_of(D.seq(*[ext(*e) for e in f["exts"]]))) if f["exts"] else b""
    csr = load(D.seq(D.seq(D.integer(0), nm(f["subject"]), f["spki"], D.tlv(0xA0, attrs)), ALG, bits("10")), rfc6402.CertificationRequest())
    cert = load(cder, rfc9480.CMPCertificate())
    strict = case["strict"]
    fields = ["subject", "publicKey"] + (["extensions"] if f["exts"] else [])
    want = equal(edit, True, fields, ALLF, strict)
    if edit in ("ext-more", "ext-order") and f["exts"]:
        # compared as whole lists: other or reordered extensions count as a difference
        if edit == "ext-more" and len(f["exts"]) < 5 or edit == "ext-order" and len(f["exts"]) > 1:
            want = False
    ctx.eq(ctx.accepts("comparison", C.compare_csr_and_cert, csr, cert, **({"subject_strict": True} if strict else {})), want,
           f"request with {len(f['exts'])} extensions, certificate edited by {edit}, strict={strict}", key="csr-" + edit)
    ctx.label("edit:" + edit, f"equal:{want}")
    ctx.nontrivial(f"csr:{want}")


PARAMS = [b"", b"\x05\x00", bytes.fromhex("06082a8648ce3d030107"), bytes.fromhex("06052b81040022"), bytes.fromhex("3000"),
          bytes.fromhex("300fa00d300b0609608648016503040201"), b"\x04\x02ab"]
PSS1 = "1.2.840.113549.1.1.10"


def alg(oid, p, form):
    a = load(D.seq(D.oid(oid), PARAMS[p]), rfc9480.AlgorithmIdentifier())
    if form and PARAMS[p] and p != 4:
        b = rfc9480.AlgorithmIdentifier()
        b["algorithm"] = univ.ObjectIdentifier(oid)
        b["parameters"] = decoder.decode(PARAMS[p], asn1Spec={5: _pss()}.get(p))[0] if p == 5 else decoder.decode(PARAMS[p])[0]
        return b
    return a


def _pss():
    from pyasn1_alt_modules import rfc8017
    return rfc8017.RSASSA_PSS_params()


def run_alg(case, ctx):
    oids = [PSS1, "1.2.840.10045.2.1", "1.2.840.113549.1.1.11"]
    (o1, p1, f1), (o2, p2, f2) = case["a"], case["b"]
    if case["twin"]:
        o2, p2 = o1, p1
    a, b = alg(oids[o1], p1, f1), alg(oids[o2], p2, f2)
    want = o1 == o2 and p1 == p2
    what = f"{oids[o1]} with {PARAMS[p1].hex()} ({'decoded' if f1 else 'raw'}) and {oids[o2]} with {PARAMS[p2].hex()} ({'decoded' if f2 else 'raw'})"
    ctx.eq(ctx.accepts(what, C.compare_alg_id_without_tag, a, b), want, what, key="alg")
    tagged = load(D.seq(D.retag(2, D.seq(D.oid(oids[o2]), PARAMS[p2]))), rfc4211.CertTemplate())["signingAlg"]
    ctx.eq(ctx.accepts(what + ", tagged", C.compare_alg_id_without_tag, a, tagged), want, what + ", tagged", key="alg-tagged")
    ctx.label(f"equal:{want}", f"forms:{f1}{f2}")
    ctx.nontrivial("alg")


def run_key(case, ctx):
    (k1, i1), (k2, i2) = case["a"], case["b"]
    if case["twin"]:
        k2, i2 = k1, i1
    f = dict(content(case), spki=pki.spki(k1, i1))
    cert = load(cert_der(f, "none", 0)[0], rfc9480.CMPCertificate())
    want = (k1, i1) == (k2, i2)
    private = keys.get(k2, i2)
    for what, k in (("private key", private), ("public key", private.public_key()), ("SPKI", load(pki.spki(k2, i2), rfc5280.SubjectPublicKeyInfo()))):
        if want:
            ctx.accepts(f"{what} {k2}/{i2} of a certificate for {k1}/{i1}", C.validate_certificate_public_key, cert, k, key="key")
        else:
            ctx.rejects(f"{what} {k2}/{i2} of a certificate for {k1}/{i1}", C.validate_certificate_public_key, cert, k, exc=(ValueError,))
    pub = keyutils.load_public_key_from_spki(cert["tbsCertificate"]["subjectPublicKeyInfo"])
    ctx.eq(pub == private.public_key(), want, "keys compared", key="key-eq")
    if k1 in ("ml-dsa-44", "ml-kem-768"):
        own = keys.get(k1, i1).public_key()
        ctx.accepts(f"named {k1}", C.validate_certificate_public_key, cert, own, k1)
        ctx.rejects("named otherwise", C.validate_certificate_public_key, cert, own, "ml-dsa-65", exc=(ValueError,))
    ctx.label(f"equal:{want}")
    ctx.nontrivial("key")


TXT = st.sampled_from(["a", "b", "CN", "x=y", "1,2", "Ä", "long name"])
BITS = st.text("01", min_size=1, max_size=17)
F = st.fixed_dictionaries({"serial": st.integers(-5, 2 ** 100), "issuer": st.lists(TXT, min_size=1, max_size=3), "subject": st.lists(TXT, min_size=1, max_size=3, unique=True),
                           "nb": st.integers(0, 2 ** 32), "na": st.integers(0, 2 ** 33), "tg": st.booleans(), "which": st.integers(0, 2),
                           "key": st.tuples(st.sampled_from(KEYS), st.integers(0, 1)), "iuid": BITS, "suid": BITS,
                           "exts": st.lists(st.tuples(st.integers(0, 4), st.booleans()), max_size=4, unique_by=lambda e: e[0])})
EDIT = st.one_of(st.sampled_from(sorted(EDITS)), st.sampled_from(sorted(EDITS)), st.sampled_from(SAME))
FIELDS = st.one_of(st.just(list(range(10))), st.lists(st.integers(0, 9), unique=True, max_size=10).map(sorted))
AT = st.integers(0, 30)

SUBS = [
    Sub("template", st.fixed_dictionaries({"f": F, "fields": FIELDS, "edit": EDIT, "at": AT, "strict": st.booleans(), "mode": st.sampled_from(["all", "all", "include", "exclude"]),
                                           "sel": st.lists(st.integers(0, 9), min_size=1, max_size=5), "sep": st.integers(0, 2)}),
        run_template, quick=2500, thorough=80000, shards=2, text="a template and a certificate that differ in one field or only in representation"),
    Sub("kga", st.fixed_dictionaries({"f": F, "other": st.integers(0, 7), "at": AT}), run_kga, quick=150, thorough=2000, shards=1, text="templates that only name the key algorithm"),
    Sub("granted", st.fixed_dictionaries({"f": F, "kind": st.sampled_from(["ir", "cr", "kur"]), "strict": st.booleans(),
                                          "list": st.lists(st.tuples(EDIT, AT, st.integers(0, 1), FIELDS), min_size=1, max_size=3)}),
        run_granted, quick=500, thorough=20000, shards=2, text="grantedWithMods demanded exactly where a certificate differs from its template"),
    Sub("exists", st.fixed_dictionaries({"f": F, "fields": FIELDS, "certs": st.lists(st.tuples(EDIT, AT), max_size=4)}), run_exists, quick=500, thorough=20000, shards=1,
        text="looking up a template among certificates"),
    Sub("csr", st.fixed_dictionaries({"f": F, "edit": EDIT, "at": AT, "strict": st.booleans()}), run_csr, quick=600, thorough=20000, shards=1,
        text="a PKCS #10 request and a certificate"),
    Sub("alg", st.fixed_dictionaries({"a": st.tuples(st.integers(0, 2), st.integers(0, 6), st.booleans()), "b": st.tuples(st.integers(0, 2), st.integers(0, 6), st.booleans()),
                                      "twin": st.booleans()}), run_alg, quick=400, thorough=4000, shards=1, text="algorithm identifiers in raw and decoded form"),
    Sub("key", st.fixed_dictionaries({"f": F, "a": st.tuples(st.sampled_from(KEYS), st.integers(0, 1)), "b": st.tuples(st.sampled_from(KEYS), st.integers(0, 1)), "twin": st.booleans()}),
        run_key, quick=300, thorough=4000, shards=1, text="keys and the keys of certificates"),
]
