"""C12: certificate chains are built completely, in order and only from real issuers, and trusted only when genuine."""
import os
import shutil
import base64

from hypothesis import strategies as st
from pyasn1_alt_modules import rfc9480

from lib import cmpx, der as D, pki
from lib.harness import SCRATCH, Skip, Sub
from resources import certutils, checkutils, exceptions, protectionutils
from resources.asn1_structures import PKIMessageTMP

PROPERTY = "C12"
TECHNIQUE = "property-based testing: generated certificate graphs (paths, look-alikes, roll-over, damage) assembled without the suite against a path computed from the construction"
RULE = "the collection holds at least one certificate that is not on the path, or the path is longer than two, or one certificate is damaged"
ASSUMPTIONS = ["trust anchors are self-signed roots given as PEM files", "OpenSSL's verdict is part of the code under test: the expected verdict is computed from how the chain was built"]

KEYS = ["rsa2048", "ec:secp256r1", "ec:secp384r1", "ed25519", "ed448", "ec:secp521r1", "ec:brainpoolP256r1", "rsa3072"]
PQ = ["ml-dsa-44", "ml-dsa-65"]
HASH = ["sha256", "sha384", "sha512", "sha224"]
ODD = ["x25519", "x448", "dsa2048", "ml-kem-768", "composite-sig:ml-dsa-44:ed25519", "xwing"]
TRUST = (ValueError, exceptions.SignerNotTrusted, exceptions.BadKeyUsage, exceptions.CMPTestSuiteError)


@st.composite
def nodes(draw, depth, pq=False):
    """Keys of a chain, the end entity first; equal names and indices never repeat a key pair."""
    pool = [(k, i) for k in KEYS + (PQ if pq else []) for i in (0, 1)]
    ks = draw(st.lists(st.sampled_from(pool), min_size=depth, max_size=depth, unique=True))
    return [{"k": k, "i": i, "h": draw(st.sampled_from(HASH)), "pss": draw(st.integers(0, 3)) == 0, "ids": draw(st.integers(0, 3))} for k, i in ks]


def nm(j, style):
    """Name of the certificate number j."""
    if style == 1:
        return pki.name(("2.5.4.6", "DE"), ("2.5.4.10", "Org"), f"Node {j}")
    if style == 2:
        return pki.name(("2.5.4.10", "Nöde %d" % j))
    return pki.name(f"Node {j}")


def build(chain, style=0, root=True, over=None):
    """DER certificates of a path, the end entity first."""
    out = []
    for j, n in enumerate(chain):
        last = j == len(chain) - 1
        up = chain[j] if last else chain[j + 1]
        ca = j > 0
        opt = dict((over or {}).get(j, {}))
        ex = []
        if opt.pop("bc", True):
            ex.append(pki.bc(opt.pop("ca", ca), opt.pop("path", None)))
        u = opt.pop("ku", ["keyCertSign", "cRLSign"] if ca else ["digitalSignature"])
        if u:
            ex.append(pki.ku(*u))
        if n["ids"] & 1:
            ex.append(pki.ski(n["k"], n["i"]))
        if n["ids"] & 2 and up["ids"] & 1:
            ex.append(pki.aki(up["k"], up["i"]))
        by = (up["k"], up["i"])
        a = dict(subject=nm(j, style), key=(n["k"], n["i"]), issuer=nm(j if last else j + 1, style), by=by, serial=j + 10, exts=ex, h=up["h"], pss=up["pss"] and up["k"].startswith("rsa"))
        a.update(opt)
        out.append(pki.make(**a))
    return out


def decoy(d, chain, certs, style):
    """A certificate which is not on the path."""
    j = d["at"] % len(chain)
    n = chain[j]
    last = j == len(chain) - 1
    if d["kind"] == "same-name-self":       # look-alike: the name of a path certificate, another key, self-signed
        return pki.make(nm(j, style), ("ec:secp256k1", d["x"] % 2), serial=1000 + d["x"], exts=[pki.bc()])
    if d["kind"] == "same-name-odd":        # the same with a key which signs nothing (or not with this algorithm)
        k = ODD[d["x"] % len(ODD)]
        return pki.make(nm(j, style), (k, d["x"] % 2), issuer=nm(70, style), by=("ec:secp256k1", 0), serial=1100 + d["x"], exts=[pki.bc()])
    if d["kind"] == "same-name-type":       # same name, the same type of key with other values, same identifiers
        k = n["k"] if n["k"] not in pki.ML else "ml-dsa-87"
        k, i = (k, 1 - n["i"])
        if any((m["k"], m["i"]) == (k, i) for m in chain):
            k, i = "rsa4096", d["x"] % 2
        return pki.make(nm(j, style), (k, i), serial=j + 10, exts=[pki.bc(), pki.ski(n["k"], n["i"])])
    if d["kind"] == "wrong-issuer-sig":     # names and key of a path certificate, signed by somebody else
        return pki.make(nm(j, style), ("ec:secp224r1", d["x"] % 2), issuer=nm(j if last else j + 1, style), by=("ec:secp256k1", 1), serial=1200 + d["x"], exts=[pki.bc()])
    if d["kind"] == "sibling":              # another certificate of the same issuer
        up = chain[j] if last else chain[j + 1]
        return pki.make(pki.name(f"Sibling {d['x']}"), ("ec:secp256k1", d["x"] % 2), issuer=nm(j if last else j + 1, style), by=(up["k"], up["i"]), serial=1300 + d["x"], h=up["h"])
    if d["kind"] == "unrelated":
        return pki.make(pki.name(f"Unrelated {d['x']}"), ("ec:secp256k1", d["x"] % 2), serial=1400 + d["x"], exts=[pki.bc()])
    if d["kind"] == "child":                # issued by the end entity
        return pki.make(pki.name(f"Child {d['x']}"), ("ec:secp256k1", d["x"] % 2), issuer=nm(0, style), by=(chain[0]["k"], chain[0]["i"]), serial=1500 + d["x"])
    if d["kind"] == "copy":
        return certs[j]
    raise AssertionError(d)


KINDS = ["same-name-self", "same-name-odd", "same-name-type", "wrong-issuer-sig", "sibling", "unrelated", "child", "copy"]
DECOY = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "at": st.integers(0, 5), "x": st.integers(0, 40)})


def shuffled(xs, order):
    xs = list(xs)
    out = []
    for o in order:
        if not xs:
            break
        out.append(xs.pop(o % len(xs)))
    return out + xs


def ders(certs):
    return [cmpx.enc(c) for c in certs]


def put(folder, certs):
    """Write PEM files and return the folder."""
    path = os.path.join(SCRATCH, f"c12-{os.getpid()}-{folder}")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    for j, c in enumerate(certs):
        with open(os.path.join(path, f"{j}.pem"), "wb") as f:
            f.write(b"-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(c) + b"-----END CERTIFICATE-----\n")
    return path


CHAIN = st.integers(1, 6).flatmap(lambda n: st.fixed_dictionaries({
    "chain": nodes(n, pq=True), "style": st.integers(0, 2), "decoys": st.lists(DECOY, max_size=5), "order": st.lists(st.integers(0, 30), max_size=12),
    "drop": st.one_of(st.none(), st.none(), st.integers(1, 5)), "self": st.booleans(), "ee": st.booleans(),
    "how": st.sampled_from(["list", "list", "list", "message", "issued", "dir"])}))


def chain(case, ctx):
    certs = build(case["chain"], case["style"])
    extra = [decoy(d, case["chain"], certs, case["style"]) for d in case["decoys"]]
    path = list(certs)
    others = certs[1:] + extra
    if case["drop"] and case["drop"] < len(certs):
        gone = certs[case["drop"]]
        others = [c for c in others if c != gone]
        path = certs[:case["drop"]]
        ctx.label("issuer missing")
    complete = len(path) == len(certs)
    if case["ee"]:
        others.append(certs[0])
    others = shuffled(others, case["order"])
    must = case["self"]
    ctx.nontrivial(len(extra) > 0 or len(path) > 2)
    ctx.label(case["how"])
    ctx.label(f"length {len(path)}")
    for d in case["decoys"]:
        ctx.label("decoy " + d["kind"])
    ee = pki.obj(certs[0])
    objs = [pki.obj(c) for c in others]
    how = case["how"]
    if how == "list":
        def call():
            return certutils.build_chain_from_list(ee, objs, must_be_self_signed=must)
    elif how == "dir":
        uniq = list(dict.fromkeys(others))
        cut = len(uniq) // 2
        one, two = put("one", uniq[:cut]), put("two", uniq[cut:])

        def call():
            return certutils.build_cert_chain_from_dir(ee, one, root_dir=two, must_be_complete=must)
    elif how == "message":
        msg = PKIMessageTMP()
        msg["extraCerts"].extend([ee] + objs)

        def call():
            return certutils.build_cmp_chain_from_pkimessage(msg, last_cert_is_self_signed=must)
    else:
        if not objs:
            raise Skip("no extraCerts")
        must = False
        half = len(objs) // 2 if case["ee"] else 0
        msg = issued_message(certs[0], others[:half], others[half:])

        def call():
            return certutils.build_cmp_chain_from_pkimessage(msg, for_issued_cert=True)
    if must and not complete:
        ctx.rejects("an incomplete chain is accepted as complete", call, exc=(ValueError,), key="incomplete")
        return
    got = ders(call())
    ctx.eq([path.index(c) if c in path else -1 for c in got], list(range(len(path))), "path from the end entity to its anchor", key="path:" + how)


def issued_message(cert, ca_pubs, extra):
    """An ip message with one certificate, assembled by hand."""
    status = D.seq(D.integer(0))
    resp = D.seq(D.integer(0), status, D.seq(D.ctx(0, cert)))
    body = D.ctx(1, D.seq(*([D.ctx(1, D.seq(*ca_pubs))] if ca_pubs else []), D.seq(resp)))
    gn = D.ctx(4, pki.name("me"))
    msg = D.seq(D.seq(D.integer(2), gn, gn), body, D.ctx(1, D.seq(*extra)))
    return cmpx.parse(msg)


CROSS = st.fixed_dictionaries({
    "chain": nodes(5), "shape": st.sampled_from(["rollover", "rollover", "cross", "bridge", "renewed"]), "have": st.lists(st.booleans(), min_size=6, max_size=6),
    "order": st.lists(st.integers(0, 30), min_size=8, max_size=8), "self": st.booleans()})


def genuine(cert, issuer, tab):
    return tab.get(cert, (None,))[1] == tab.get(issuer, (None, None, 0))[2] and D.split(D.split(cert)[0])[3] == D.split(D.split(issuer)[0])[5]


def cross(case, ctx):
    """Roll-over and cross certificates: more than one certificate can follow, and some of them lead nowhere."""
    ks = [(n["k"], n["i"]) for n in case["chain"]]
    a, b, c, d, e = ks
    tab = {}       # certificate -> (None, signing key, own key)

    def mk(subject, key, issuer, by, serial, ca=True):
        n = case["chain"][ks.index(by)]
        x = pki.make(pki.name(subject), key, issuer=pki.name(issuer), by=by, serial=serial, exts=[pki.bc(ca)], h=n["h"], pss=n["pss"] and by[0].startswith("rsa"))
        tab[x] = (None, by, key)
        return x
    s = case["shape"]
    if s == "rollover":
        ee = mk("EE", a, "Root", b, 1, False)
        pool = [mk("Root", b, "Root", b, 2), mk("Root", c, "Root", c, 3), mk("Root", c, "Root", b, 4), mk("Root", b, "Root", c, 5)]
    elif s == "cross":
        ee = mk("EE", a, "A", b, 1, False)
        pool = [mk("A", b, "B", c, 2), mk("B", c, "A", b, 3), mk("A", b, "A", b, 4), mk("B", c, "B", c, 5)]
    elif s == "bridge":
        ee = mk("EE", a, "A", b, 1, False)
        pool = [mk("A", b, "Bridge", c, 2), mk("A", b, "R1", d, 3), mk("Bridge", c, "R2", e, 4), mk("R1", d, "R1", d, 5), mk("R2", e, "R2", e, 6), mk("Bridge", c, "A", b, 7)]
    else:          # the same CA twice: the older one under a root that is not there
        ee = mk("EE", a, "A", b, 1, False)
        pool = [mk("A", b, "R1", c, 2), mk("A", b, "R2", d, 3), mk("R2", d, "R2", d, 4), mk("R1", c, "R1", c, 5)]
    have = [x for x, h in zip(pool, case["have"]) if h]
    have = shuffled(have, case["order"])
    # all simple paths
    best = []

    def walk(path):
        last = path[-1]
        if genuine(last, last, tab):
            best.append(path)
            return
        for x in have:
            if x not in path and genuine(last, x, tab):
                walk(path + [x])
    walk([ee])
    ctx.nontrivial(len(have) > 1)
    ctx.label(s)
    ctx.label("anchor reachable" if best else "no anchor")

    def call():
        return certutils.build_chain_from_list(pki.obj(ee), [pki.obj(x) for x in have], must_be_self_signed=case["self"])
    if not best and case["self"]:
        ctx.rejects("a chain without self-signed certificate at its end is accepted as complete", call, exc=(ValueError,), key="no-root")
        return
    got = ders(call())
    ctx.check(got and got[0] == ee, "the chain does not start with the end entity", key="cross-start")
    ctx.check(len(set(got)) == len(got), f"a certificate is on the chain twice ({s})", key="cross-twice")
    for x, y in zip(got, got[1:]):
        ctx.check(y in have and genuine(x, y, tab), f"the next certificate did not sign its predecessor ({s})", key="cross-link")
    if best:
        ctx.check(genuine(got[-1], got[-1], tab), f"a path to a self-signed certificate exists, but the chain ends before ({s})", key="cross-complete")


DEFECT = ["none", "none", "none", "expired", "future", "not-ca", "no-bc", "no-certsign", "path-length", "signature", "issuer-name", "anchor", "anchor-lookalike", "order", "ee-usage", "wrong-key"]
TRUSTED = st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries({
    "chain": nodes(n), "style": st.integers(0, 2), "defect": st.sampled_from(DEFECT), "at": st.integers(0, 9), "x": st.integers(0, 600), "strict": st.integers(0, 3),
    "usage": st.sampled_from([[], ["digitalSignature"], ["digitalSignature", "nonRepudiation"], ["keyAgreement"], ["keyEncipherment"], ["digitalSignature", "keyEncipherment", "dataEncipherment"]]),
    "want": st.sampled_from(["digitalSignature", "digitalSignature", "keyAgreement", "digitalSignature,nonRepudiation", None]), "others": st.integers(0, 2), "edge": st.sampled_from([1, 5, 3600, 86400, 10**8]),
    "path": st.booleans()}))


def trust(case, ctx):
    ch = case["chain"]
    n = len(ch)
    d = case["defect"]
    over = {0: {"ku": case["usage"]}}
    if n == 1:
        over[0]["ku"] = case["usage"] + (["keyCertSign"] if case["usage"] else [])
        over[0]["ca"] = True
    anchors_ok = True
    good = True
    if case["path"] and n > 1:      # the tightest path lengths which still allow the path
        for j in range(1, n):
            over.setdefault(j, {})["path"] = j - 1
    at = case["at"] % n
    if d == "expired":
        over.setdefault(at, {}).update(nb=pki.NOW - 400 * pki.DAY - case["edge"], na=pki.NOW - case["edge"])
        good = False
    elif d == "future":
        over.setdefault(at, {}).update(nb=pki.NOW + case["edge"] + 120, na=pki.NOW + 10**9)
        good = False
    elif d in ("not-ca", "no-certsign", "path-length", "no-bc"):
        if n < 2 or (d == "path-length" and n < 3):
            raise Skip("no such certificate")
        at = 1 + case["at"] % (n - 1)
        o = over.setdefault(at, {})
        if d == "not-ca":
            o["ca"] = False
            o["path"] = None
        elif d == "no-bc":          # version 3 without basicConstraints is no CA
            o["bc"] = False
            o.pop("path", None)
            if at == n - 1:
                raise Skip("OpenSSL accepts a self-signed anchor without basicConstraints")
            o["ku"] = []
        elif d == "no-certsign":
            o["ku"] = ["digitalSignature", "cRLSign"]
        else:
            at = 2 + case["at"] % (n - 2)
            over.setdefault(at, {})["path"] = case["x"] % (at - 1)
        good = False
    elif d == "signature":
        if n == 1:
            raise Skip("a self-signed anchor is trusted as it is")
        at = case["at"] % (n - 1)
        over.setdefault(at, {})["spoil"] = case["x"]
        good = False
    elif d == "issuer-name":
        if n == 1:
            raise Skip("one certificate")
        at = case["at"] % (n - 1)
        over.setdefault(at, {})["issuer"] = pki.name("Somebody else")
        good = False
    elif d == "wrong-key":
        if n == 1:
            raise Skip("one certificate")
        at = case["at"] % (n - 1)
        over.setdefault(at, {}).update(by=("ec:secp256k1", 0), h="sha256", pss=False)
        good = False
    certs = build(ch, case["style"], over=over)
    anchors = [certs[-1]]
    given = list(certs)
    if d == "anchor":
        anchors = []
        anchors_ok = False
    elif d == "anchor-lookalike":
        anchors = [pki.make(nm(n - 1, case["style"]), ("ec:secp256k1", 0), serial=n + 9, exts=[pki.bc(), pki.ski(ch[-1]["k"], ch[-1]["i"])])]
        anchors_ok = False
    elif d == "order":
        if n < 4:
            raise Skip("too short")
        # OpenSSL orders intermediate certificates itself, so only the leaf counts
        given[0], given[1] = given[1], given[0]
        raise Skip("the order of a chain is checked elsewhere")
    for j in range(case["others"]):
        anchors.append(pki.make(pki.name(f"Other root {j}"), ("ec:secp256k1", j), serial=77 + j, exts=[pki.bc()]))
    if case["at"] & 1:
        anchors.reverse()
    usage = over[0]["ku"]
    want = case["want"]
    strict = case["strict"]
    usage_ok = True
    if want is not None and strict > 0 and n > 1:      # a trust anchor may sign whatever its key usage is
        w = set(want.split(","))
        if not usage:
            usage_ok = strict == 1
        elif strict == 3:
            usage_ok = set(usage) == w
        else:
            usage_ok = w <= set(usage)
    objs = [pki.obj(c) for c in given]
    path = put("anchors", anchors)
    ctx.label(d if not good or d.startswith("anchor") else "genuine")
    ctx.label(f"length {n}")
    ctx.nontrivial(n > 2 or not good or d.startswith("anchor") or not usage_ok)

    def call():
        return certutils.certificates_must_be_trusted(objs, trustanchors=path, allow_os_store=False, key_usages=want, key_usage_strict=strict, verbose=False)
    if good and anchors_ok and usage_ok:
        ctx.accepts("a genuine path is not trusted", call, key="trusted")
    else:
        why = d if not good or not anchors_ok else "key usage"
        ctx.rejects(f"a path is trusted although: {why} (certificate {at} of {n}, usage {usage} want {want} strictness {strict})", call, exc=TRUST, key="untrusted:" + why)
    single = [pki.obj(c) for c in (certs[-1:] if case["x"] & 1 else certs)]
    ok = anchors_ok and all(cmpx.enc(c) in anchors for c in single)
    if not anchors:
        ok = False

    def call2():
        return certutils.certificates_are_trustanchors(single[0] if len(single) == 1 else single, trustanchors=path, allow_os_store=False, verbose=False)
    if ok:
        ctx.accepts("a trust anchor is not recognised", call2, key="anchor")
    else:
        ctx.rejects("a certificate that is no trust anchor is taken for one", call2, exc=TRUST, key="no-anchor")


SIGNER = st.fixed_dictionaries({"chain": nodes(2, pq=True), "style": st.integers(0, 2), "how": st.sampled_from(["ok", "ok", "name", "name-case", "key", "flip-tbs", "flip-sig", "swap"]), "x": st.integers(0, 5000), "bit": st.integers(0, 7)})


def signer(case, ctx):
    """check_is_cert_signer alone: exactly the holder of the issuer's name and key."""
    ee, ca = build(case["chain"], case["style"])
    how = case["how"]
    if how == "name":
        n = case["chain"][1]
        ca = pki.make(pki.name("Node 11"), (n["k"], n["i"]), exts=[pki.bc()], h=n["h"])
    elif how == "name-case":
        n = case["chain"][1]
        ca = pki.make(nm(1, (case["style"] + 1) % 3), (n["k"], n["i"]), exts=[pki.bc()], h=n["h"])
    elif how == "key":
        ca = decoy({"kind": ["same-name-self", "same-name-odd", "same-name-type"][case["x"] % 3], "at": 1, "x": case["x"] // 3}, case["chain"], [ee, ca], case["style"])
    elif how in ("flip-tbs", "flip-sig"):
        tbs, a, s = D.split(ee)
        if how == "flip-sig":
            s = bytearray(s)
            s[-1 - case["x"] % min(30, len(s) - 8)] ^= 1 << case["bit"]
            s = bytes(s)
        else:
            p = D.split(tbs)
            p[1] = D.integer(10 + 1 + case["x"])
            tbs = D.seq(*p)
        ee = D.seq(tbs, a, s)
    elif how == "swap":
        ee, ca = ca, ee
    ctx.label(how)
    ctx.nontrivial(how != "ok")
    got = certutils.check_is_cert_signer(pki.obj(ee), pki.obj(ca))
    ctx.eq(bool(got), how == "ok", f"the issuer is recognised ({how})", key="signer:" + how)


ORDER = st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries({"chain": st.just(n), "order": st.permutations(list(range(n + 2))), "issued": st.booleans(), "drop": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 4))}))


def ordered(case, ctx):
    """check_single_chain_is_ordered: every issuer follows directly, or stands before its subject."""
    n = case["chain"]
    ks = [{"k": "ec:secp256r1", "i": j % 2, "h": "sha256", "pss": False, "ids": 0} for j in range(n)]
    certs = build(ks)
    pool = certs + [pki.make(pki.name(f"Unrelated {j}"), ("ec:secp256k1", j), serial=j) for j in range(2)]
    extra = [pool[j] for j in case["order"]]
    if case["issued"] and n < 2:
        raise Skip("no chain besides the issued certificate")
    gone = None
    if case["drop"] is not None and case["drop"] < n and len(extra) > 1:
        gone = certs[case["drop"]]
        extra.remove(gone)
    todo = certs[1:] if case["issued"] else certs
    ctx.nontrivial(n > 2)

    def call():
        return checkutils.check_single_chain_is_ordered([pki.obj(c) for c in extra], [pki.obj(c) for c in certs], check_for_issued=case["issued"])
    if gone in todo:
        ctx.label("certificate missing")
        ctx.rejects("a certificate of the chain is missing in extraCerts", call, exc=(ValueError,), key="order-missing")
        return
    pos = [extra.index(c) for c in todo]
    want = all(b == a + 1 or b < a for a, b in zip(pos, pos[1:]))
    ctx.label("in order" if want else "out of order")
    ctx.eq(bool(call()), want, f"order of the positions {pos}", key="order")


SAME = st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries({
    "chain": nodes(n), "order": st.lists(st.integers(0, 9), min_size=6, max_size=6), "change": st.sampled_from(["same", "same", "shuffle", "drop", "other-root", "renewed"]), "at": st.integers(0, 3), "poll": st.booleans()}))


def same(case, ctx):
    """The chain of the protection certificate stays the same through a transaction."""
    certs = build(case["chain"])
    second = list(certs)
    ch = case["change"]
    n = len(certs)
    want = True
    if ch == "shuffle":
        second = [certs[0]] + shuffled(certs[1:], case["order"]) + [pki.make(pki.name("Unrelated"), ("ec:secp256k1", 0))]
    elif ch == "drop":
        if n < 2:
            raise Skip("one certificate")
        second.pop(1 + case["at"] % (n - 1))
        want = False
    elif ch in ("other-root", "renewed"):
        if n < 2:
            raise Skip("one certificate")
        second = build(case["chain"], over={n - 1: {"serial": 999}} if ch == "other-root" else {1: {"na": pki.NOW + 500 * pki.DAY}})
        second[0] = certs[0]
        if n > 2 and ch == "other-root":
            second = certs[:-1] + [second[-1]]
        want = False
    ctx.label(ch)
    ctx.nontrivial(n > 1)

    def call():
        first = [pki.obj(c) for c in certs]
        return protectionutils._check_is_same_chain(first, **{"polling_certs" if case["poll"] else "pki_conf_certs": [pki.obj(c) for c in second]})
    if want:
        ctx.accepts("the same chain is refused", call, key="same")
    else:
        ctx.rejects("another chain is taken for the same", call, exc=(ValueError,), key="not-same")


SUBS = [
    Sub("chain", CHAIN, chain, quick=150, thorough=4000, text="path among look-alikes, unrelated certificates and copies in any order"),
    Sub("signer", SIGNER, signer, quick=100, thorough=3000, text="issuer recognised exactly by name and signature"),
    Sub("cross", CROSS, cross, quick=150, thorough=4000, text="roll-over and cross certificates"),
    Sub("trust", TRUSTED, trust, quick=220, thorough=6000, text="trust decision for damaged and genuine paths"),
    Sub("ordered", ORDER, ordered, quick=150, thorough=3000, text="order of a chain in extraCerts"),
    Sub("same", SAME, same, quick=80, thorough=2000, text="chain of the protection certificate through a transaction"),
]
