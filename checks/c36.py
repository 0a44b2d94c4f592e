"""C36: ASN.1 paths, named bits and values, nonce checks and PEM helpers keep their contract."""
import base64
import os
import textwrap
from datetime import datetime, timezone

from hypothesis import strategies as st
from pyasn1.codec.der import decoder, encoder
from pyasn1.type import base, univ
from pyasn1_alt_modules import rfc4210, rfc4211, rfc5280, rfc5652, rfc9480

from lib import certs, gram, harness
from lib import der as D
from lib.harness import Sub
from resources import asn1utils as A
from resources import cmputils, convertutils
from resources import utils as U

PROPERTY = "C36"
TECHNIQUE = "model-based testing of the ASN.1 path, bit, nonce and PEM helpers against direct structural access, set arithmetic and a reference decoder"
RULE = ("Messages with every body type, every path into them, bit and name sets, nonce lists with generated distances and PEM texts with "
        "generated layout and damage. Non-trivial: an answer was compared with the reference, or a misuse had to be refused.")
ASSUMPTIONS = ["pyasn1's positional access (without instantiation) addresses the component it is given",
               "Python's base64 module is correct"]

REFUSED = (ValueError,)


# --- paths -----------------------------------------------------------------------------------------------------------

def children(o):
    """(path element, name of the child, child) of the set components, by position and without creating any."""
    if isinstance(o, univ.Choice):
        return [("." + o.getName(), o.getComponent())] if o.isValue else []
    if isinstance(o, (univ.Sequence, univ.Set)):
        out = []
        for i, nt in enumerate(o.componentType.namedTypes):
            c = o.getComponentByPosition(i, default=None, instantiate=False)
            if c is not None and c.isValue:
                out.append(("." + nt.name, c))
        return out
    if isinstance(o, (univ.SequenceOf, univ.SetOf)):
        return [(f"/{i}", o.getComponentByPosition(i, default=None, instantiate=False)) for i in range(len(o))]
    return []


def paths(o, prefix=""):
    out = []
    for p, c in children(o):
        out.append((prefix + p, c))
        out += paths(c, prefix + p)
    return out


def run_read(case, ctx):
    data = case["msg"]["der"]
    msg = cmputils.parse_pkimessage(data)
    before = encoder.encode(msg)
    all_paths = paths(msg)
    ctx.op(len(all_paths))
    for p, c in all_paths:
        q = p[1:]
        got = ctx.accepts(f"reading {q}", A.get_asn1_value, msg, q)
        ctx.check(got is c, f"reading {q} gave another component", key="read")
        if isinstance(c, univ.OctetString) and not isinstance(c, univ.Any):
            ctx.eq(A.get_asn1_value_as_bytes(msg, q), bytes(c), f"bytes at {q}")
        elif isinstance(c, univ.Integer):
            ctx.eq(A.get_asn1_value_as_number(msg, q), int(c), f"number at {q}")
        ctx.eq(A.get_asn1_value_as_der(msg, q), encoder.encode(c), f"DER at {q}")
    ctx.eq(encoder.encode(msg), before, "message after reading every component", key="read-changes")
    ctx.nontrivial("read")

    # paths that address nothing
    p, c = all_paths[case["pick"] % len(all_paths)]
    q = p[1:]
    bad = None
    if isinstance(c, univ.Choice):
        other = [n for n in c.componentType if n != c.getName()]
        if other:
            bad = f"{q}.{other[case['alt'] % len(other)]}"
            ctx.label("bad:choice")
    elif isinstance(c, (univ.SequenceOf, univ.SetOf)):
        bad = f"{q}/{len(c) + case['alt'] % 3}"
        ctx.label("bad:index")
        if case["alt"] % 5 == 0:
            bad = f"{q}.foo"
    elif isinstance(c, (univ.Sequence, univ.Set)):
        bad = f"{q}.noSuchField"
        ctx.label("bad:field")
    else:
        bad = f"{q}.value" if case["alt"] % 2 else f"{q}/0"
        ctx.label("bad:leaf")
        if isinstance(c, univ.ObjectIdentifier) or isinstance(c, (univ.BitString, univ.OctetString)) and bad.endswith("/0") and len(c):
            bad = f"{q}.value"
    if bad:
        ctx.rejects(f"reading {bad}, which is not there", A.get_asn1_value, msg, bad, exc=REFUSED, key="bad-path")
        ctx.rejects(f"demanding a value at {bad}", A.asn1_must_have_values_set, msg, bad, exc=REFUSED, key="bad-path")
        ctx.eq(encoder.encode(msg), before, f"message after the refused reading of {bad}", key="read-changes")
    # optional fields
    seqs = [("", msg)] + [(x[1:], y) for x, y in all_paths if isinstance(y, (univ.Sequence, univ.Set)) and not isinstance(y, univ.Choice)]
    q, s = seqs[case["pick"] % len(seqs)]
    present = {x[1:] for x, _ in children(s)}
    names = [nt.name for nt in s.componentType.namedTypes]
    for n in names:
        full = f"{q}.{n}" if q else n
        if n in present:
            ctx.accepts(f"{full} has a value", A.asn1_must_have_values_set, msg, full, key="must-have")
        else:
            ctx.rejects(f"{full} has no value", A.asn1_must_have_values_set, msg, full, exc=REFUSED, key="must-have")
    if len(present) >= 2 and len(present) < len(names):
        inside = sorted(present)
        ctx.rejects("a present and an absent field", A.asn1_must_have_values_set, msg,
                    ", ".join((f"{q}." if q else "") + n for n in inside[:1] + [n for n in names if n not in present][:1]), exc=REFUSED, key="must-have")
    ctx.eq(encoder.encode(msg), before, "message after asking for absent fields", key="read-changes")


def new_value(c, n):
    """Another value of the type of this component and whether it can be told apart."""
    if isinstance(c, univ.Any):
        return None
    if isinstance(c, univ.OctetString) or hasattr(c, "encoding") and hasattr(c, "asOctets"):
        try:
            old = bytes(c)
            if not hasattr(c, "encoding") or type(c).__name__ in ("OctetString", "KeyIdentifier"):
                return old + bytes([n % 256])
            if "Time" in type(c).__name__:
                return "20300101000000Z" if "General" in type(c).__name__ else "300101000000Z"
            return "X%d" % (n % 1000)
        except Exception:
            return None
    if isinstance(c, univ.Boolean):
        return not bool(c)
    if isinstance(c, univ.Integer):
        return int(c) + 1
    return None


def run_set(case, ctx):
    data = case["msg"]["der"]
    msg = cmputils.parse_pkimessage(data)
    leaves = [(p, c) for p, c in paths(msg) if not children(c) and not isinstance(c, base.ConstructedAsn1Type) and p.count(".") + p.count("/") >= 2]
    p, c = leaves[case["pick"] % len(leaves)]
    q = p[1:]
    v = new_value(c, case["n"])
    others = {x: encoder.encode(y) for x, y in leaves if x != p}
    if v is not None:
        try:
            want = encoder.encode(c.clone(v))
        except Exception:
            v = None
    if v is not None:
        got = ctx.accepts(f"setting {q}", A.set_asn1_value, msg, q, v)
        ctx.check(got is msg, "set_asn1_value returns the structure")
        ctx.eq(encoder.encode(A.get_asn1_value(msg, q)), want, f"value set at {q}", key="set")
        now = {x: encoder.encode(y) for x, y in paths(msg) if not children(y) and not isinstance(y, base.ConstructedAsn1Type) and x.count(".") + x.count("/") >= 2}
        ctx.eq([x for x in others if now.get(x) != others[x]], [], f"other fields after setting {q}", key="set-others")
        ctx.nontrivial("set")
        ctx.label("set:" + type(c).__name__)
    # elements of lists
    lists = [(x, y) for x, y in paths(msg) if isinstance(y, (univ.SequenceOf, univ.SetOf)) and len(y)]
    if lists:
        lp, lst = lists[case["n"] % len(lists)]
        k = len(lst)
        item = lst[case["alt"] % k]
        olds = [encoder.encode(x) for x in lst]
        ctx.rejects(f"setting {lp[1:]}/{k + 1}, a gap behind the end", A.set_asn1_value, msg, f"{lp[1:]}/{k + 1}", item, exc=REFUSED, key="set-gap")
        ctx.eq([encoder.encode(x) for x in lst], olds, "list after the refused setting", key="set-gap")
        at = case["alt"] % (k + 1)
        # a copy, as pyasn1 components are shared by reference
        copy, _ = decoder.decode(encoder.encode(item), asn1Spec=item.clone())
        try:
            A.set_asn1_value(msg, f"{lp[1:]}/{at}", copy)
        except ValueError as e:
            if "constraint" not in str(e).lower() and "size" not in str(e).lower():
                raise
        else:
            exp = list(olds)
            exp[at:at + 1] = [olds[case["alt"] % k]]
            ctx.eq([encoder.encode(x) for x in lst], exp, f"list after setting element {at} of {k}", key="set-list")
            ctx.label("set:append" if at == k else "set:element")
    for bad in ("", "  ", "header", q + ".", q + "/", "header.noSuchField", "noSuch.field", f"{q}.value"):
        ctx.rejects(f"setting at {bad!r}", A.set_asn1_value, msg, bad, 1, exc=REFUSED, key="set-bad")


# --- bits and names ----------------------------------------------------------------------------------------------------

BITS = {"PKIFailureInfo": rfc9480.PKIFailureInfo, "KeyUsage": rfc5280.KeyUsage, "ReasonFlags": rfc5280.ReasonFlags}
FAIL = ("badAlg badMessageCheck badRequest badTime badCertId badDataFormat wrongAuthority incorrectData missingTimeStamp badPOP certRevoked "
        "certConfirmed wrongIntegrity badRecipientNonce timeNotAvailable unacceptedPolicy unacceptedExtension addInfoNotAvailable badSenderNonce "
        "badCertTemplate signerNotTrusted transactionIdInUse unsupportedVersion notAuthorized systemUnavail systemFailure duplicateCertReq").split()
NAMES = {"PKIFailureInfo": FAIL,
         "KeyUsage": "digitalSignature nonRepudiation keyEncipherment dataEncipherment keyAgreement keyCertSign cRLSign encipherOnly decipherOnly".split(),
         "ReasonFlags": "unused keyCompromise cACompromise affiliationChanged superseded cessationOfOperation certificateHold privilegeWithdrawn aACompromise".split()}
INTS = {"PKIStatus": (rfc9480.PKIStatus, dict(zip("accepted grantedWithMods rejection waiting revocationWarning revocationNotification keyUpdateWarning".split(), range(7)))),
        "CRLReason": (rfc5280.CRLReason, {"unspecified": 0, "keyCompromise": 1, "cACompromise": 2, "affiliationChanged": 3, "superseded": 4,
                                          "cessationOfOperation": 5, "certificateHold": 6, "removeFromCRL": 8, "privilegeWithdrawn": 9, "aACompromise": 10}),
        "SubsequentMessage": (rfc4211.SubsequentMessage, {"encrCert": 0, "challengeResp": 1}),
        "CMSVersion": (rfc5652.CMSVersion, {f"v{i}": i for i in range(6)})}


def bitstring(spec, bits):
    s = D.bits_from_set(bits)
    o, rest = decoder.decode(s, asn1Spec=spec())
    assert not rest
    return o


def run_bits(case, ctx):
    spec, names = BITS[case["type"]], NAMES[case["type"]]
    n = len(names)
    bits = sorted({b % n for b in case["bits"]})
    ask = [b % n for b in case["ask"]]
    excl = case["excl"]
    ctx.label("type:" + case["type"], f"exclusive:{excl}", f"asked:{min(len(ask), 3)}")
    if bits:
        sep = [",", ", ", " ,", " , "][case["sep"] % 4]
        text = " " * (case["sep"] % 2) + sep.join(names[b] for b in bits) + " " * (case["sep"] % 3 // 2)
        made = ctx.accepts(f"bits by name {text!r}", A.asn1_names_to_bitstring, spec if case["sep"] % 2 else spec(), text)
        ctx.check(type(made) is spec, "type of the bit string")
        ctx.eq(encoder.encode(made), D.bits_from_set(bits), f"bit string of {text!r}", key="names-to-bits")
        ctx.eq(A.get_set_bitstring_names(made), ", ".join(names[b] for b in bits), "names of the set bits", key="bit-names")
        ctx.rejects("an unknown name", A.asn1_names_to_bitstring, spec, text + ",noSuchBit", exc=REFUSED, key="unknown-name")
    o = bitstring(spec, bits)
    one = {b for b in ask if b in bits}
    want = bool(one) and (not excl or len(bits) == 1)
    sep = [",", ", ", " ,"][case["sep"] % 3]
    pad = " " * (case["sep"] % 2)
    what = f"bits {bits} of {case['type']}, asked for {ask}, exclusive={excl}"
    if len(ask) == 1:
        ctx.eq(A.is_bit_set(o, ask[0], exclusive=excl), want, what + " (int)", key="is-bit-set-int")
    ctx.eq(ctx.accepts(what + " (numbers)", A.is_bit_set, o, pad + sep.join(map(str, ask)) + pad, exclusive=excl), want, what + " (numbers)", key="is-bit-set-numbers")
    text = pad + sep.join(names[b] for b in ask) + pad
    if not (excl and len(bits) == n):
        ctx.eq(ctx.accepts(what + " (names)", A.is_bit_set, o, text, exclusive=excl), want, what + f" (names {text!r})", key="is-bit-set-names")
        ctx.eq(bool(A.asn1_compare_named_values(o, text, exclusive=excl)), want, what + " (compare)", key="compare-bits")
        seq = rfc9480.PKIStatusInfo()
        if case["type"] == "PKIFailureInfo":
            seq["status"] = 2
            seq["failInfo"] = o
            ctx.eq(bool(A.asn1_compare_named_values(seq, text, exclusive=excl, query="failInfo")), want, what + " (query)", key="compare-bits")
        if not want:
            ctx.rejects(what + " (raise)", A.asn1_compare_named_values, o, text, exclusive=excl, raise_exception=True, exc=REFUSED, key="compare-raise")
    ctx.eq(A.is_bit_set(o, n + 3 + case["sep"], exclusive=excl), False, "a bit behind the end", key="behind-end")
    for bad in ("noSuchBit", text + ",noSuchBit", "", None, 1.5):
        ctx.rejects(f"asking for {bad!r}", A.is_bit_set, o, bad, exclusive=excl, exc=REFUSED, key="bits-misuse")
    for bad in (-1, "-1"):
        try:
            ctx.eq(A.is_bit_set(o, bad, exclusive=False), False, f"bit {bad!r}", key="negative-bit")
        except ValueError:
            ctx.label("negative refused")
    ctx.rejects("a bit string without a value", A.is_bit_set, spec(), 1, exc=REFUSED, key="no-value")
    ctx.nontrivial(f"bits:{want}")


def run_ints(case, ctx):
    spec, table = INTS[case["type"]]
    names = list(table)
    have = names[case["have"] % len(names)]
    o = spec(table[have])
    excl = case["excl"]
    ctx.label("type:" + case["type"])
    for name in names:
        ctx.eq(A.asn1_compare_named_integer(o, name), name == have, f"{case['type']} {have} compared with {name}", key="named-int")
        got = A.asn1_compare_named_values(o, " " * (case["have"] % 2) + name, exclusive=excl)
        ctx.eq(bool(got), name == have, f"{case['type']} {have} compared with {name}, exclusive={excl}", key="named-value")
        if name != have:
            ctx.rejects(f"{have} is not {name}", A.asn1_compare_named_values, o, name, exclusive=excl, raise_exception=True, exc=REFUSED, key="named-raise")
        ctx.eq(int(A.asn1_get_named_value(spec, name)), table[name], f"value of {name}", key="get-named")
        ctx.eq(int(A.asn1_get_named_value(spec(), name)), table[name], f"value of {name}", key="get-named")
        ctx.eq(encoder.encode(A.asn1_get_named_value(spec, name)), encoder.encode(spec(table[name])), f"{name} as DER", key="get-named")
    for bad in ("noSuchName", "", have + "x"):
        ctx.rejects(f"the name {bad!r}", A.asn1_compare_named_integer, o, bad, exc=REFUSED, key="unknown-name")
        ctx.rejects(f"the name {bad!r}", A.asn1_get_named_value, spec, bad, exc=REFUSED, key="unknown-name")
    ctx.nontrivial("int")


# --- nonces ------------------------------------------------------------------------------------------------------------

def run_nonces(case, ctx):
    base_ = case["base"]
    nonces = []
    for kind, i, flips, cut in case["list"]:
        if kind == "fresh" or not nonces:
            b = bytes((x + i * 37) % 256 for x in base_)
        else:
            b = bytearray(nonces[i % len(nonces)])
            for f in flips:
                if b:
                    b[(f // 8) % len(b)] ^= 1 << f % 8
            b = bytes(b)
            if kind == "cut":
                b = b[:max(0, len(b) - cut)]
            elif kind == "zero":
                b = b + b"\x00" * cut
        nonces.append(b)
    dist = case["dist"]

    def hamming(a, b):
        m = 8 * max(len(a), len(b))
        x = int.from_bytes(a.ljust(m // 8, b"\0"), "big") ^ int.from_bytes(b.ljust(m // 8, b"\0"), "big")
        return x.bit_count()

    pairs = [(a, b) for i, a in enumerate(nonces) for b in nonces[i + 1:]]
    near = min([hamming(a, b) for a, b in pairs], default=10 ** 6)
    ctx.label(f"n:{min(len(nonces), 4)}", "duplicate" if len(set(nonces)) < len(nonces) else "unique", "near" if near < dist else "far")
    arg = [list, lambda x: [univ.OctetString(y) for y in x]][case["typed"]](nonces)
    if len(set(nonces)) == len(nonces):
        ctx.accepts(f"{len(nonces)} different nonces", U.nonces_must_be_unique, arg, key="unique")
    else:
        ctx.rejects("repeated nonces", U.nonces_must_be_unique, arg, exc=REFUSED, key="unique")
    dist_arg = str(dist) if case["sd"] else dist
    if near >= dist:
        ctx.accepts(f"nonces {near} bits apart, {dist} wanted", U.nonces_must_be_diverse, nonces, dist_arg, key="diverse")
    else:
        ctx.rejects(f"nonces {near} bits apart, {dist} wanted", U.nonces_must_be_diverse, nonces, dist_arg, exc=REFUSED, key="diverse")
    if near >= 10:
        ctx.accepts("nonces at the default distance", U.nonces_must_be_diverse, nonces, key="diverse-default")
    else:
        ctx.rejects("nonces below the default distance", U.nonces_must_be_diverse, nonces, exc=REFUSED, key="diverse-default")
    for b in nonces[:2]:
        if len(b) >= dist:
            ctx.accepts("long enough", U.buffer_length_must_be_at_least, b, dist_arg)
        else:
            ctx.rejects("too short", U.buffer_length_must_be_at_least, b, dist_arg, exc=REFUSED, key="length")
        if b:
            m = U.manipulate_first_byte(b)
            ctx.check(len(m) == len(b) and m != b and m[1:] == b[1:], f"manipulated first byte of {b.hex()} is {m.hex()}", key="first-byte")
    ctx.nontrivial("nonces")


# --- PEM ---------------------------------------------------------------------------------------------------------------

LABELS = ["CERTIFICATE", "CERTIFICATE REQUEST", "PRIVATE KEY", "X509 CRL", "CMP"]


def pem_text(data, layout):
    b64 = base64.b64encode(data).decode()
    width = [64, 76, 20, 10 ** 6][layout["width"] % 4]
    lines = [b64[i:i + width] for i in range(0, len(b64), width)]
    if layout["armour"]:
        label = LABELS[layout["label"] % len(LABELS)]
        lines = [f"-----BEGIN {label}-----"] + lines + [f"-----END {label}-----"]
    for at, what in layout["noise"]:
        at = at % (len(lines) + 1)
        lines.insert(at, ["", "# comment", "   ", "#-----BEGIN CERTIFICATE-----", "# QUJD"][what % 5])
    if layout["trail"]:
        lines = [x + " " if x and not x.startswith("#") and i % 2 else x for i, x in enumerate(lines)]
    nl = ["\n", "\r\n"][layout["nl"] % 2]
    return nl.join(lines) + (nl if layout["last"] else "")


def run_pem(case, ctx):
    data, layout = case["data"], case["layout"]
    text = pem_text(data, layout)
    path = os.path.join(harness.SCRATCH, "c36.pem")
    with open(path, "w", newline="") as f:
        f.write(text)
    ctx.label("armour" if layout["armour"] else "bare", "noise" if layout["noise"] else "plain")
    ctx.eq(ctx.accepts("PEM text", U.decode_pem_string, text), data, "decoded PEM text", key="pem-str")
    ctx.eq(ctx.accepts("PEM bytes", U.decode_pem_string, text.encode()), data, "decoded PEM bytes", key="pem-bytes")
    ctx.eq(ctx.accepts("PEM file", U.load_and_decode_pem_file, path), data, "decoded PEM file", key="pem-file")
    ctx.eq(ctx.accepts("pem_to_der", U.pem_to_der, text.encode() if layout["nl"] else text), data, "pem_to_der", key="pem-der")
    if not any(w % 5 in (1, 3, 4) for _, w in layout["noise"]):
        ctx.eq(base64.b64decode(U.strip_armour(text.encode())), data, "body without armour", key="strip-armour")
    ctx.nontrivial("pem")
    # damage
    kind = case["damage"]
    lines = text.splitlines()
    if kind == "no-end" and layout["armour"]:
        bad = "\n".join(x for x in lines if not x.startswith("-----END"))
    elif kind == "no-begin" and layout["armour"]:
        bad = "\n".join(x for x in lines if not x.startswith("-----BEGIN"))
    elif kind == "char" and layout["armour"]:
        b64 = [i for i, x in enumerate(lines) if x.strip() and not x.startswith(("-", "#"))]
        i = b64[case["at"] % len(b64)]
        k = case["at"] % len(lines[i].rstrip())
        lines[i] = lines[i][:k] + "!?*$"[case["at"] % 4] + lines[i][k + 1:]
        bad = "\n".join(lines)
    elif kind == "empty":
        bad = ["", "\n", "# only a comment\n", "   \n\n"][case["at"] % 4]
    elif kind == "head" and layout["armour"]:
        head = ["Certificate:\n    Data:\n", "subject=CN = x\n", "Bag Attributes\n"][case["at"] % 3]
        bad = head + text
    elif kind == "two" and layout["armour"]:
        bad = text.rstrip() + "\n" + pem_text(data[::-1] + b"z", dict(layout, noise=[]))
    else:
        return
    ctx.label("damage:" + kind)
    with open(path, "w", newline="") as f:
        f.write(bad)
    for name, fn, arg in (("decode_pem_string", U.decode_pem_string, bad), ("load_and_decode_pem_file", U.load_and_decode_pem_file, path),
                          ("pem_to_der", U.pem_to_der, bad)):
        if kind in ("head", "two"):
            try:
                got = fn(arg)
            except ValueError:
                continue
            ctx.eq(got, data, f"{name} of a text with {kind}", key=f"pem-{kind}")
        else:
            ctx.rejects(f"{name} of a text damaged by {kind}", fn, arg, exc=REFUSED, key=f"pem-{kind}")


def run_chain(case, ctx):
    cs = [certs.cert_for(k, 0, ski=True, cn=f"C{i}") for i, k in enumerate(case["keys"])]
    ders = [encoder.encode(c) for c in cs]
    text = ""
    for i, d in enumerate(ders):
        text += ["", "# comment\n", "subject=CN = x\n", "\n", "junk before\n"][case["between"][i % len(case["between"])] % 5]
        text += pem_text(d, dict(case["layout"], armour=True, label=0, last=True, nl=0))
    path = os.path.join(harness.SCRATCH, "c36chain.pem")
    with open(path, "w") as f:
        f.write(text)
    got = ctx.accepts("chain file", U.load_certificate_chain, path)
    ctx.eq([encoder.encode(c) for c in got], ders, "certificates of the chain file", key="chain")
    one = os.path.join(harness.SCRATCH, "c36one.pem")
    for c, d in zip(cs, ders):
        p = U.pyasn1_cert_to_pem(c)
        ctx.eq(U.decode_pem_string(p), d, "certificate to PEM and back", key="cert-pem")
        lines = p.strip().split("\n")
        ctx.check(lines[0] == "-----BEGIN CERTIFICATE-----" and lines[-1] == "-----END CERTIFICATE-----" and all(len(x) == 64 for x in lines[1:-2]),
                  "layout of the PEM certificate", key="cert-pem-layout")
        U.write_cmp_certificate_to_pem(c, one)
        ctx.eq([encoder.encode(x) for x in U.load_certificate_chain(one)], [d], "written certificate", key="cert-file")
    where = os.path.join(harness.SCRATCH, "c36dir")
    U.write_certs_to_dir(cs, name_prefix="p", directory=where)
    ctx.eq([U.load_and_decode_pem_file(os.path.join(where, f"p_{i}.pem")) for i in range(len(cs))], ders, "certificates in the directory", key="dir")
    ctx.nontrivial("chain")
    cut = text[:text.rindex("\n-----END CERTIFICATE-----")]
    with open(path, "w") as f:
        f.write(cut)
    ctx.rejects("a chain file without its last line", U.load_certificate_chain, path, exc=REFUSED, key="chain-cut")


# --- conversions -------------------------------------------------------------------------------------------------------

def run_conv(case, ctx):
    t1, t2 = (datetime.fromtimestamp(x, timezone.utc) for x in (case["nb"], case["na"]))
    k1, k2 = ("u" if a and 1950 <= t.year < 2050 else "g" for a, t in zip(case["kinds"], (t1, t2)))
    s1 = t1.strftime("%y%m%d%H%M%SZ" if k1 == "u" else "%Y%m%d%H%M%SZ").encode()
    s2 = t2.strftime("%y%m%d%H%M%SZ" if k2 == "u" else "%Y%m%d%H%M%SZ").encode()
    e1, e2 = (D.tlv(0x17 if k == "u" else 0x18, s) for k, s in ((k1, s1), (k2, s2)))
    val, _ = decoder.decode(D.seq(e1, e2), asn1Spec=rfc5280.Validity())
    for name, want in (("notBefore", t1), ("notAfter", t2)):
        ctx.eq(convertutils.pyasn1_time_obj_to_py_datetime(val[name]), want, f"{name} as datetime", key="time")
    opt = ctx.accepts("validity", convertutils.validity_to_optional_validity, val)
    ctx.eq(encoder.encode(opt), D.ctx(4, D.ctx(0, e1) + D.ctx(1, e2)), "OptionalValidity", key="optional-validity")
    n = case["n"]
    ctx.eq(convertutils.str_to_int(str(n)), n, "text as number", key="int")
    ctx.eq(convertutils.str_to_int(n), n, "number as number", key="int")
    for bad in (f"{n}x", "", "0x10", None, 1.5, b"1", "1-2", "--1"):
        ctx.rejects(f"number {bad!r}", convertutils.str_to_int, bad, exc=REFUSED, key="int-bad")
    b = case["b"]
    ctx.eq(convertutils.str_to_bytes(b), b, "bytes", key="bytes")
    ctx.eq(convertutils.str_to_bytes("0x" + b.hex()), b, "hex text as bytes", key="bytes")
    if not case["t"].startswith("0x"):
        ctx.eq(convertutils.str_to_bytes(case["t"]), case["t"].encode(), "text as bytes", key="bytes")
    for bad in ("0x1", "0xzz", None, 7):
        ctx.rejects(f"bytes {bad!r}", convertutils.str_to_bytes, bad, exc=REFUSED, key="bytes-bad")
    if b:
        m = case["len"]
        r = U.expand_string_to_length(b, m)
        ctx.check(len(r) == m and all(r[i] == b[i % len(b)] for i in range(m)), "expanded bytes", key="expand")
    ctx.rejects("expanding nothing", U.expand_string_to_length, b"", 5, exc=REFUSED)
    ctx.rejects("negative length", U.expand_string_to_length, b"a", -1, exc=REFUSED)
    ctx.nontrivial("conv")


LAYOUT = st.fixed_dictionaries({"width": st.integers(0, 3), "armour": st.booleans(), "label": st.integers(0, 4), "nl": st.integers(0, 1),
                                "last": st.booleans(), "trail": st.booleans(), "noise": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 4)), max_size=3)})

READ = st.fixed_dictionaries({"msg": gram.messages(), "pick": st.integers(0, 400), "alt": st.integers(0, 20)})
SET = st.fixed_dictionaries({"msg": gram.messages(), "pick": st.integers(0, 400), "alt": st.integers(0, 20), "n": st.integers(0, 500)})
BIT = st.integers(0, 26)
BITCASE = st.fixed_dictionaries({"type": st.sampled_from(sorted(BITS)), "bits": st.one_of(st.lists(BIT, max_size=3), st.lists(BIT, max_size=27), st.just(list(range(27)))),
                                 "ask": st.lists(BIT, min_size=1, max_size=4), "excl": st.booleans(), "sep": st.integers(0, 11)})
NONCE = st.fixed_dictionaries({"base": st.one_of(st.binary(min_size=1, max_size=20), st.binary(min_size=16, max_size=16)),
                               "list": st.lists(st.tuples(st.sampled_from(["fresh", "flip", "flip", "cut", "zero"]), st.integers(0, 7),
                                                          st.lists(st.integers(0, 127), max_size=14), st.integers(0, 3)), max_size=5),
                               "dist": st.integers(0, 24), "sd": st.booleans(), "typed": st.just(0)})
PEM = st.fixed_dictionaries({"data": st.binary(min_size=1, max_size=200), "layout": LAYOUT,
                             "damage": st.sampled_from(["no-end", "no-begin", "char", "empty", "head", "two"]), "at": st.integers(0, 300)})
CHAIN = st.fixed_dictionaries({"keys": st.lists(st.sampled_from(["ed25519", "ec:secp256r1", "rsa2048", "ml-dsa-44"]), min_size=1, max_size=4),
                               "between": st.lists(st.integers(0, 4), min_size=1, max_size=4), "layout": LAYOUT})
CONV = st.fixed_dictionaries({"nb": st.integers(0, 7258118400), "na": st.integers(0, 200000000000), "kinds": st.tuples(st.booleans(), st.booleans()),
                              "n": st.integers(-10 ** 12, 10 ** 12), "b": st.binary(max_size=20), "t": st.text(max_size=12), "len": st.integers(0, 80)})

SUBS = [
    Sub("read", READ, run_read, quick=500, thorough=20000, shards=2, text="every component of a message is read by its path; paths to nothing are refused and change nothing"),
    Sub("set", SET, run_set, quick=500, thorough=20000, shards=1, text="setting a field or list element changes exactly that one"),
    Sub("bits", BITCASE, run_bits, quick=1500, thorough=60000, shards=1, text="named bits are made, named and tested as sets"),
    Sub("ints", st.fixed_dictionaries({"type": st.sampled_from(sorted(INTS)), "have": st.integers(0, 19), "excl": st.booleans()}), run_ints, quick=200, thorough=400, shards=1,
        text="named values are compared and looked up by value"),
    Sub("nonces", NONCE, run_nonces, quick=1500, thorough=60000, shards=1, text="nonce lists: repeated, near and far ones"),
    Sub("pem", PEM, run_pem, quick=1500, thorough=60000, shards=1, text="PEM layouts, comments, white space and damage"),
    Sub("chain", CHAIN, run_chain, quick=150, thorough=3000, shards=1, text="files and directories of certificates"),
    Sub("conv", CONV, run_conv, quick=1500, thorough=60000, shards=1, text="times, validity periods, numbers and byte strings"),
]
