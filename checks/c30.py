"""C30: names and general names mean the same in text and in ASN.1."""
from hypothesis import strategies as st
from pyasn1.codec.der import decoder, encoder
from pyasn1_alt_modules import rfc5280, rfc9480

from lib import der as D
from lib.harness import Sub
from resources import compareutils as C
from resources import prepareutils as P
from resources import utils as U

PROPERTY = "C30"
TECHNIQUE = "round-trip and differential testing of the text and ASN.1 forms of generated names against an independent RFC 4514 encoder; model-based testing of the comparisons"
RULE = ("Names of up to five relative names with one or two attributes of all known and of unknown types and values with special characters; pairs of "
        "names derived from each other by one edit. Non-trivial: a name was converted and compared with the independent encoding, a comparison was "
        "judged by the model, or a malformed text was refused.")
ASSUMPTIONS = ["The text form lists the relative names in reverse order (RFC 4514), as the existing tests demand of the parser",
               "The order of the attributes within one relative name does not matter; a country has two letters",
               "#-prefixed hexadecimal values are left out"]

OID = {"CN": "2.5.4.3", "L": "2.5.4.7", "ST": "2.5.4.8", "O": "2.5.4.10", "OU": "2.5.4.11", "C": "2.5.4.6", "STREET": "2.5.4.9",
       "DC": "0.9.2342.19200300.100.1.25", "UID": "0.9.2342.19200300.100.1.1", "SN": "2.5.4.5", "T": "2.5.4.12", "GN": "2.5.4.42", "S": "2.5.4.4",
       "I": "2.5.4.43", "GQ": "2.5.4.44", "DNQ": "2.5.4.46", "PSEUDONYM": "2.5.4.65", "NAME": "2.5.4.41", "EMAIL": "1.2.840.113549.1.9.1",
       "businessCategory": "2.5.4.15", "postalCode": "2.5.4.17", "organizationIdentifier": "2.5.4.97", "1.2.3.4": "1.2.3.4", "2.5.4.99": "2.5.4.99"}
PRINTABLE = "C", "SN", "DNQ"
IA5 = "DC", "EMAIL"
KEYS = list(OID)

PLAIN = "abcXYZ019 '()./:?-"


def value_for(key, v):
    """Make the drawn text fit the attribute type."""
    if key == "C":
        return "".join("ABCDEFGHIJ"[ord(c) % 10] for c in (v + "xy")[:2])
    if key in PRINTABLE:
        return "".join(c if c in PLAIN + "+,=" else "p" for c in v)
    if key in IA5:
        return "".join(c if 32 <= ord(c) < 127 else "i" for c in v)
    return v


def encode_value(key, v, kind=None):
    kind = kind or ("printable" if key in PRINTABLE else "ia5" if key in IA5 else "utf8")
    if kind == "bmp":
        return D.tlv(0x1E, v.encode("utf-16-be"))
    if kind == "universal":
        return D.tlv(0x1C, v.encode("utf-32-be"))
    if kind == "teletex":
        return D.tlv(0x14, v.encode("latin-1"))
    return D.tlv({"utf8": 0x0C, "printable": 0x13, "ia5": 0x16}[kind], v.encode())


def atv(a):
    return D.seq(D.oid(OID[a[0]]), encode_value(*a))


def name_der(rdns):
    return D.seq(*[D.set_of(*[atv(a) for a in rdn]) for rdn in rdns])


def escape(v, style=0):
    out = ""
    for i, c in enumerate(v):
        if c in '\\"+,;<>' or (i == 0 and c in " #") or (i == len(v) - 1 and c == " "):
            out += "\\" + c
        elif c == "\0":
            out += "\\00"
        else:
            out += c
    return out


def text_of(rdns, seps=",", plus="+"):
    return seps.join(plus.join(f"{a[0]}={escape(a[1])}" for a in rdn) for rdn in reversed(rdns))


def load(der, spec=rfc5280.Name):
    o, rest = decoder.decode(der, asn1Spec=spec())
    assert not rest
    return o


def fit(rdns):
    """Values that fit their types; at most one attribute of a type in a relative name."""
    out = []
    for rdn in rdns:
        r, seen = [], set()
        for k, v in rdn:
            key = KEYS[k % len(KEYS)]
            if key not in seen:
                seen.add(key)
                r.append((key, value_for(key, v) or "v"))
        out.append(r)
    return out


def run_text(case, ctx):
    rdns = fit(case["rdns"])
    der = name_der(rdns)
    ctx.label(f"rdns:{len(rdns)}", "multi" if any(len(r) > 1 for r in rdns) else "single",
              "special" if any(escape(v) != v for r in rdns for _, v in r) else "plain")
    text = text_of(rdns, ", " if case["space"] else ",") if rdns else ["Null-DN", "NULL-DN"][case["space"]]
    got = ctx.accepts(f"the name {text!r}", P.prepare_name, text)
    ctx.eq(encoder.encode(got), der, f"DER of {text!r}", key="parse")
    n = case["tag"]
    tagged = ctx.accepts("tagged", P.prepare_name, text, n)
    ctx.eq(encoder.encode(tagged), D.ctx(n, der), f"DER of {text!r} tagged [{n}]", key="parse-tagged")
    target = rfc5280.Name()
    ctx.check(P.prepare_name(text, target=target) is target and encoder.encode(target) == der, f"target of {text!r}", key="parse-target")
    # back: the attributes of a relative name come in the order of their encodings
    in_order = [sorted(r, key=atv) for r in rdns]
    want = text_of(in_order) if rdns else "NULL-DN"
    ctx.eq(ctx.accepts("rendering", U.get_openssl_name_notation, load(der)), want, "text of the name", key="render")
    ctx.eq(encoder.encode(P.prepare_name(U.get_openssl_name_notation(got))), der, "name after rendering and parsing", key="round-trip")
    ctx.eq(C.is_null_dn(got), not rdns, f"is_null_dn of {text!r}", key="null-dn")
    gn = ctx.accepts("directory name", P.prepare_general_name, "directoryName", text)
    ctx.eq(encoder.encode(gn), D.ctx(4, der), f"directoryName of {text!r}", key="gn-dir")
    ctx.check(C.compare_general_name_and_name(gn, got), "a directoryName equals its name", key="gn-compare")
    ctx.nontrivial("text")


def run_structure(case, ctx):
    rdns = []
    for rdn, kinds in zip(fit(case["rdns"]), case["kinds"] + [["utf8"] * 2] * 9):
        r = []
        for (k, v), kind in zip(rdn, kinds):
            if kind == "teletex":
                v = "".join(c if ord(c) < 256 else "t" for c in v)
            elif kind == "printable":
                v = "".join(c if c in PLAIN + "+,=" else "p" for c in v)
            elif kind == "ia5":
                v = "".join(c if ord(c) < 128 else "i" for c in v)
            elif kind == "bmp":
                v = "".join(c if ord(c) < 0xD800 else "b" for c in v)
            if k in PRINTABLE + IA5:
                v = value_for(k, v)
            r.append((k, v, kind))
        rdns.append(r)
    der = name_der(rdns)
    name = load(der)
    text = ctx.accepts("rendering", U.get_openssl_name_notation, name)
    ctx.eq(text, text_of([sorted(r, key=atv) for r in rdns]) if rdns else "NULL-DN", "text of the name", key="render")
    back = ctx.accepts(f"parsing {text!r}", P.prepare_name, text)
    ctx.eq(encoder.encode(back), name_der([[(k, v) for k, v, _ in r] for r in rdns]), f"name of {text!r}", key="round-trip")
    ctx.eq(encoder.encode(name), der, "the name afterwards", key="changed")
    cns = [v for r in rdns for k, v, _ in sorted(r, key=atv) if k == "CN"]
    ctx.eq(U.get_common_name(name), ",".join("CN=" + v for v in cns) if cns else "NULL-DN", "common name", key="cn")
    known = {k: v for r in rdns for k, v, _ in sorted(r, key=atv) if k not in ("UID", "1.2.3.4", "2.5.4.99")}
    ctx.eq(U.get_openssl_name_notation(name, return_dict=True), known, "attributes as dictionary", key="dict")
    ctx.eq(C.is_null_dn(name), not rdns, "is_null_dn", key="null-dn")
    ctx.nontrivial("structure")
    for k in {a[2] for r in rdns for a in r}:
        ctx.label("string:" + k)


EDITS = ["same", "value", "type", "case", "space", "drop", "add", "swap", "split", "merge", "string", "dup", "reverse", "prefix", "glue"]


def edit(rdns, how, at):
    r = [list(x) for x in rdns]
    if how == "add":
        r.insert(at % (len(r) + 1), [("OU", "added")])
    if not r:
        return r
    i = at % len(r)
    a = r[i][0]
    if how == "value":
        r[i][0] = (a[0], "QQ" if a[0] == "C" else a[1] + "q")
    elif how == "type":
        r[i][0] = ("PSEUDONYM" if a[0] != "PSEUDONYM" else "CN", a[1])
    elif how == "case":
        r[i][0] = (a[0], a[1].swapcase())
    elif how == "space":
        r[i][0] = (a[0], a[1] + " ")
    elif how == "drop":
        del r[i]
    elif how == "swap" and len(r) > 1:
        j = (i + 1) % len(r)
        r[i], r[j] = r[j], r[i]
    elif how == "split" and len(r[i]) > 1:
        r[i:i + 1] = [[x] for x in r[i]]
    elif how == "merge" and len(r) > 1:
        j = (i + 1) % len(r)
        if not {x[0] for x in r[i]} & {x[0] for x in r[j]}:
            r[i] = r[i] + r[j]
            del r[j]
    elif how == "string":
        r[i][0] = (a[0], a[1], "utf8" if a[0] in PRINTABLE + IA5 else "bmp")
    elif how == "dup":
        r.insert(i, list(r[i]))
    elif how == "reverse":
        r.reverse()
    elif how == "prefix":
        r = r[:i]
    elif how == "glue" and len(r) > 1:
        # one attribute whose value looks like two relative names
        r = [[("O", ",".join(f"{x[0]}={x[1]}" for y in r for x in y))]]
    return r


def run_compare(case, ctx):
    r1 = fit(case["rdns"])
    r2 = edit(r1, case["edit"], case["at"])
    d1, d2 = name_der(r1), name_der(r2)
    n1, n2 = load(d1), load(d2)
    same = d1 == d2
    ctx.label("edit:" + case["edit"], f"same:{same}")

    def flat(r):
        return [frozenset(atv(a) for a in x) for x in r]

    f1, f2 = flat(r1), flat(r2)
    # attributes as (type, value) without regard to the string type are not equal: the suite compares encodings
    cont = set().union(*f1) <= set().union(*f2)
    seq = all(i < len(f2) and x <= f2[i] for i, x in enumerate(f1))
    for a, b, wc, ws in ((n1, n2, cont, seq), (n1, n1, True, True)):
        eq = same if b is n2 else True
        ctx.eq(C.compare_pyasn1_names(a, b), eq, f"{case['edit']}: default mode", key="compare")
        ctx.eq(C.compare_pyasn1_names(a, b, "without_tag"), eq, f"{case['edit']}: without_tag", key="compare")
        ctx.eq(C.compare_pyasn1_names(a, b, "strict"), eq, f"{case['edit']}: strict", key="compare-strict")
        ctx.eq(C.compare_pyasn1_names(a, b, "contains"), wc, f"{case['edit']}: contains", key="contains")
        ctx.eq(C.compare_pyasn1_names(a, b, "contains_seq"), ws, f"{case['edit']}: contains_seq", key="contains-seq")
    # tagged names
    t, _ = decoder.decode(D.seq(D.ctx(4, d2)), asn1Spec=rfc5280.GeneralNames())
    tagged = t[0]["directoryName"]
    ctx.eq(C.compare_pyasn1_names(n1, tagged, "without_tag"), same, f"{case['edit']}: with a tagged name", key="compare-tagged")
    ctx.eq(C.compare_general_name_and_name(t[0], n1), same, f"{case['edit']}: general name", key="gn-compare")
    ctx.rejects("an unknown mode", C.compare_pyasn1_names, n1, n2, "no-such-mode", exc=(ValueError,), key="mode")
    # lists of general names
    decoy = name_der([[("CN", "decoy")]])
    lst = [D.ctxp(6, b"http://x"), D.ctx(4, decoy), D.ctx(4, d2)][:: 1 if case["at"] % 2 else -1]
    gns, _ = decoder.decode(D.seq(*lst), asn1Spec=rfc5280.GeneralNames())
    want = same or d1 == decoy
    ctx.eq(C.find_name_inside_general_names(gns, n1, "http://y"), want, f"{case['edit']}: within general names", key="gn-find")
    ctx.eq(C.find_name_inside_general_names(gns, n1, "http://x"), True, "URI within general names", key="gn-find")
    # relative names
    for x in r1:
        rdn = load(D.set_of(*[atv(a) for a in x]), rfc5280.RelativeDistinguishedName)
        ctx.eq(C.find_rel_dis_name_in_name(rdn, n2), frozenset(atv(a) for a in x) in f2, f"{case['edit']}: relative name {x}", key="rdn")
    ctx.nontrivial(f"compare:{same}")


def run_bad(case, ctx):
    rdns = fit(case["rdns"])
    text = text_of(rdns)
    how = case["how"]
    bad = {"no-equals": "JoeMustermann", "empty": "", "unknown": f"XX=1,{text}", "trailing": text + ",", "leading": "," + text, "double": text + ",,CN=x",
           "plus-end": text + "+", "backslash": text + "\\", "no-type": "=x," + text, "country": text + ",C=DEU", "no-value-sep": text + ",CN",
           "quote": text + ',CN="', "null-dn-plus": "NULL-DN," + text, "bad-oid": "1..2=x"}[how]
    ctx.rejects(f"the name {bad!r}", P.prepare_name, bad, exc=(ValueError,), key="bad-" + how)
    ctx.rejects(f"the directory name {bad!r}", P.prepare_general_name, "directoryName", bad, exc=(ValueError,), key="bad-" + how)
    ctx.nontrivial("bad:" + how)


GN = {"rfc822Name": 1, "dNSName": 2, "uri": 6, "uniformResourceIdentifier": 6}
RDN_PLAIN = ["CN", "L", "ST", "O", "OU", "C", "SN", "T", "GN", "S", "I", "GQ", "DNQ", "PSEUDONYM", "NAME", "EMAIL", "DC"]


def run_gn(case, ctx):
    v = "".join(c if 32 < ord(c) < 127 else "g" for c in case["v"]) or "g"
    for kind, n in GN.items():
        gn = ctx.accepts(kind, P.prepare_general_name, kind, v)
        ctx.eq(encoder.encode(gn), D.ctxp(n, v.encode()), f"{kind} {v!r}", key="gn-der")
    ctx.rejects("an unknown kind", P.prepare_general_name, "x400", v, exc=(NotImplementedError, ValueError), key="gn-kind")
    uri = P.prepare_general_name("uri", v)
    n = load(name_der([[("CN", "x")]]))
    ctx.eq(C.compare_general_name_and_name(uri, n, v), True, "URI equals itself", key="gn-uri")
    ctx.eq(C.compare_general_name_and_name(uri, n, v + "x"), False, "URI differs", key="gn-uri")
    ctx.rejects("no URI given", C.compare_general_name_and_name, uri, n, exc=(ValueError,), key="gn-uri")
    # relative names from text
    rdn, seen = [], set()
    for k, x in case["rdn"]:
        key = RDN_PLAIN[k % len(RDN_PLAIN)]
        if key not in seen:
            seen.add(key)
            x = value_for(key, "".join(c if c in PLAIN + "=" and c != "," else "z" for c in x).strip() or "z")
            rdn.append((key, x))
    text = (", " if case["sp"] else ",").join(f"{k}={x}" for k, x in rdn)
    got = ctx.accepts(f"the relative name {text!r}", P.prepare_relative_distinguished_name, text)
    ctx.eq(encoder.encode(got), D.set_of(*[atv(a) for a in rdn]), f"relative name {text!r}", key="rdn-der")
    full = P.prepare_name(text.replace(", ", ",").replace(",", "+"))
    ctx.eq(C.find_rel_dis_name_in_name(got, full), True, f"relative name {text!r} in its name", key="rdn-in-name")
    for bad in ("XX=1", "CN", text + ",", ""):
        ctx.rejects(f"the relative name {bad!r}", P.prepare_relative_distinguished_name, bad, exc=(ValueError,), key="rdn-bad")
    ctx.nontrivial("gn")


CHAR = st.one_of(st.sampled_from(list("abAB01 ,+=\\\"#;<>.-/")), st.sampled_from(list("äß€日𝄞\u200b\n")), st.characters(min_codepoint=32, max_codepoint=126))
VALUE = st.text(CHAR, min_size=1, max_size=10)
RDN = st.lists(st.tuples(st.integers(0, len(KEYS) - 1), VALUE), min_size=1, max_size=2)
RDNS = st.lists(RDN, max_size=5)
RDNS1 = st.lists(RDN, min_size=1, max_size=5)
KIND = st.sampled_from(["utf8", "utf8", "printable", "ia5", "bmp", "universal", "teletex"])

SUBS = [
    Sub("text", st.fixed_dictionaries({"rdns": RDNS, "space": st.booleans(), "tag": st.integers(0, 8)}), run_text, quick=1500, thorough=60000, shards=2,
        text="text to name, compared with an independent encoding, and back"),
    Sub("structure", st.fixed_dictionaries({"rdns": RDNS, "kinds": st.lists(st.lists(KIND, min_size=2, max_size=2), min_size=5, max_size=5)}), run_structure,
        quick=1500, thorough=60000, shards=2, text="names with all string types to text and back"),
    Sub("compare", st.fixed_dictionaries({"rdns": RDNS, "edit": st.sampled_from(EDITS), "at": st.integers(0, 9)}), run_compare, quick=1500, thorough=60000, shards=2,
        text="a name and an edited copy in every comparison"),
    Sub("bad", st.fixed_dictionaries({"rdns": RDNS1, "how": st.sampled_from(["no-equals", "empty", "unknown", "trailing", "leading", "double", "plus-end", "backslash",
                                                                             "no-type", "country", "no-value-sep", "quote", "null-dn-plus", "bad-oid"])}), run_bad,
        quick=400, thorough=8000, shards=1, text="malformed text is refused"),
    Sub("gn", st.fixed_dictionaries({"v": VALUE, "rdn": st.lists(st.tuples(st.integers(0, 30), VALUE), min_size=1, max_size=3), "sp": st.booleans()}), run_gn,
        quick=600, thorough=20000, shards=1, text="general names and relative names from text"),
]
