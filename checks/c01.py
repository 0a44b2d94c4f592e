"""C01: CMP messages survive decoding and encoding; malformed bytes are rejected."""
from hypothesis import strategies as st

from lib import der as D
from lib.gram import BODY_NAMES, G, messages
from lib.harness import Sub, short
from resources import asn1utils, cmputils

PROPERTY = "C01"
TECHNIQUE = "round-trip of grammar-generated messages, structure-aware mutation fuzzing of the decoder"
RULE = ("Messages are written by an independent DER writer from the ASN.1 of RFC 9810/4211/5652. "
        "Non-trivial: a round-trip case with at least 40 bytes of body, or a mutated input that differs from every valid message it was made from.")
ASSUMPTIONS = ["lib/gram.py transcribes the RFC grammar correctly (checked against the suite's own messages by the round trip)"]


def rt(case, ctx):
    data, name = case["der"], case["body"]
    ctx.label(name)
    ctx.nontrivial(len(data) > 80)
    msg = ctx.accepts("decoding a well-formed message", cmputils.parse_pkimessage, data)
    ctx.eq(cmputils.get_cmp_message_type(msg), name, "body type")
    got = ctx.accepts("encoding the decoded message", asn1utils.encode_to_der, msg)
    if got != data:
        i = next((k for k in range(min(len(got), len(data))) if got[k] != data[k]), min(len(got), len(data)))
        ctx.fail(f"{name}: re-encoding differs at byte {i}: got {short(got[i:])} expected {short(data[i:])}")
    # fields are what the grammar wrote
    hdr, body = D.split(data)[:2]
    parts = D.split(hdr)
    ctx.eq(int(msg["header"]["pvno"]), int.from_bytes(D.split(b"\x30" + D.ln(len(parts[0])) + parts[0])[0][2:], "big"), "pvno")
    for p in parts[3:]:
        k = {0xA2: "senderKID", 0xA3: "recipKID", 0xA4: "transactionID", 0xA5: "senderNonce", 0xA6: "recipNonce"}.get(p[0])
        if k:
            inner = D.split(p)[0]
            _t, _h, c, e = D.read(inner)
            ctx.eq(msg["header"][k].asOctets(), inner[c:e], k)
    present = {p[0] for p in parts[3:]}
    for tag, k in ((0xA2, "senderKID"), (0xA4, "transactionID"), (0xA5, "senderNonce"), (0xA6, "recipNonce"), (0xA8, "generalInfo")):
        if tag not in present:
            ctx.check(not msg["header"][k].isValue, f"absent header field {k} must not have a value")
    tags = [x[0] for x in D.split(data)[2:]]
    ctx.eq(bool(msg["protection"].isValue), 0xA0 in tags, "protection present")
    ctx.eq(bool(msg["extraCerts"].isValue), 0xA1 in tags, "extraCerts present")
    if name == "nested":
        inner = D.split(D.split(body)[0])
        ctx.eq(len(msg["body"]["nested"]), len(inner), "number of nested messages")
        for x, want in zip(msg["body"]["nested"], inner):
            ctx.eq(asn1utils.encode_to_der(x), want, "nested message")


@st.composite
def conf_hash(draw):
    """A certConf whose entries carry hashAlg where RFC 9810 puts it: after statusInfo."""
    g = G(draw)
    ent = [D.seq(g.octets(), g.sint(), g.opt(g.status), D.ctx(0, g.algid())) for _ in range(draw(st.integers(1, 2)))]
    return {"body": "certConf", "der": D.seq(g.header(), D.ctx(24, D.seq(*ent)))}


def rt_conf_hash(case, ctx):
    ctx.nontrivial()
    msg = ctx.accepts("decoding a certConf with hashAlg", cmputils.parse_pkimessage, case["der"], key="certConf-hashAlg-position")
    if msg is not None:
        ctx.eq(asn1utils.encode_to_der(msg), case["der"], "re-encoding")


@st.composite
def tmpl_null(draw):
    """A certificate request or revocation whose template names the NULL-DN."""
    g = G(draw)
    t = D.seq(D.ctxp(1, D.int_body(draw(st.integers(1, 2**32)))), g.opt(lambda: D.ctx(3, g.name(1))), D.ctx(5, D.seq()), g.opt(lambda: D.retag(6, g.spki())))
    name = draw(st.sampled_from(["ir", "cr", "kur", "ccr", "rr"]))
    inner = D.seq(D.seq(t)) if name == "rr" else D.seq(D.seq(D.seq(g.sint(), t), g.opt(g.popo)))
    return {"body": name, "der": D.seq(g.header(), D.ctx(BODY_NAMES.index(name), inner))}


def rt_tmpl_null(case, ctx):
    ctx.nontrivial()
    msg = ctx.accepts("decoding a template with the NULL-DN", cmputils.parse_pkimessage, case["der"])
    got = asn1utils.encode_to_der(msg)
    if D.strip_null_dn(case["der"]) == D.strip_null_dn(got):
        ctx.check(got == case["der"], "re-encoding drops the NULL-DN of a template field", key="template-null-dn-dropped")
    else:
        ctx.eq(got, case["der"], "re-encoding")


def _mutate(base, other, ops):
    data = bytearray(base)
    for kind, a, b in ops:
        if not data:
            break
        i = a % len(data)
        if kind == "flip":
            data[i] ^= 1 << (b % 8)
        elif kind == "set":
            data[i] = b % 256
        elif kind == "cut":
            del data[i:]
        elif kind == "del":
            del data[i:i + 1 + b % 9]
        elif kind == "ins":
            data[i:i] = bytes([b % 256]) * (1 + b % 5)
        elif kind == "splice":
            j = b % max(1, len(other))
            data[i:] = other[j:]
        elif kind == "dup":
            data[i:i] = data[i:i + 1 + b % 40]
        elif kind == "swap" and len(data) > 1:
            j = b % len(data)
            data[i], data[j] = data[j], data[i]
        elif kind in ("tag", "len"):
            pos = []

            def walk(s, e, depth=0):
                try:
                    for t, st_, c, en in D.children(bytes(data), s, e):
                        pos.append(st_)
                        if t & 0x20:
                            walk(c, en, depth + 1)
                except (ValueError, IndexError):
                    return
            walk(0, len(data))
            if pos:
                p = pos[a % len(pos)]
                if kind == "tag":
                    data[p] = b % 256
                elif p + 1 < len(data):
                    data[p + 1] = b % 256
    return bytes(data)


OPS = st.lists(st.tuples(st.sampled_from(["flip", "set", "cut", "del", "ins", "splice", "dup", "swap", "tag", "tag", "len", "len"]),
                         st.integers(0, 4095), st.integers(0, 255)).map(list), min_size=1, max_size=4)


@st.composite
def mutated(draw):
    g = G(draw)
    name = draw(st.sampled_from(BODY_NAMES))
    base = g.message(name)
    other = base if draw(st.booleans()) else g.message(draw(st.sampled_from(BODY_NAMES)))
    return {"data": _mutate(base, other, draw(OPS))}


def robust(case, ctx):
    data = case["data"]
    ctx.nontrivial(len(data) > 0)
    try:
        msg = cmputils.parse_pkimessage(data)
    except ValueError:
        ctx.label("rejected")
        return
    except RecursionError:
        ctx.fail("decoder ran into the recursion limit")
    ctx.label("accepted")
    # an accepted message has a known body and decodes again to the same thing
    name = cmputils.get_cmp_message_type(msg)
    ctx.check(name in BODY_NAMES, f"unknown body type {name}")
    try:
        again = asn1utils.encode_to_der(msg)
    except Exception:  # pylint: disable=broad-except
        ctx.label("accepted-not-encodable")
        return
    try:
        m2 = cmputils.parse_pkimessage(again)
    except ValueError:
        ctx.label("re-decode rejected")
        return
    ctx.eq(cmputils.get_cmp_message_type(m2), name, "body type after re-encoding")
    ctx.eq(asn1utils.encode_to_der(m2), again, "re-encoding is stable")


def truncated(case, ctx):
    """Every proper prefix of a message is rejected with the documented error."""
    data = case["der"]
    ctx.nontrivial()
    step = max(1, len(data) // 40)
    for n in sorted(set(range(0, len(data), step)) | {0, 1, 2, len(data) - 1}):
        ctx.op()
        e = ctx.rejects(f"prefix of {n}/{len(data)} bytes", cmputils.parse_pkimessage, data[:n], exc=ValueError)
        assert e is not None


SUBS = [
    Sub("roundtrip", messages(), rt, quick=1600, thorough=20000, shards=8, text="decode, check fields, re-encode"),
    Sub("certconf-hashalg", conf_hash(), rt_conf_hash, quick=30, thorough=300, text="hashAlg of CertStatus at its RFC 9810 position"),
    Sub("template-null-dn", tmpl_null(), rt_tmpl_null, quick=60, thorough=1000, text="template fields with the NULL-DN"),
    Sub("mutations", mutated(), robust, quick=1600, thorough=30000, shards=8, text="1-4 structural or byte mutations of a valid message"),
    Sub("bytes", st.fixed_dictionaries({"data": st.binary(max_size=200)}), robust, quick=400, thorough=20000, shards=2, text="arbitrary bytes"),
    Sub("prefixes", messages(), truncated, quick=100, thorough=1000, shards=4, text="all truncation classes"),
]
