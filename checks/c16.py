"""C16: stateful hash signatures never reuse a one-time key."""
import os

from hypothesis import strategies as st
from pyasn1_alt_modules import rfc5958

from lib import cmpx, der as D, lms, pki
from lib.harness import SCRATCH, Skip, Sub
from mock_ca.mock_fun import PQStatefulSigKeyConfig
from mock_ca.operation_dbs import StatefulSigKeyState, StatefulSigState
from mock_ca.stfl_validator import STFLPKIMessageValidator
from pq_logic.combined_factory import CombinedKeyFactory
from pq_logic.keys import hss_validation
from pq_logic.keys.pq_stateful_sig_factory import PQStatefulSigFactory
from pq_logic.keys.stateful_sig_keys import HSSPrivateKey, HSSPublicKey
from resources import certbuildutils, cmputils, cryptoutils, exceptions, keyutils, protectionutils
from resources.asn1_structures import PKIMessageTMP
from cryptography.exceptions import InvalidSignature

PROPERTY = "C16"
TECHNIQUE = "model-based testing: generated histories of signing, exporting and importing against a counter model and an LMS/HSS verifier written from RFC 8554"
RULE = "the history signs at least once after an export/import or crosses the end of a tree, or the signature or key was damaged"
ASSUMPTIONS = ["XMSS and XMSS-MT need liboqs, which is not installed: only HSS/LMS keys are generated", "a key copied before signing (two live copies of one state) is outside the property"]

KINDS = [("sha256", 32), ("sha256", 24), ("shake", 32), ("shake", 24)]
NAMES = [f"hss_lms_{k}_m{n}_h5_lmots_{k}_n{n}_w{w}" for k, n in KINDS for w in (1, 2, 4)] + ["hss_lms_sha256_m32_h5_lmots_sha256_n32_w8"]
ALG = D.seq(D.oid("1.2.840.113549.1.9.16.3.17"))
BAD = (ValueError, InvalidSignature, exceptions.CMPTestSuiteError)
VIA = ["key", "key", "key", "data", "csr", "popo", "protect", "cert"]
FORM = ["raw", "one-asym", "one-asym-pub", "file", "pem"]

OPS = st.lists(st.one_of(
    st.tuples(st.just("sign"), st.sampled_from(VIA), st.integers(1, 3)),
    st.tuples(st.just("sign"), st.just("key"), st.sampled_from([1, 10, 29, 31, 32, 33])),
    st.tuples(st.just("io"), st.sampled_from(FORM), st.just(0)),
    st.tuples(st.just("query"), st.just("all"), st.just(0))).map(list), min_size=1, max_size=9)
HIST = st.fixed_dictionaries({"alg": st.sampled_from(NAMES), "levels": st.sampled_from([1, 1, 1, 2, 2, 3]), "start": st.sampled_from([0, 0, 0, 20, 30, 31]), "ops": OPS, "msg": st.binary(max_size=40)})


def roundtrip(key, form):
    if form == "raw":
        return HSSPrivateKey.from_private_bytes(key.private_bytes_raw())
    if form in ("one-asym", "one-asym-pub"):
        der = CombinedKeyFactory.save_private_key_one_asym_key(key, password=None, include_public_key=form == "one-asym-pub", unsafe=True)
        return CombinedKeyFactory.load_private_key_from_one_asym_key(der)
    path = os.path.join(SCRATCH, f"c16-{os.getpid()}.pem")
    pw = "11111" if form == "pem" else None
    keyutils.save_key(key, path, password=pw)
    return keyutils.load_private_key_from_file(path, password=pw)


def sign_via(key, via, msg):
    """Sign with one of the suite's entry points: (signed data, signature)."""
    if via == "key":
        return msg, key.sign(msg)
    if via == "data":
        return msg, cryptoutils.sign_data(msg, key=key, hash_alg=None)
    if via == "csr":
        csr = cmpx.enc(certbuildutils.build_csr(key, common_name="CN=x"))
        info, _a, sig = D.split(csr)
        _t, _h, c, e = D.read(sig)
        return info, sig[c + 1:e]
    if via == "popo":
        req = cmputils.prepare_cert_req_msg(private_key=key, common_name="CN=x")
        a, b = D.split(cmpx.enc(req))[:2]
        sig = D.split(b)[-1]
        _t, _h, c, e = D.read(sig)
        return a, sig[c + 1:e]
    if via == "cert":
        cert = cmpx.enc(certbuildutils.build_certificate(private_key=key, common_name="CN=x", hash_alg=None)[0])
        tbs, _a, sig = D.split(cert)
        _t, _h, c, e = D.read(sig)
        return tbs, sig[c + 1:e]
    pki_msg = cmputils.prepare_pki_message(sender="CN=x", recipient="CN=y", exclude_fields="transactionID,senderNonce,messageTime")
    pki_msg["body"]["pkiconf"] = cmpx.parse(D.seq(D.seq(D.integer(2), D.ctx(4, pki.name("a")), D.ctx(4, pki.name("b"))), D.ctx(19, D.null())))["body"]["pkiconf"]
    out = protectionutils.protect_pkimessage(pki_msg, "signature", private_key=key, exclude_certs=True)
    w = cmpx.Wire(cmpx.enc(out))
    return D.seq(w.header, w.body), w.prot


def history(case, ctx):
    key = PQStatefulSigFactory.generate_pq_stateful_key(case["alg"], levels=case["levels"])
    pub = key.public_key().public_bytes_raw()
    total = 32 ** case["levels"]
    used = 0
    moved = False
    ctx.label(f"levels {case['levels']}", case["alg"].split("_")[2])
    for _ in range(case["start"]):
        key.sign(b"start")
        used += 1
    ctx.eq(key.max_sig_size, total, "capacity of the key", key="capacity")
    for name, how, n in case["ops"]:
        if name == "sign":
            for j in range(n):
                msg = case["msg"] + bytes([j])
                if used == total:
                    ctx.label("exhausted")
                    ctx.nontrivial()
                    ctx.rejects("an exhausted key signs", sign_via, key, how, msg, exc=BAD, key="exhausted")
                    break
                ctx.op()
                data, sig = sign_via(key, how, msg)
                ctx.eq(lms.index(sig), used, f"index of the signature ({how})", key="index:" + how)
                ctx.eq(keyutils.get_pq_stateful_sig_index_from_sig(sig, key if j & 1 else key.public_key()), used, "index reported for the signature", key="reported")
                ctx.eq(keyutils.get_pq_stateful_sig_index_from_sig(sig, key, return_lms_index=True), used % 32, "leaf index reported for the signature", key="leaf")
                used += 1
                ctx.eq(key.sigs_remaining, total - used, f"remaining signatures ({how})", key="remaining:" + how)
                if n < 5 or j in (0, n - 1):
                    ctx.check(lms.verify(pub, data, sig), f"the signature does not verify ({how})", key="verify:" + how)
                    ctx.accepts("the suite refuses its signature", key.public_key().verify, data, sig, key="self-verify")
                    ctx.eq(len(sig), key.sig_size, "length of a signature", key="length")
                if moved or used % 32 in (0, 1):
                    ctx.nontrivial()
        elif name == "io":
            before = key.used_keys
            key = ctx.accepts(f"a key with {total - used} signatures left cannot be loaded again ({how})", roundtrip, key, how, key="io:" + how)
            del before
            moved = True
            ctx.label("import " + how)
            ctx.eq(key.sigs_remaining, total - used, f"remaining signatures after {how}", key="remaining-io")
            ctx.eq(key.levels, case["levels"], "levels", key="levels-io")
            ctx.eq(key.name, case["alg"], "algorithm", key="name-io")
        else:
            # looking at a key does not use it up
            key.public_key()
            _ = (key.used_keys, key.key_size, key.sig_size, key.max_sig_size)
            ctx.eq(CombinedKeyFactory.load_private_key_from_one_asym_key(CombinedKeyFactory.save_private_key_one_asym_key(key, password=None)).sigs_remaining, total - used, "remaining signatures of the exported key", key="export-query")
            ctx.eq(key.sigs_remaining, total - used, "remaining signatures after reading the key", key="query")
        ctx.eq(key.public_key().public_bytes_raw(), pub, "public key", key="public")


VERIFY = st.fixed_dictionaries({"alg": st.sampled_from(NAMES), "levels": st.sampled_from([1, 1, 2, 3]), "skip": st.integers(0, 3), "msg": st.binary(max_size=30),
                                "how": st.sampled_from(["ok", "flip", "flip", "flip", "cut", "append", "msg", "key", "levels", "index", "types", "swap", "splice", "empty"]), "p": st.integers(0, 1 << 30), "bit": st.integers(0, 7)})


def verify(case, ctx):
    """The suite accepts exactly what RFC 8554 calls valid, and refuses the rest as an invalid signature."""
    key = PQStatefulSigFactory.generate_pq_stateful_key(case["alg"], levels=case["levels"])
    for _ in range(case["skip"]):
        key.sign(b"x")
    msg = case["msg"]
    sig = key.sign(msg)
    pub = key.public_key()
    how, p = case["how"], case["p"]
    ctx.label(how)
    if how == "flip":
        # the ends of the parts are the interesting positions
        at = [p % len(sig), p % 12, len(sig) - 1 - p % 200][p % 3]
        sig = sig[:at] + bytes([sig[at] ^ 1 << case["bit"]]) + sig[at + 1:]
    elif how == "cut":
        sig = sig[:-(1 + [p % 40, p % len(sig)][p % 2])]
    elif how == "append":
        sig += bytes([p & 255]) * (1 + p % 70)
    elif how == "msg":
        msg = msg + b"\0"
    elif how == "key":
        pub = PQStatefulSigFactory.generate_pq_stateful_key(case["alg"], levels=case["levels"]).public_key()
    elif how == "levels":
        sig = lms.u32(p % 10) + sig[4:]
    elif how == "index":
        n = 4 if case["levels"] == 1 else len(sig) - len(lms_tail(sig))
        sig = sig[:n] + lms.u32([p % 64, (1 << 32) - 1, 32][p % 3]) + sig[n + 4:]
    elif how == "types":
        sig = sig[:8] + lms.u32(p % 20) + sig[12:]
    elif how == "swap":
        sig2 = key.sign(msg + b"!")
        n = len(sig) // 2
        sig = sig[:n] + sig2[n:]
    elif how == "splice":      # the inner tree of another key of the same shape
        other = PQStatefulSigFactory.generate_pq_stateful_key(case["alg"], levels=case["levels"])
        o = other.sign(msg)
        n = len(sig) - len(lms_tail(sig))
        sig = sig[:n] + o[n:]
    elif how == "empty":
        sig = sig[:p % 9]
    good = lms.verify(pub.public_bytes_raw(), msg, sig)
    ctx.nontrivial(how != "ok")
    if good:
        ctx.accepts("a valid signature is refused", pub.verify, msg, sig, key="valid")
        ctx.accepts("a valid signature is refused", cryptoutils.verify_signature, public_key=pub, signature=sig, data=msg, key="valid2")
    else:
        ctx.rejects(f"an invalid signature is accepted ({how})", pub.verify, msg, sig, exc=(InvalidSignature,), key="invalid:" + how)
        ctx.rejects(f"an invalid signature is accepted ({how})", cryptoutils.verify_signature, public_key=pub, signature=sig, data=msg, exc=(InvalidSignature,), key="invalid2:" + how)


def lms_tail(sig):
    parts, last = lms.parse(sig)
    q, t, c, y, lt, path = last
    return lms.u32(q) + lms.u32(t) + c + b"".join(y) + lms.u32(lt) + b"".join(path)


LOAD = st.fixed_dictionaries({"alg": st.sampled_from(NAMES), "levels": st.sampled_from([1, 1, 2]), "signed": st.integers(0, 3), "what": st.sampled_from(["pub", "spki", "priv", "one-asym", "pub-mismatch", "ok"]),
                              "how": st.sampled_from(["cut", "append", "type", "ots", "levels", "empty", "params"]), "p": st.integers(0, 1 << 20)})


def load(case, ctx):
    """Damaged keys are refused."""
    key = PQStatefulSigFactory.generate_pq_stateful_key(case["alg"], levels=case["levels"])
    for _ in range(case["signed"]):
        key.sign(b"x")
    pub, raw = key.public_key().public_bytes_raw(), key.private_bytes_raw()
    what, how, p = case["what"], case["how"], case["p"]
    ctx.label(what if what in ("ok", "pub-mismatch") else what + " " + how)
    ctx.nontrivial()

    def spki(x, extra=b""):
        return D.seq(D.seq(D.oid("1.2.840.113549.1.9.16.3.17"), extra), D.bits(x))

    def load_spki(x):
        from pyasn1.codec.der import decoder
        from pyasn1_alt_modules import rfc5280
        return keyutils.load_public_key_from_spki(decoder.decode(x, asn1Spec=rfc5280.SubjectPublicKeyInfo())[0])
    if what == "ok":
        ctx.eq(load_spki(spki(pub)).public_bytes_raw(), pub, "public key", key="ok-spki")
        ctx.eq(HSSPublicKey.from_public_bytes(pub).name, case["alg"], "name", key="ok-name")
        got = CombinedKeyFactory.load_private_key_from_one_asym_key(D.seq(D.integer(0), ALG, D.octets(raw)))
        ctx.eq(got.private_bytes_raw(), raw, "private key", key="ok-priv")
        return
    if what == "pub-mismatch":
        other = PQStatefulSigFactory.generate_pq_stateful_key(NAMES[p % len(NAMES)], levels=1 + p % 2).public_key().public_bytes_raw()
        ctx.rejects("a private key with the public key of another one is loaded", CombinedKeyFactory.load_private_key_from_one_asym_key, D.seq(D.integer(1), ALG, D.octets(raw), D.tlv(0x81, b"\0" + other)), exc=BAD, key="mismatch")
        return
    if what in ("pub", "spki"):
        x = pub
        if how == "cut":
            x = x[:-(1 + p % len(x))]
        elif how == "append":
            x += b"\0" * (1 + p % 40)
        elif how == "type":
            v = p % 40
            if v in lms.LMS and lms.LMS[v][:2] == lms.OTS[int.from_bytes(pub[8:12], "big")][:2] and lms.LMS[v][2] >= 5:
                raise Skip("a valid key of another height")
            x = x[:4] + lms.u32(v) + x[8:]
        elif how == "ots":
            v = p % 24
            if v in lms.OTS and lms.OTS[v][:2] == lms.LMS[int.from_bytes(pub[4:8], "big")][:2]:
                raise Skip("a valid key with another w")
            x = x[:8] + lms.u32(v) + x[12:]
        elif how == "levels":
            x = lms.u32([0, 9, 1 << 31, 10][p % 4]) + x[4:]
        elif how == "empty":
            x = x[:p % 12]
        elif what == "pub":
            raise Skip("no parameters")
        if what == "pub":
            def run():
                k = HSSPublicKey.from_public_bytes(x)
                if how == "levels":    # the number of levels is checked apart from loading
                    hss_validation.validate_hss_key(k)
            ctx.rejects(f"a damaged public key is loaded ({how})", run, exc=BAD, key="pub:" + how)
        else:
            if how == "levels":
                raise Skip("checked apart from loading")
            ctx.rejects(f"a damaged public key is loaded ({how})", load_spki, spki(x, D.null() if how == "params" else b""), exc=BAD, key="spki:" + how)
        return
    x = raw
    if how == "cut":
        x = x[:-(1 + p % len(x))]
    elif how == "append":
        x += b"\0" * (1 + p % 40)
    elif how == "empty":
        x = x[:p % 12]
    elif how == "levels":
        x = lms.u32([0, 9, 3][p % 3]) + x[4:]
    elif how == "type":
        x = x[:12] + lms.u32(30 + p % 200) + x[16:]
    elif how == "ots":
        x = x[:16] + lms.u32(20 + p % 200) + x[20:]
    elif what == "priv":
        raise Skip("no parameters")
    if what == "priv":
        ctx.rejects(f"a damaged private key is loaded ({how})", HSSPrivateKey.from_private_bytes, x, exc=BAD, key="priv:" + how)
    else:
        alg = D.seq(D.oid("1.2.840.113549.1.9.16.3.17"), D.null()) if how == "params" else ALG
        ctx.rejects(f"a damaged private key is loaded ({how})", CombinedKeyFactory.load_private_key_from_one_asym_key, D.seq(D.integer(0), alg, D.octets(x)), exc=BAD, key="one:" + how)


FAM = st.tuples(st.sampled_from(["sha256", "sha256", "shake"]), st.sampled_from([32, 32, 24]), st.sampled_from([5, 10, 15, 20, 25]))
LEVEL = st.one_of(FAM.flatmap(lambda f: st.sampled_from([1, 2, 4, 8]).map(lambda w: [f[0], f[1], f[2], f[0], f[1], w])),
                  st.tuples(st.sampled_from(["sha256", "shake"]), st.sampled_from([32, 24]), st.sampled_from([5, 10]), st.sampled_from(["sha256", "shake"]), st.sampled_from([32, 24]), st.sampled_from([1, 8])).map(list))
LEVELS = st.fixed_dictionaries({"levels": st.one_of(st.lists(LEVEL, min_size=0, max_size=9), st.tuples(LEVEL, st.integers(1, 9)).map(lambda x: [list(x[0])] * x[1])), "diff": st.booleans(), "case": st.booleans(), "bad": st.integers(0, 9)})


def levels(case, ctx):
    ls = case["levels"]
    names = [(f"lms_{a}_m{n}_h{h}", f"lmots_{b}_n{m}_w{w}") for a, n, h, b, m, w in ls]
    want = 1 <= len(ls) <= 8 and all(a == b and n == m for a, n, _h, b, m, _w in ls)
    if not case["diff"] and len({(a, m, w) for a, _n, _h, _b, m, w in ls}) > 1:
        want = False
    if case["bad"] == 0 and names:
        names[-1] = (names[-1][0].replace("_h", "_h7"), names[-1][1]) if len(ls) & 1 else (names[-1][0], names[-1][1].replace("_w", "_w3"))
        want = False
    if case["case"]:
        names = [(a.upper(), b.upper()) for a, b in names]
    ctx.label("valid" if want else "invalid", f"{len(ls)} levels")
    ctx.nontrivial(len(ls) > 1)
    if want:
        ctx.accepts(f"a valid hierarchy is refused: {names}", hss_validation.validate_hss_key_levels, names, enforce_lw=case["diff"], key="levels")
    else:
        ctx.rejects(f"an invalid hierarchy is accepted: {names}", hss_validation.validate_hss_key_levels, names, enforce_lw=case["diff"], exc=BAD, key="bad-levels")


STATE = st.fixed_dictionaries({"keys": st.integers(1, 2), "levels": st.sampled_from([1, 1, 2]), "save": st.booleans(), "ccr": st.booleans(), "first": st.lists(st.integers(0, 3), max_size=3),
                               "ops": st.lists(st.fixed_dictionaries({"key": st.integers(0, 2), "go": st.sampled_from(["next", "next", "next", "again", "skip", "resend"]), "n": st.integers(0, 40), "body": st.sampled_from(["genm", "genm", "rr", "ccr"]), "bad": st.integers(0, 5)}), min_size=1, max_size=9)})


def message(key, cert, body, n):
    tag = {"genm": 21, "rr": 11, "ccr": 13}[body]
    content = {"genm": D.seq(), "rr": D.seq(), "ccr": D.seq()}[body]
    name = D.ctx(4, pki.name("x"))
    alg = D.seq(D.oid("1.2.840.113549.1.9.16.3.17"))
    header = D.seq(D.integer(2), name, name, D.ctx(1, alg), D.ctx(4, D.octets(bytes([n]) * 16)))
    b = D.ctx(tag, content)
    sig = key.sign(D.seq(header, b))
    return D.seq(header, b, D.ctx(0, D.bits(sig)), D.ctx(1, D.seq(cert))), sig


def state(case, ctx):
    """The index book of the CA: a message whose index is in it is refused, every accepted index goes into it."""
    book = StatefulSigState()
    conf = PQStatefulSigKeyConfig(allow_stfl_ccr=case["ccr"], saved_bad_message_check_stfl_key=case["save"])
    val = STFLPKIMessageValidator(stfl_state=book, stfl_config=conf)
    ks, certs, model, snaps = [], [], [], []
    for j in range(case["keys"] + 1):
        k = PQStatefulSigFactory.generate_pq_stateful_key("hss_lms_sha256_m32_h5_lmots_sha256_n32_w1", levels=case["levels"])
        ks.append(k)
        certs.append(certbuildutils.build_certificate(private_key=k, common_name=f"CN=k{j}", hash_alg=None, ca_key=pki.keys.get("ed25519"))[0])
        snaps.append({0: k.private_bytes_raw()})
        model.append(None)
        if j < case["keys"]:           # the last one was never issued by this CA
            first = sorted(set(case["first"]))
            if first:
                book.add_state(certs[j], StatefulSigKeyState(used_indices=list(first)))
            else:
                book.add_state(certs[j])
                first = [0]
            model[j] = set(first)
            ctx.rejects("a certificate is registered twice", book.add_state, certs[j], exc=BAD, key="twice")
    pos = [0] * len(ks)
    last = [None] * len(ks)
    hits = 0
    for o in case["ops"]:
        j = o["key"] % len(ks)
        if o["go"] == "resend" and last[j]:
            data, idx = last[j]
        else:
            if o["go"] == "again":
                idx = o["n"] % (pos[j] + 1)
            elif o["go"] == "skip":
                while pos[j] < min(o["n"] % 33, 32 ** case["levels"] - 1):
                    ks[j].sign(b"skip")
                    pos[j] += 1
                    snaps[j][pos[j]] = ks[j].private_bytes_raw()
                idx = pos[j]
            else:
                idx = pos[j]
            if idx >= 32 ** case["levels"]:
                continue
            k = ks[j] if idx == pos[j] else HSSPrivateKey.from_private_bytes(snaps[j][idx])
            data, _sig = message(k, cmpx.enc(certs[j]), o["body"], o["n"])
            if idx == pos[j]:
                pos[j] += 1
                snaps[j][pos[j]] = k.private_bytes_raw()
        last[j] = (data, idx)
        msg = cmpx.parse(data)
        body = msg["body"].getName()
        ok = model[j] is not None and idx not in model[j] and (body != "ccr" or case["ccr"])
        ctx.op()

        def run():
            val.validate_pq_stateful_pki_message(msg)
        if ok:
            ctx.accepts(f"a message with the fresh index {idx} is refused", run, key="fresh")
            if case["save"]:
                model[j].add(idx)
            if o["bad"]:               # the CA accepted the message afterwards
                val.add_pq_stateful_pki_message(msg)
                model[j].add(idx)
        else:
            hits += 1
            ctx.rejects(f"a message is accepted: index {idx} of {sorted(model[j] or [])}, body {body}, registered {model[j] is not None}", run, exc=BAD, key="reused")
        if model[j] is not None:
            for q in (0, idx, idx + 1):
                ctx.eq(bool(book.contains_used_index(certs[j], q)), q in model[j], f"index {q} in the book", key="book")
        else:
            ctx.check(book.get_state(certs[j]) is None, "an unknown certificate has a state", key="unknown")
    ctx.label("refusals" if hits else "no refusal")
    ctx.nontrivial(hits > 0)


SUBS = [
    Sub("history", HIST, history, quick=60, thorough=2000, text="histories of signing through every entry point, export and import"),
    Sub("verify", VERIFY, verify, quick=90, thorough=3000, text="damaged signatures against the RFC 8554 verifier"),
    Sub("load", LOAD, load, quick=90, thorough=2500, text="damaged and mismatching keys"),
    Sub("levels", LEVELS, levels, quick=150, thorough=4000, text="parameter sets of hierarchies"),
    Sub("state", STATE, state, quick=60, thorough=2000, text="index book of the CA over message histories"),
]
