"""Generated requests to the Mock CA: plain data (a "step") and their octets, assembled with lib/mca."""
import hashlib

from hypothesis import strategies as st

from lib import der as D, mca as M, pki
from lib.mca import Party, Prot

KEYS = [("ec:secp256r1", 0), ("ed25519", 0), ("rsa2048", 0), ("ed448", 1), ("ec:secp384r1", 0), ("ec:secp521r1", 0), ("ed25519", 1), ("rsa2048", 1), ("ec:secp256r1", 1)]
SIGNERS = [("ed448", 0), ("ec:secp256r1", 1), ("rsa2048", 1), ("ec:secp384r1", 1)]
MACS = [("pbm", "sha256"), ("pbm", "sha1"), ("pbm", "sha512"), ("pbmac1", "sha256"), ("pbmac1", "sha512"), ("hmac", "sha256"), ("hmac", "sha384")]
EXTS = {"ku": lambda: pki.ku("digitalSignature"), "eku": lambda: pki.eku("1.3.6.1.5.5.7.3.2"), "bc": lambda: pki.bc(False), "san": lambda: pki.ext("2.5.29.17", D.seq(D.ctxp(2, b"host.example")))}
# change -> failure codes that fit; the request must not be granted
PROT_BAD = {
    "prot-flip": {"badMessageCheck"}, "prot-missing": {"badMessageCheck"}, "unprotected": {"badMessageCheck"}, "wrong-secret": {"badMessageCheck"},
    "untrusted": {"signerNotTrusted", "notAuthorized", "badMessageCheck"}, "foreign-key": {"badMessageCheck"}, "header-after": {"badMessageCheck"}, "body-after": {"badMessageCheck"},
    "alg-swap": {"badMessageCheck", "badAlg"},
}
POPO_BAD = {"popo-flip": {"badPOP"}, "popo-other-key": {"badPOP"}, "popo-missing": {"badPOP"}, "popo-replay": {"badPOP"}, "popo-alg": {"badPOP", "badAlg"}}


class Env:
    """A Mock CA, certificates it issued outside the protocol, and the state a client keeps."""

    def __init__(self, key=("ed25519", 0), **kw):
        self.ca = M.CA(key, **kw)
        self.n = 0
        self.parties = {}

    def rnd(self):
        self.n += 1
        return hashlib.sha256(b"client %d" % self.n).digest()[:16]

    def ra(self, i):
        if ("ra", i) not in self.parties:
            self.parties["ra", i] = self.ca.party(SIGNERS[i % len(SIGNERS)], "RA %d" % (i % len(SIGNERS)), serial=100 + i % len(SIGNERS), ku=["digitalSignature"])
        return self.parties["ra", i]

    def stranger(self, i=0):
        key = SIGNERS[i % len(SIGNERS)]
        root = pki.name("Stranger Root")
        rk = ("ec:secp256r1", 0)
        rc = pki.make(root, rk, exts=[pki.bc(), pki.ku("digitalSignature", "keyCertSign"), pki.ski(*rk)])
        s = pki.name("Stranger")
        return Party(key, s, [pki.make(s, key, root, rk, serial=9, exts=[pki.ku("digitalSignature"), pki.ski(*key)]), rc])

    def issue(self, key, cn, implicit=True):
        """An end entity enrolled with an ir; returns its Party (asserts nothing)."""
        der = M.message(M.simple("ir", key, pki.name(cn)), Prot(secret=self.ca.secret), self.rnd(), self.rnd(), implicit=implicit)
        r = M.Resp(self.ca.send(der))
        return Party(key, pki.name(cn), [r.certs[0], self.ca.cert]), r


def flip(bit):
    def f(v):
        b = bytearray(v)
        b[bit // 8 % len(b)] ^= 1 << bit % 8
        return bytes(b)
    return f


@st.composite
def steps(draw, names=("ir", "cr", "p10cr"), changes=()):
    """One request as data: body name, protection, requested key and subject, options, one change or none."""
    name = draw(st.sampled_from(list(names)))
    prot = draw(st.sampled_from(["mac", "mac", "sig", "sig"]))
    return {"name": name, "prot": prot, "mac": draw(st.sampled_from(MACS)), "ra": draw(st.integers(0, 3)), "key": draw(st.sampled_from(KEYS)), "cn": draw(st.text(alphabet="abcdXYZ 019-", min_size=1, max_size=12)),
            "o": draw(st.one_of(st.none(), st.text(alphabet="abcd \u00e4", min_size=1, max_size=6))), "implicit": draw(st.booleans()), "pvno": draw(st.sampled_from([2, 2, 3])),
            "exts": draw(st.lists(st.sampled_from(sorted(EXTS)), max_size=2, unique=True)), "h": draw(st.sampled_from(["sha256", "sha384", "sha512"])),
            "change": draw(st.sampled_from(list(changes))) if changes else None, "bit": draw(st.integers(0, 4000))}


def subject(s, n):
    return pki.name(*(["%s %d" % (s["cn"].strip() or "x", n)] + ([("2.5.4.10", s["o"])] if s["o"] else [])))


def make_body(s, subj, key, change=None, bit=0):
    """Body of a certificate request with the proof of possession, possibly a bad one."""
    exts = [EXTS[e]() for e in s["exts"]] or None
    other = next(k for k in KEYS if k[0] == key[0] and k[1] != key[1]) if any(k[0] == key[0] and k[1] != key[1] for k in KEYS) else (key[0], 1 - key[1])
    h = s["h"] if key[0].startswith(("ec:", "rsa")) else "sha256"
    if s["name"] == "p10cr":
        if change == "popo-replay":
            a, b = M.csr(key, subj, exts, h), M.csr(key, pki.name("Another"), exts, h)
            p, q = D.split(a), D.split(b)
            return M.body("p10cr", D.seq(p[0], p[1], q[2])), exts
        if change == "popo-alg":
            p = D.split(M.csr(key, subj, exts, h))
            return M.body("p10cr", D.seq(p[0], pki.alg("rsa2048" if not key[0].startswith("rsa") else "ec:secp256r1", "sha256"), p[2])), exts
        return M.body("p10cr", M.csr(key, subj, exts, h, damage=flip(bit) if change == "popo-flip" else None, proof_key=other if change == "popo-other-key" else None)), exts
    req = M.cert_request(0, M.template(subj, pki.spki(*key), exts))
    proof = M.popo(key[0], key[1], req, h, damage=flip(bit) if change == "popo-flip" else None)
    if change == "popo-other-key":
        proof = M.popo(other[0], other[1], req, h)
    elif change == "popo-missing":
        proof = None
    elif change == "popo-replay":
        proof = M.popo(key[0], key[1], M.cert_request(0, M.template(pki.name("Another"), pki.spki(*key), exts)), h)
    elif change == "popo-alg":
        sig = pki.sign(key[0], key[1], req, h)
        proof = D.retag(1, D.seq(pki.alg("rsa2048" if not key[0].startswith("rsa") else "ec:secp256r1", "sha256"), D.bits(sig)))
    return M.body(s["name"], D.seq(M.cert_req_msg(req, proof))), exts


def prot_of(env, s, ee=None):
    if s["prot"] == "mac":
        return Prot(secret=env.ca.secret, kind=s["mac"][0], h=s["mac"][1])
    return Prot(party=ee or env.ra(s["ra"]))


def build(env, s, ee=None, key=None, tx=None, nonce=None, subj=None):
    """(request octets, description) for a certificate request step; `ee`: signing party."""
    key = tuple(key or s["key"])
    env.n += 1
    subj = subj if subj is not None else subject(s, env.n)
    tx, nonce = tx or env.rnd(), nonce or env.rnd()
    c = s["change"]
    bod, exts = make_body(s, subj, key, c if c in POPO_BAD else None, s["bit"])
    p = prot_of(env, s, ee)
    kw = {"implicit": s["implicit"], "pvno": s["pvno"]}
    info = {"subject": subj, "spki": pki.spki(*key), "key": key, "tx": tx, "nonce": nonce, "prot": p, "exts": exts}
    if c == "prot-flip":
        kw["damage"] = flip(s["bit"])
    elif c == "unprotected":
        p = Prot()
        kw["sender"] = M.general(pki.name("MAC Client"))
    elif c == "wrong-secret":
        p = Prot(secret=flip(s["bit"])(env.ca.secret), kind=s["mac"][0], h=s["mac"][1])
    elif c == "untrusted":
        p = Prot(party=env.stranger(s["ra"]))
    elif c == "foreign-key":
        g = p.party or env.ra(s["ra"])
        p = Prot(party=Party(g.key, g.subject, g.chain))
        i = p.party.key
        p.value = lambda data: pki.sign(i[0], 1 - i[1], data, p.party.h)
    elif c == "alg-swap":
        if p.secret is not None:
            k = ("hmac", "sha512") if p.kind != "hmac" else ("hmac", "sha512" if p.h != "sha512" else "sha256")
            q = Prot(secret=p.secret, kind=p.kind, h=p.h)
            a = M.mac_alg(*k)
            q.alg = lambda: a
            q.value = lambda data: M.expected(M.mac_alg(p.kind, p.h), p.secret, data)
            p = q
        else:
            g = p.party
            q = Prot(party=g)
            a = pki.alg("ec:secp256r1" if not g.key[0].startswith("ec:") else "rsa2048", "sha512")
            q.alg = lambda: a
            p = q
    der = M.message(bod, p, tx, nonce, **kw)
    w = M.Wire(der)
    if c == "prot-missing":
        der = D.seq(w.header, w.body, w.certs_raw or b"")
    elif c == "header-after":
        der = w.build(header=w.set_header("messageTime", M.stamp(M.now() - 1 - s["bit"] % 60)))
    elif c == "body-after":
        der = w.build(body=make_body(s, pki.name("Somebody else"), key)[0])
    return der, info


def applies(s):
    """A change that makes sense for the step."""
    c = s["change"]
    if c == "wrong-secret":
        return s["prot"] == "mac"
    if c == "popo-missing":
        return s["name"] != "p10cr"
    return True
