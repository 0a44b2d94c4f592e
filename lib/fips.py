"""Reference implementations of FIPS 203 (ML-KEM), FIPS 204 (ML-DSA) and FIPS 205 (SLH-DSA).

Written from the standards, with hashlib only; shares nothing with /repo. Validated at development time
against the Go standard library and OpenSSL (see DESIGN.md).
"""
import hashlib
import hmac

shake128 = lambda d, n: hashlib.shake_128(d).digest(n)  # noqa: E731
shake256 = lambda d, n: hashlib.shake_256(d).digest(n)  # noqa: E731

# ====================================================================== ML-KEM
KQ = 3329
KEM = {"ml-kem-512": (2, 3, 2, 10, 4), "ml-kem-768": (3, 2, 2, 10, 4), "ml-kem-1024": (4, 2, 2, 11, 5)}


def _brv7(i):
    return int(f"{i:07b}"[::-1], 2)


_KZ = [pow(17, _brv7(i), KQ) for i in range(128)]
_KG = [pow(17, 2 * _brv7(i) + 1, KQ) for i in range(128)]


def _kntt(f):
    f = list(f)
    i, ln = 1, 128
    while ln >= 2:
        for s in range(0, 256, 2 * ln):
            z = _KZ[i]
            i += 1
            for j in range(s, s + ln):
                t = z * f[j + ln] % KQ
                f[j + ln] = (f[j] - t) % KQ
                f[j] = (f[j] + t) % KQ
        ln //= 2
    return f


def _kintt(f):
    f = list(f)
    i, ln = 127, 2
    while ln <= 128:
        for s in range(0, 256, 2 * ln):
            z = _KZ[i]
            i -= 1
            for j in range(s, s + ln):
                t = f[j]
                f[j] = (t + f[j + ln]) % KQ
                f[j + ln] = z * (f[j + ln] - t) % KQ
        ln *= 2
    return [x * 3303 % KQ for x in f]


def _kmul(f, g):
    h = [0] * 256
    for i in range(128):
        a, b, c, d = f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]
        h[2 * i] = (a * c + b * d * _KG[i]) % KQ
        h[2 * i + 1] = (a * d + b * c) % KQ
    return h


def _kadd(f, g):
    return [(a + b) % KQ for a, b in zip(f, g)]


def _ksample(seed):
    buf, out, p = shake128(seed, 168 * 12), [], 0
    while len(out) < 256:
        d1 = buf[p] + 256 * (buf[p + 1] % 16)
        d2 = buf[p + 1] // 16 + 16 * buf[p + 2]
        p += 3
        if d1 < KQ:
            out.append(d1)
        if d2 < KQ and len(out) < 256:
            out.append(d2)
    return out


def _cbd(eta, data):
    v = int.from_bytes(data, "little")
    m = (1 << eta) - 1
    out = []
    for _ in range(256):
        x = v & m
        y = (v >> eta) & m
        v >>= 2 * eta
        out.append((bin(x).count("1") - bin(y).count("1")) % KQ)
    return out


def _pack(f, d):
    v = 0
    for i, x in enumerate(f):
        v |= x << (d * i)
    return v.to_bytes(len(f) * d // 8, "little")


def _unpack(b, d, n=256):
    v = int.from_bytes(b, "little")
    m = (1 << d) - 1
    return [(v >> (d * i)) & m for i in range(n)]


def _compress(f, d):
    return [((x << d) + KQ // 2) // KQ % (1 << d) for x in f]


def _decompress(f, d):
    return [(x * KQ + (1 << (d - 1))) >> d for x in f]


def _kpke_keygen(name, d):
    k, e1, _e2, _du, _dv = KEM[name]
    g = hashlib.sha3_512(d + bytes([k])).digest()
    rho, sigma = g[:32], g[32:]
    a = [[_ksample(rho + bytes([j, i])) for j in range(k)] for i in range(k)]
    s = [_kntt(_cbd(e1, shake256(sigma + bytes([n]), 64 * e1))) for n in range(k)]
    e = [_kntt(_cbd(e1, shake256(sigma + bytes([k + n]), 64 * e1))) for n in range(k)]
    t = []
    for i in range(k):
        acc = e[i]
        for j in range(k):
            acc = _kadd(acc, _kmul(a[i][j], s[j]))
        t.append(acc)
    return b"".join(_pack(x, 12) for x in t) + rho, b"".join(_pack(x, 12) for x in s)


def _kpke_enc(name, ek, m, r):
    k, e1, e2, du, dv = KEM[name]
    t = [[x % KQ for x in _unpack(ek[384 * i:384 * i + 384], 12)] for i in range(k)]
    rho = ek[384 * k:]
    a = [[_ksample(rho + bytes([j, i])) for j in range(k)] for i in range(k)]
    y = [_kntt(_cbd(e1, shake256(r + bytes([n]), 64 * e1))) for n in range(k)]
    ee = [_cbd(e2, shake256(r + bytes([k + n]), 64 * e2)) for n in range(k)]
    e3 = _cbd(e2, shake256(r + bytes([2 * k]), 64 * e2))
    u = []
    for i in range(k):
        acc = [0] * 256
        for j in range(k):
            acc = _kadd(acc, _kmul(a[j][i], y[j]))
        u.append(_kadd(_kintt(acc), ee[i]))
    acc = [0] * 256
    for j in range(k):
        acc = _kadd(acc, _kmul(t[j], y[j]))
    mu = _decompress(_unpack(m, 1), 1)
    v = _kadd(_kadd(_kintt(acc), e3), mu)
    return b"".join(_pack(_compress(x, du), du) for x in u) + _pack(_compress(v, dv), dv)


def _kpke_dec(name, dk, c):
    k, _e1, _e2, du, dv = KEM[name]
    u = [_decompress(_unpack(c[32 * du * i:32 * du * (i + 1)], du), du) for i in range(k)]
    v = _decompress(_unpack(c[32 * du * k:], dv), dv)
    s = [_unpack(dk[384 * i:384 * i + 384], 12) for i in range(k)]
    acc = [0] * 256
    for j in range(k):
        acc = _kadd(acc, _kmul(s[j], _kntt(u[j])))
    w = [(a - b) % KQ for a, b in zip(v, _kintt(acc))]
    return _pack(_compress(w, 1), 1)


def kem_keygen(name, d, z):
    ek, dk = _kpke_keygen(name, d)
    return ek, dk + ek + hashlib.sha3_256(ek).digest() + z


def kem_encaps(name, ek, m):
    g = hashlib.sha3_512(m + hashlib.sha3_256(ek).digest()).digest()
    return g[:32], _kpke_enc(name, ek, m, g[32:])


def kem_decaps(name, dk, c):
    k = KEM[name][0]
    dkp, ek, h, z = dk[:384 * k], dk[384 * k:768 * k + 32], dk[768 * k + 32:768 * k + 64], dk[768 * k + 64:]
    m = _kpke_dec(name, dkp, c)
    g = hashlib.sha3_512(m + h).digest()
    if _kpke_enc(name, ek, m, g[32:]) == c:
        return g[:32]
    return shake256(z + c, 32)


def kem_check_ek(name, ek):
    k = KEM[name][0]
    return len(ek) == 384 * k + 32 and all(x < KQ for i in range(k) for x in _unpack(ek[384 * i:384 * i + 384], 12))


# ====================================================================== ML-DSA
DQ = 8380417
DSA = {  # k, l, eta, tau, lambda, gamma1, gamma2, omega
    "ml-dsa-44": (4, 4, 2, 39, 128, 1 << 17, (DQ - 1) // 88, 80),
    "ml-dsa-65": (6, 5, 4, 49, 192, 1 << 19, (DQ - 1) // 32, 55),
    "ml-dsa-87": (8, 7, 2, 60, 256, 1 << 19, (DQ - 1) // 32, 75),
}
_DZ = [pow(1753, int(f"{i:08b}"[::-1], 2), DQ) for i in range(256)]


def _dntt(w):
    w = list(w)
    m, ln = 0, 128
    while ln >= 1:
        for s in range(0, 256, 2 * ln):
            m += 1
            z = _DZ[m]
            for j in range(s, s + ln):
                t = z * w[j + ln] % DQ
                w[j + ln] = (w[j] - t) % DQ
                w[j] = (w[j] + t) % DQ
        ln //= 2
    return w


def _dintt(w):
    w = list(w)
    m, ln = 256, 1
    while ln < 256:
        for s in range(0, 256, 2 * ln):
            m -= 1
            z = DQ - _DZ[m]
            for j in range(s, s + ln):
                t = w[j]
                w[j] = (t + w[j + ln]) % DQ
                w[j + ln] = z * (t - w[j + ln]) % DQ
        ln *= 2
    return [x * 8347681 % DQ for x in w]


def _dmul(a, b):
    return [x * y % DQ for x, y in zip(a, b)]


def _dadd(a, b):
    return [(x + y) % DQ for x, y in zip(a, b)]


def _dsub(a, b):
    return [(x - y) % DQ for x, y in zip(a, b)]


def _cmod(x, a=DQ):
    x %= a
    return x - a if x > a // 2 else x


def _rej_ntt(seed):
    n = 168 * 6
    while True:
        buf, out = shake128(seed, n), []
        for p in range(0, n - 2, 3):
            v = buf[p] | buf[p + 1] << 8 | (buf[p + 2] & 0x7F) << 16
            if v < DQ:
                out.append(v)
                if len(out) == 256:
                    return out
        n *= 2


def _rej_bounded(seed, eta):
    buf, out = shake256(seed, 136 * 8), []
    for z in buf:
        for b in (z & 15, z >> 4):
            if len(out) == 256:
                return out
            if eta == 2 and b < 15:
                out.append(2 - b % 5)
            elif eta == 4 and b < 9:
                out.append(4 - b)
    return out


def _bitpack(w, a, b):
    """Coefficients in [-a, b]."""
    return _pack([b - x for x in w], (a + b).bit_length())


def _bitunpack(v, a, b):
    return [b - x for x in _unpack(v, (a + b).bit_length())]


def _power2round(r):
    r %= DQ
    r0 = _cmod(r, 1 << 13)
    return (r - r0) >> 13, r0


def _decompose(r, g2):
    r %= DQ
    r0 = _cmod(r, 2 * g2)
    if r - r0 == DQ - 1:
        return 0, r0 - 1
    return (r - r0) // (2 * g2), r0


def _usehint(h, r, g2):
    m = (DQ - 1) // (2 * g2)
    r1, r0 = _decompose(r, g2)
    if h:
        return (r1 + 1) % m if r0 > 0 else (r1 - 1) % m
    return r1


def _in_ball(rho, tau):
    buf = shake256(rho, 136 * 6)
    signs = int.from_bytes(buf[:8], "little")
    c, p = [0] * 256, 8
    for i in range(256 - tau, 256):
        while buf[p] > i:
            p += 1
        j = buf[p]
        p += 1
        c[i] = c[j]
        c[j] = -1 if (signs >> (i + tau - 256)) & 1 else 1
    return c


def _expand_a(rho, k, l):
    return [[_rej_ntt(rho + bytes([s, r])) for s in range(l)] for r in range(k)]


def dsa_keygen(name, xi):
    k, l, eta, _tau, _lam, _g1, _g2, _om = DSA[name]
    h = shake256(xi + bytes([k, l]), 128)
    rho, rhop, kk = h[:32], h[32:96], h[96:]
    a = _expand_a(rho, k, l)
    s1 = [_rej_bounded(rhop + i.to_bytes(2, "little"), eta) for i in range(l)]
    s2 = [_rej_bounded(rhop + (l + i).to_bytes(2, "little"), eta) for i in range(k)]
    s1h = [_dntt(x) for x in s1]
    t1, t0 = [], []
    for i in range(k):
        acc = [0] * 256
        for j in range(l):
            acc = _dadd(acc, _dmul(a[i][j], s1h[j]))
        t = _dadd(_dintt(acc), s2[i])
        pr = [_power2round(x) for x in t]
        t1.append([x for x, _ in pr])
        t0.append([y for _, y in pr])
    pk = rho + b"".join(_pack(x, 10) for x in t1)
    tr = shake256(pk, 64)
    sk = rho + kk + tr + b"".join(_bitpack(x, eta, eta) for x in s1 + s2) + b"".join(_bitpack(x, (1 << 12) - 1, 1 << 12) for x in t0)
    return pk, sk


def _dsa_sk(name, sk):
    k, l, eta = DSA[name][:3]
    n = 32 * (2 * eta).bit_length()
    p = 128
    s = []
    for _ in range(k + l):
        s.append(_bitunpack(sk[p:p + n], eta, eta))
        p += n
    t0 = []
    for _ in range(k):
        t0.append(_bitunpack(sk[p:p + 416], (1 << 12) - 1, 1 << 12))
        p += 416
    return sk[:32], sk[32:64], sk[64:128], s[:l], s[l:], t0


def _hint_pack(h, om):
    y, idx = bytearray(om + len(h)), 0
    for i, v in enumerate(h):
        for j in range(256):
            if v[j]:
                y[idx] = j
                idx += 1
        y[om + i] = idx
    return bytes(y)


def _hint_unpack(y, k, om):
    h, idx = [[0] * 256 for _ in range(k)], 0
    for i in range(k):
        if y[om + i] < idx or y[om + i] > om:
            return None
        first = idx
        while idx < y[om + i]:
            if idx > first and y[idx - 1] >= y[idx]:
                return None
            h[i][y[idx]] = 1
            idx += 1
    if any(y[idx:om]):
        return None
    return h


_PH_OID = {"sha224": 4, "sha256": 1, "sha384": 2, "sha512": 3, "sha512_224": 5, "sha512_256": 6, "sha3_224": 7, "sha3_256": 8, "sha3_384": 9,
           "sha3_512": 10, "shake128": 11, "shake256": 12}


def format_message(msg, ctx=b"", prehash=None):
    """M' of FIPS 204 5.2/5.4 and FIPS 205 10.2."""
    if prehash is None:
        return bytes([0, len(ctx)]) + ctx + msg
    if prehash == "shake128":
        ph = shake128(msg, 32)
    elif prehash == "shake256":
        ph = shake256(msg, 64)
    else:
        ph = hashlib.new(prehash, msg).digest()
    oid = bytes.fromhex("06096086480165030402") + bytes([_PH_OID[prehash]])
    return bytes([1, len(ctx)]) + ctx + oid + ph


def dsa_sign_internal(name, sk, mp, rnd, kappa=0, bound=None):
    """bound=(lo, hi): instead of a regular signature return one with lo <= max|z| <= hi (all other checks pass)."""
    k, l, eta, tau, lam, g1, g2, om = DSA[name]
    rho, kk, tr, s1, s2, t0 = _dsa_sk(name, sk)
    s1h, s2h, t0h = [[_dntt(x) for x in v] for v in (s1, s2, t0)]
    a = _expand_a(rho, k, l)
    mu = shake256(tr + mp, 64)
    rpp = shake256(kk + rnd + mu, 64)
    beta = tau * eta
    bl = (g1 - 1).bit_length() + 1
    w1b = ((DQ - 1) // (2 * g2) - 1).bit_length()
    while True:
        y = [_bitunpack(shake256(rpp + (kappa + i).to_bytes(2, "little"), 32 * bl), g1 - 1, g1) for i in range(l)]
        kappa += l
        yh = [_dntt(x) for x in y]
        w = []
        for i in range(k):
            acc = [0] * 256
            for j in range(l):
                acc = _dadd(acc, _dmul(a[i][j], yh[j]))
            w.append(_dintt(acc))
        w1 = [[_decompose(x, g2)[0] for x in v] for v in w]
        ct = shake256(mu + b"".join(_pack(v, w1b) for v in w1), lam // 4)
        ch = _dntt(_in_ball(ct, tau))
        z = [_dadd(y[i], _dintt(_dmul(ch, s1h[i]))) for i in range(l)]
        cs2 = [_dintt(_dmul(ch, s2h[i])) for i in range(k)]
        wc = [_dsub(w[i], cs2[i]) for i in range(k)]
        top = max(abs(_cmod(x)) for v in z for x in v)
        if (top >= g1 - beta) if bound is None else not bound[0] <= top <= bound[1]:
            continue
        if any(abs(_decompose(x, g2)[1]) >= g2 - beta for v in wc for x in v):
            continue
        ct0 = [_dintt(_dmul(ch, t0h[i])) for i in range(k)]
        if any(abs(_cmod(x)) >= g2 for v in ct0 for x in v):
            continue
        h = [[int(_decompose(wc[i][j] + ct0[i][j], g2)[0] != _decompose(wc[i][j], g2)[0]) for j in range(256)] for i in range(k)]
        if sum(map(sum, h)) > om:
            continue
        return ct + b"".join(_bitpack([_cmod(x) for x in v], g1 - 1, g1) for v in z) + _hint_pack(h, om)


def dsa_verify_internal(name, pk, mp, sig):
    k, l, eta, tau, lam, g1, g2, om = DSA[name]
    bl = 32 * ((g1 - 1).bit_length() + 1)
    cl = lam // 4
    if len(sig) != cl + l * bl + om + k or len(pk) != 32 + 320 * k:
        return False
    rho = pk[:32]
    t1 = [_unpack(pk[32 + 320 * i:352 + 320 * i], 10) for i in range(k)]
    ct = sig[:cl]
    z = [_bitunpack(sig[cl + bl * i:cl + bl * (i + 1)], g1 - 1, g1) for i in range(l)]
    h = _hint_unpack(sig[cl + bl * l:], k, om)
    if h is None or any(abs(x) >= g1 - tau * eta for v in z for x in v):
        return False
    a = _expand_a(rho, k, l)
    mu = shake256(shake256(pk, 64) + mp, 64)
    ch = _dntt(_in_ball(ct, tau))
    zh = [_dntt(x) for x in z]
    w1b = ((DQ - 1) // (2 * g2) - 1).bit_length()
    out = b""
    for i in range(k):
        acc = [0] * 256
        for j in range(l):
            acc = _dadd(acc, _dmul(a[i][j], zh[j]))
        acc = _dsub(acc, _dmul(ch, _dntt([x << 13 for x in t1[i]])))
        w = _dintt(acc)
        out += _pack([_usehint(h[i][j], w[j], g2) for j in range(256)], w1b)
    return shake256(mu + out, cl) == ct


def dsa_verify(name, pk, msg, sig, ctx=b"", prehash=None):
    return len(ctx) <= 255 and dsa_verify_internal(name, pk, format_message(msg, ctx, prehash), sig)


def dsa_sign(name, sk, msg, rnd, ctx=b"", prehash=None):
    return dsa_sign_internal(name, sk, format_message(msg, ctx, prehash), rnd)


# ====================================================================== SLH-DSA
SLH = {  # n, h, d, h', a, k, m
    "128s": (16, 63, 7, 9, 12, 14, 30), "128f": (16, 66, 22, 3, 6, 33, 34),
    "192s": (24, 63, 7, 9, 14, 17, 39), "192f": (24, 66, 22, 3, 8, 33, 42),
    "256s": (32, 64, 8, 8, 14, 22, 47), "256f": (32, 68, 17, 4, 9, 35, 49),
}


def _mgf1(h, seed, n):
    out, i = b"", 0
    while len(out) < n:
        out += hashlib.new(h, seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:n]


class Slh:
    """One parameter set, e.g. slh-dsa-sha2-128f."""

    def __init__(self, name):
        fam, size = name.split("-")[2:4]
        self.n, self.h, self.d, self.hp, self.a, self.k, self.m = SLH[size]
        self.sha2 = fam == "sha2"
        self.big = "sha512" if self.n > 16 else "sha256"
        self.len1, self.len2 = 2 * self.n, 3
        self.len = self.len1 + 3
        self.siglen = self.n * (1 + self.k * (1 + self.a) + self.h + self.d * self.len)

    # address: (layer, tree, type, w1, w2, w3)
    def _adrs(self, a):
        lay, tree, typ, w1, w2, w3 = a
        if self.sha2:
            return bytes([lay]) + tree.to_bytes(8, "big") + bytes([typ]) + w1.to_bytes(4, "big") + w2.to_bytes(4, "big") + w3.to_bytes(4, "big")
        return lay.to_bytes(4, "big") + tree.to_bytes(12, "big") + typ.to_bytes(4, "big") + w1.to_bytes(4, "big") + w2.to_bytes(4, "big") + w3.to_bytes(4, "big")

    def _f(self, pks, a, m):
        if self.sha2:
            return hashlib.sha256(pks + bytes(64 - self.n) + self._adrs(a) + m).digest()[:self.n]
        return shake256(pks + self._adrs(a) + m, self.n)

    def _h(self, pks, a, m):
        if not self.sha2:
            return shake256(pks + self._adrs(a) + m, self.n)
        blk = 64 if self.big == "sha256" else 128
        return hashlib.new(self.big, pks + bytes(blk - self.n) + self._adrs(a) + m).digest()[:self.n]

    def _prf(self, pks, sks, a):
        return self._f(pks, a, sks) if self.sha2 else shake256(pks + self._adrs(a) + sks, self.n)

    def _prfmsg(self, skp, opt, m):
        if self.sha2:
            return hmac.new(skp, opt + m, self.big).digest()[:self.n]
        return shake256(skp + opt + m, self.n)

    def _hmsg(self, r, pks, root, m):
        if self.sha2:
            return _mgf1(self.big, r + pks + hashlib.new(self.big, r + pks + root + m).digest(), self.m)
        return shake256(r + pks + root + m, self.m)

    def _digits(self, m):
        msg = []
        for b in m:
            msg += [b >> 4, b & 15]
        csum = sum(15 - x for x in msg) << 4
        cs = csum.to_bytes(2, "big")
        return msg + [cs[0] >> 4, cs[0] & 15, cs[1] >> 4]

    def _chain(self, x, i, s, pks, a):
        for j in range(i, i + s):
            x = self._f(pks, a[:5] + (j,), x)
        return x

    def _wots_pk(self, sks, pks, lay, tree, kp):
        out = b""
        for i in range(self.len):
            sk = self._prf(pks, sks, (lay, tree, 5, kp, i, 0))
            out += self._chain(sk, 0, 15, pks, (lay, tree, 0, kp, i, 0))
        return self._h(pks, (lay, tree, 1, kp, 0, 0), out)

    def _wots_sign(self, m, sks, pks, lay, tree, kp):
        return b"".join(self._chain(self._prf(pks, sks, (lay, tree, 5, kp, i, 0)), 0, x, pks, (lay, tree, 0, kp, i, 0))
                        for i, x in enumerate(self._digits(m)))

    def _wots_from_sig(self, sig, m, pks, lay, tree, kp):
        out = b"".join(self._chain(sig[i * self.n:(i + 1) * self.n], x, 15 - x, pks, (lay, tree, 0, kp, i, 0))
                       for i, x in enumerate(self._digits(m)))
        return self._h(pks, (lay, tree, 1, kp, 0, 0), out)

    def _xmss_tree(self, sks, pks, lay, tree):
        lv = [[self._wots_pk(sks, pks, lay, tree, i) for i in range(1 << self.hp)]]
        for z in range(1, self.hp + 1):
            p = lv[-1]
            lv.append([self._h(pks, (lay, tree, 2, 0, z, i), p[2 * i] + p[2 * i + 1]) for i in range(len(p) // 2)])
        return lv

    def _xmss_sign(self, m, sks, pks, lay, tree, idx):
        lv = self._xmss_tree(sks, pks, lay, tree)
        auth = b"".join(lv[j][(idx >> j) ^ 1] for j in range(self.hp))
        return self._wots_sign(m, sks, pks, lay, tree, idx) + auth, lv[-1][0]

    def _xmss_from_sig(self, idx, sig, m, pks, lay, tree):
        node = self._wots_from_sig(sig[:self.len * self.n], m, pks, lay, tree, idx)
        auth = sig[self.len * self.n:]
        for j in range(self.hp):
            b = auth[j * self.n:(j + 1) * self.n]
            pair = node + b if (idx >> j) & 1 == 0 else b + node
            node = self._h(pks, (lay, tree, 2, 0, j + 1, idx >> (j + 1)), pair)
        return node

    def _fors_idx(self, md):
        v = int.from_bytes(md, "big")
        tot = len(md) * 8
        return [(v >> (tot - (i + 1) * self.a)) & ((1 << self.a) - 1) for i in range(self.k)]

    def _split(self, dig):
        ka = (self.k * self.a + 7) // 8
        t = (self.h - self.h // self.d + 7) // 8
        l = (self.h // self.d + 7) // 8
        tree = int.from_bytes(dig[ka:ka + t], "big") % (1 << (self.h - self.h // self.d))
        leaf = int.from_bytes(dig[ka + t:ka + t + l], "big") % (1 << (self.h // self.d))
        return dig[:ka], tree, leaf

    def keygen(self, sks, skp, pks):
        root = self._xmss_tree(sks, pks, self.d - 1, 0)[-1][0]
        return pks + root, sks + skp + pks + root

    def sign_internal(self, sk, m, opt):
        n = self.n
        sks, skp, pks, root = sk[:n], sk[n:2 * n], sk[2 * n:3 * n], sk[3 * n:]
        r = self._prfmsg(skp, opt, m)
        md, tree, leaf = self._split(self._hmsg(r, pks, root, m))
        sig = r
        for i, ix in enumerate(self._fors_idx(md)):
            base = i << self.a
            lv = [[self._f(pks, (0, tree, 3, leaf, 0, base + t), self._prf(pks, sks, (0, tree, 6, leaf, 0, base + t))) for t in range(1 << self.a)]]
            for z in range(1, self.a + 1):
                p = lv[-1]
                lv.append([self._h(pks, (0, tree, 3, leaf, z, (base >> z) + t), p[2 * t] + p[2 * t + 1]) for t in range(len(p) // 2)])
            sig += self._prf(pks, sks, (0, tree, 6, leaf, 0, base + ix)) + b"".join(lv[j][(ix >> j) ^ 1] for j in range(self.a))
        node = self._fors_pk(sig[n:], md, pks, tree, leaf)
        for lay in range(self.d):
            s, node = self._xmss_sign(node, sks, pks, lay, tree, leaf)
            sig += s
            leaf = tree & ((1 << self.hp) - 1)
            tree >>= self.hp
        return sig

    def _fors_pk(self, sig, md, pks, tree, leaf):
        n, roots = self.n, b""
        step = n * (1 + self.a)
        for i, ix in enumerate(self._fors_idx(md)):
            p = sig[i * step:(i + 1) * step]
            base = i << self.a
            node = self._f(pks, (0, tree, 3, leaf, 0, base + ix), p[:n])
            for j in range(self.a):
                b = p[n * (1 + j):n * (2 + j)]
                pair = node + b if (ix >> j) & 1 == 0 else b + node
                node = self._h(pks, (0, tree, 3, leaf, j + 1, (base + ix) >> (j + 1)), pair)
            roots += node
        return self._h(pks, (0, tree, 4, leaf, 0, 0), roots)

    def verify_internal(self, pk, m, sig):
        n = self.n
        if len(sig) != self.siglen or len(pk) != 2 * n:
            return False
        pks, root = pk[:n], pk[n:]
        r = sig[:n]
        md, tree, leaf = self._split(self._hmsg(r, pks, root, m))
        fl = self.k * (1 + self.a) * n
        node = self._fors_pk(sig[n:n + fl], md, pks, tree, leaf)
        p, xl = n + fl, (self.hp + self.len) * n
        for lay in range(self.d):
            node = self._xmss_from_sig(leaf, sig[p:p + xl], node, pks, lay, tree)
            p += xl
            leaf = tree & ((1 << self.hp) - 1)
            tree >>= self.hp
        return node == root

    def verify(self, pk, msg, sig, ctx=b"", prehash=None):
        return len(ctx) <= 255 and self.verify_internal(pk, format_message(msg, ctx, prehash), sig)

    def sign(self, sk, msg, opt, ctx=b"", prehash=None):
        return self.sign_internal(sk, format_message(msg, ctx, prehash), opt)
