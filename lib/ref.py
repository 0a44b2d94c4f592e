"""Reference implementations written from the specifications, independent of /repo.

Only hashlib / hmac (stdlib) and the raw AES block cipher of `cryptography` are used as building blocks.
"""
import hashlib
import hmac as _hmac

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

# ---- Keccak (FIPS 202, SP 800-185)
_RC = []
_R = [[0] * 5 for _ in range(5)]


def _init():
    r = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        _RC.append(v)
    x, y = 1, 0
    for t in range(24):
        _R[x][y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5


_init()
_M = (1 << 64) - 1


def _rol(v, n):
    n %= 64
    return ((v << n) | (v >> (64 - n))) & _M if n else v


def keccak_f(a):
    for rc in _RC:
        c = [a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] for x in range(5)]
        d = [c[(x - 1) % 5] ^ _rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [[a[x][y] ^ d[x] for y in range(5)] for x in range(5)]
        b = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                b[y][(2 * x + 3 * y) % 5] = _rol(a[x][y], _R[x][y])
        a = [[b[x][y] ^ ((~b[(x + 1) % 5][y]) & b[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        a[0][0] ^= rc
    return a


def sponge(data, rate, suffix, outlen):
    p = bytearray(data)
    p.append(suffix)
    while len(p) % rate:
        p.append(0)
    p[-1] |= 0x80
    a = [[0] * 5 for _ in range(5)]
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            a[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], "little")
        a = keccak_f(a)
    out = b""
    while True:
        for i in range(rate // 8):
            out += a[i % 5][i // 5].to_bytes(8, "little")
        if len(out) >= outlen:
            return out[:outlen]
        a = keccak_f(a)


def left_encode(n):
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    return bytes([len(b)]) + b


def right_encode(n):
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    return b + bytes([len(b)])


def _bytepad(x, w):
    z = left_encode(w) + x
    return z + bytes(-len(z) % w)


def _encstr(s):
    return left_encode(len(s) * 8) + s


def kmac(bits, key, data, outlen, custom=b""):
    rate = 168 if bits == 128 else 136
    pre = _bytepad(_encstr(b"KMAC") + _encstr(custom), rate)
    return sponge(pre + _bytepad(_encstr(key), rate) + data + right_encode(outlen * 8), rate, 0x04, outlen)


# ---- hashes and MACs
def hname(name):
    return name.replace("-", "_")


def hash_(name, data):
    n = hname(name)
    if n == "shake128":
        return hashlib.shake_128(data).digest(32)
    if n == "shake256":
        return hashlib.shake_256(data).digest(64)
    return hashlib.new(n, data).digest()


def hmac(name, key, data):
    return _hmac.new(key, data, hname(name)).digest()


def pbkdf2(name, password, salt, iterations, length):
    """RFC 8018 5.2."""
    if name in ("sha1", "sha224", "sha256", "sha384", "sha512"):
        return hashlib.pbkdf2_hmac(name, password, salt, iterations, length)
    out, i = b"", 1
    base = _hmac.new(password, b"", hname(name))
    while len(out) < length:
        h = base.copy()
        h.update(salt + i.to_bytes(4, "big"))
        u = h.digest()
        t = int.from_bytes(u, "big")
        n = len(u)
        for _ in range(iterations - 1):
            h = base.copy()
            h.update(u)
            u = h.digest()
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(n, "big")
        i += 1
    return out[:length]


def pbm(owf, mac, secret, salt, iterations, data):
    """RFC 4210 5.1.3.1 / RFC 4211 4.4."""
    k = secret + salt
    for _ in range(iterations):
        k = hash_(owf, k)
    return hmac(mac, k, data)


def aes_ecb(key, block):
    e = Cipher(algorithms.AES(key), modes.ECB()).encryptor()
    return e.update(block) + e.finalize()


def aes_ecb_dec(key, block):
    e = Cipher(algorithms.AES(key), modes.ECB()).decryptor()
    return e.update(block) + e.finalize()


def _gmul(x, y):
    z, v = 0, y
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ (0xE1 << 120) if v & 1 else v >> 1
    return z


def _ghash(h, data):
    y = 0
    for i in range(0, len(data), 16):
        y = _gmul(y ^ int.from_bytes(data[i:i + 16], "big"), h)
    return y


def gmac(key, iv, data, taglen=16):
    """SP 800-38D GMAC."""
    h = int.from_bytes(aes_ecb(key, bytes(16)), "big")
    pad = lambda b: b + bytes(-len(b) % 16)  # noqa: E731
    if len(iv) == 12:
        j0 = iv + b"\x00\x00\x00\x01"
    else:
        j0 = _ghash(h, pad(iv) + bytes(8) + (len(iv) * 8).to_bytes(8, "big")).to_bytes(16, "big")
    s = _ghash(h, pad(data) + (len(data) * 8).to_bytes(8, "big") + bytes(8))
    return (s ^ int.from_bytes(aes_ecb(key, j0), "big")).to_bytes(16, "big")[:taglen]


# ---- KDFs
def x963(name, z, info, length):
    """ANSI X9.63: hash(z || counter || info), counter from 1 (KDF2 of ISO 18033-2 is the same)."""
    out, i = b"", 1
    while len(out) < length:
        out += hash_(name, z + i.to_bytes(4, "big") + info)
        i += 1
    return out[:length]


def kdf3(name, z, info, length):
    """ISO 18033-2 KDF3 / SP 800-56C one step: hash(counter || z || info), counter from 1."""
    out, i = b"", 1
    while len(out) < length:
        out += hash_(name, i.to_bytes(4, "big") + z + info)
        i += 1
    return out[:length]


def hkdf(name, ikm, salt, info, length):
    n = len(hash_(name, b""))
    prk = hmac(name, salt or bytes(n), ikm)
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac(name, prk, t + info + bytes([i]))
        out += t
        i += 1
    return out[:length]


# ---- AES modes
def aes_cbc_encrypt(key, iv, data):
    pad = 16 - len(data) % 16
    data += bytes([pad]) * pad
    out, prev = b"", iv
    for i in range(0, len(data), 16):
        prev = aes_ecb(key, bytes(a ^ b for a, b in zip(prev, data[i:i + 16])))
        out += prev
    return out


def aes_wrap(kek, key):
    """RFC 3394."""
    n = len(key) // 8
    r = [key[8 * i:8 * i + 8] for i in range(n)]
    a = b"\xa6" * 8
    for j in range(6):
        for i in range(n):
            b = aes_ecb(kek, a + r[i])
            a = (int.from_bytes(b[:8], "big") ^ (n * j + i + 1)).to_bytes(8, "big")
            r[i] = b[8:]
    return a + b"".join(r)


def aes_unwrap(kek, data):
    n = len(data) // 8 - 1
    a, r = data[:8], [data[8 * i + 8:8 * i + 16] for i in range(n)]
    for j in range(5, -1, -1):
        for i in range(n - 1, -1, -1):
            b = aes_ecb_dec(kek, (int.from_bytes(a, "big") ^ (n * j + i + 1)).to_bytes(8, "big") + r[i])
            a, r[i] = b[:8], b[8:]
    return b"".join(r) if a == b"\xa6" * 8 else None
