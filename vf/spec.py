"""Independent Python reading of the specification; shares nothing with /repo.  Trusted: hashlib, pycryptodome's Keccak, numpy convolution."""
import hashlib
import numpy as np
from Crypto.Hash import keccak as _k

Q = 12289
BOUND = {2: 101498, 4: 208714, 8: 428865, 16: 892039, 32: 1852696, 64: 3842630, 128: 7959734, 256: 16468416, 512: 34034726, 1024: 70265242}
SIGLEN = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}
LOGN = {n: n.bit_length() - 1 for n in BOUND}


def keccak256(b):
    h = _k.new(digest_bits=256)
    h.update(bytes(b))
    return h.digest()


def shake_stream(data, n):
    return hashlib.shake_256(bytes(data)).digest(n)


def keccak_stream(data, n):
    s = keccak256(data)
    return b"".join(keccak256(s + i.to_bytes(8, "big")) for i in range((n + 31) // 32))[:n]


def blake_stream(data, n):
    s = hashlib.blake2s(bytes(data)).digest()
    return b"".join(hashlib.blake2s(s + i.to_bytes(8, "big")).digest() for i in range((n + 31) // 32))[:n]


STREAMS = {"shake": shake_stream, "keccak": keccak_stream}


def h2p_words(n, words):
    out = []
    for w in words:
        if len(out) == n:
            break
        if w < 5 * Q:
            out.append(w % Q)
    return out if len(out) == n else None


def h2p(n, data, stream):
    k = 3 * n + 64
    while True:
        b = stream(data, 2 * k)
        r = h2p_words(n, [(b[2 * i] << 8) | b[2 * i + 1] for i in range(k)])
        if r is not None:
            return r
        k *= 2


def negamul(a, b):
    """Product in Z[X]/(X^n+1), exact."""
    n = len(a)
    if max(map(abs, a), default=0) * max(map(abs, b), default=0) * n < 1 << 62:
        c = np.convolve(np.array(a, dtype=np.int64), np.array(b, dtype=np.int64))
        r = c[:n].copy()
        r[:n - 1] -= c[n:]
        return [int(x) for x in r]
    r = [0] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if i + j < n:
                    r[i + j] += x * y
                else:
                    r[i + j - n] -= x * y
    return r


def center(x):
    x %= Q
    return x - Q if x > Q // 2 else x


def compress(v, slen):
    bits = []
    for c in v:
        a = abs(c)
        bits.append("1" if c < 0 else "0")
        bits.append(format(a & 127, "07b"))
        bits.append("0" * (a >> 7) + "1")
    s = "".join(bits)
    if len(s) > 8 * slen:
        return None
    s += "0" * (8 * slen - len(s))
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def decompress(b, n):
    """Values, or None if b is not an encoding of n values followed by zero bits only."""
    s = "".join(format(x, "08b") for x in b)
    v, i = [], 0
    for _ in range(n):
        if i + 9 > len(s):
            return None
        neg, low = s[i] == "1", int(s[i + 1:i + 8], 2)
        j = s.find("1", i + 8)
        if j < 0:
            return None
        a = low + ((j - i - 8) << 7)
        if a == 0 and neg:
            return None
        v.append(-a if neg else a)
        i = j + 1
    return v if "1" not in s[i:] else None


def verify_points(n, h, c, s1):
    """s0 = c - s1*h centred; squared norm of (s0, s1) within the bound."""
    p = negamul([x % Q for x in s1], h)
    s0 = [center(x - y) for x, y in zip(c, p)]
    return sum(x * x for x in s0) + sum(x * x for x in s1) <= BOUND[n]


def verify(n, h, msg, sig, stream):
    if len(sig) < 41 or len(sig) > SIGLEN[n]:
        return False
    s1 = decompress(sig[41:], n)
    if s1 is None:
        return False
    return verify_points(n, h, h2p(n, sig[1:41] + msg, stream), s1)


def ntt(f):
    """Values of f at the odd powers of psi in the project's (bit-reversed) order: f mod (X - psi^(2*brv(i)+1))."""
    n = len(f)
    psi = pow(7, 1024 // n, Q)
    lg = n.bit_length() - 1
    out = []
    for i in range(n):
        e = 2 * int(format(i, "0%db" % lg)[::-1], 2) + 1 if lg else 1
        out.append(pow(psi, e, Q))
    # Vandermonde product, exact in int64
    V = np.ones((n, n), dtype=np.int64)
    x = np.array(out, dtype=np.int64)
    for j in range(1, n):
        V[:, j] = V[:, j - 1] * x % Q
    return [int(t) for t in (V * (np.array(f, dtype=np.int64) % Q) % Q).sum(axis=1) % Q]


def address(values):
    return int.from_bytes(keccak256(b"".join(int(v).to_bytes(32, "big") for v in values))[-20:], "big")
