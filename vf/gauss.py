"""Exact discrete-Gaussian and ChaCha references."""
import functools, struct
from decimal import Decimal as D, getcontext
getcontext().prec = 60
S0 = D("1.8205")
_W = [(-(D(k * k)) / (2 * S0 * S0)).exp() for k in range(60)]
_T = sum(_W)
# half-Gaussian tail probabilities times 2^72
TAIL = [sum(_W[i + 1:]) / _T * 2 ** 72 for i in range(20)]


def accept(mu_frac, sigma, sigmin, z0, b):
    """Acceptance probability of candidate z = b + (2b-1) z0 around fractional centre, as a Decimal."""
    z = b + (2 * b - 1) * z0
    r, s = D(mu_frac), D(sigma)
    x = (D(z) - r) ** 2 / (2 * s * s) - D(z0 * z0) / (2 * S0 * S0)
    return D(sigmin) / s * (-x).exp()


def block(words, ctr):
    st = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(words[:12])
    st[14] ^= ctr & 0xffffffff
    st[15] ^= ctr >> 32
    x = list(st)

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & 0xffffffff
        x[d] ^= x[a]
        x[d] = (x[d] << 16 | x[d] >> 16) & 0xffffffff
        x[c] = (x[c] + x[d]) & 0xffffffff
        x[b] ^= x[c]
        x[b] = (x[b] << 12 | x[b] >> 20) & 0xffffffff
        x[a] = (x[a] + x[b]) & 0xffffffff
        x[d] ^= x[a]
        x[d] = (x[d] << 8 | x[d] >> 24) & 0xffffffff
        x[c] = (x[c] + x[d]) & 0xffffffff
        x[b] ^= x[c]
        x[b] = (x[b] << 7 | x[b] >> 25) & 0xffffffff
    for _ in range(10):
        qr(0, 4, 8, 12), qr(1, 5, 9, 13), qr(2, 6, 10, 14), qr(3, 7, 11, 15)
        qr(0, 5, 10, 15), qr(1, 6, 11, 12), qr(2, 7, 8, 13), qr(3, 4, 9, 14)
    return [(a + b) & 0xffffffff for a, b in zip(x, st)]


@functools.lru_cache(None)
def buffers(seed, k):
    """The first k 512-byte buffers of the generator seeded with 56 bytes."""
    w = struct.unpack("<14I", seed)
    ctr = w[12] | w[13] << 32
    out = []
    for _ in range(k):
        bl = []
        for _ in range(8):
            bl.append(block(w, ctr))
            ctr = (ctr + 1) & (2 ** 64 - 1)
        out.append(b"".join(struct.pack("<I", bl[j][i]) for i in range(16) for j in range(8)))
    return out


class Gen:
    """The specified read discipline: an 8-byte read needs more than 9 bytes left, a 1-byte read needs one; leftovers are dropped."""

    def __init__(self, seed, cap=64):
        self.b, self.i, self.p = buffers(seed, cap), 0, 0

    def _next(self):
        self.i += 1
        self.p = 0

    def u64(self):
        if self.p >= 503:
            self._next()
        v = self.b[self.i][self.p:self.p + 8]
        self.p += 8
        return v

    def u8(self):
        if self.p == 512:
            self._next()
        v = self.b[self.i][self.p:self.p + 1]
        self.p += 1
        return v

# Table of the reference key generator: KEYTAB[0] / 2^63 = P(v = 0), KEYTAB[k] / 2^63 = P(|v| > k) given v != 0, for degree 1024.
KEYTAB = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
          242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
          23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]
