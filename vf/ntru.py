"""Exact NTRU arithmetic over Z[X]/(X^n+1): norms, resultants, solvability, Gram-Schmidt norm, nearest-plane quotient."""
from decimal import Decimal as D
from fractions import Fraction
import itertools, math
import numpy as np
from .spec import Q, negamul, ntt

FG_LIM = {1: 128, 2: 128, 3: 128, 4: 128, 5: 128, 6: 64, 7: 64, 8: 32, 9: 32, 10: 16}
NORM_MAX = 16822.4121      # 1.17^2 * q


def mul(a, b):
    if max(map(abs, a)) * max(map(abs, b)) * len(a) < 1 << 62:
        return negamul(a, b)
    n = len(a)     # Kronecker substitution
    w = (max(map(abs, a)).bit_length() + max(map(abs, b)).bit_length() + n.bit_length() + 2 + 7) // 8
    def pack(v):
        pos = b"".join((x if x > 0 else 0).to_bytes(w, "little") for x in v)
        neg = b"".join((-x if x < 0 else 0).to_bytes(w, "little") for x in v)
        return int.from_bytes(pos, "little") - int.from_bytes(neg, "little")
    p = pack(a) * pack(b)
    half = 1 << (8 * w - 1)
    p += sum(half << (8 * w * i) for i in range(2 * n)) if n < 8 else int.from_bytes(half.to_bytes(w, "little") * (2 * n), "little")
    bs = p.to_bytes(2 * n * w + 1, "little")
    c = [int.from_bytes(bs[i * w:(i + 1) * w], "little") - half for i in range(2 * n)]
    return [c[i] - c[i + n] for i in range(n)]


def conj(a):
    """a(-X)."""
    return [-x if i & 1 else x for i, x in enumerate(a)]


def star(a):
    """a(1/X)."""
    return [a[0]] + [-x for x in a[:0:-1]]


def norm(a):
    """Relative norm to Z[X]/(X^(n/2)+1)."""
    return mul(a, conj(a))[::2]


def lift(a):
    return [x for y in a for x in (y, 0)]


def resultant(a):
    while len(a) > 1:
        a = norm(a)
    return a[0]


def inverse(a):
    """(b, r) with a*b = r an integer."""
    if len(a) == 1:
        return [1], a[0]
    b, r = inverse(norm(a))
    b = mul(conj(a), lift(b))
    g = math.gcd(r, *b)
    return [x // g for x in b], r // g


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def gram(f, g):
    return add(mul(f, star(f)), mul(g, star(g)))


def ortho(f, g, exact=32):
    """Squared norm of the orthogonalised (n+1)-th row: exact for small degrees, float otherwise."""
    n = len(f)
    if n <= exact:
        b, r = inverse(gram(f, g))
        return Fraction(Q * Q * b[0], r)
    w = np.exp(1j * np.pi * (2 * np.arange(n) + 1) / n)
    z = np.exp(1j * np.pi * np.arange(n) / n)
    fa, ga = (np.fft.fft(np.array(p) * z) for p in (f, g))
    return float(Q * Q * np.mean(1 / (abs(fa) ** 2 + abs(ga) ** 2)))


def quotient(f, g, F, G):
    """(F f* + G g*)/(f f* + g g*) as Fractions (exact)."""
    b, r = inverse(gram(f, g))
    num = mul(add(mul(F, star(f)), mul(G, star(g))), b)
    return [Fraction(x, r) for x in num]


def rnd(x):
    return (2 * x.numerator + x.denominator) // (2 * x.denominator)


def reduce(f, g, F, G):
    """Nearest-plane reduction; also the distance of the quotient from the rounding boundary."""
    k = quotient(f, g, F, G)
    z = [rnd(x) for x in k]
    margin = min(abs(abs(x - y) - Fraction(1, 2)) for x, y in zip(k, z))
    fz, gz = mul(f, z), mul(g, z)
    return [a - b for a, b in zip(F, fz)], [a - b for a, b in zip(G, gz)], margin


def _top(v, sh):
    return np.array([float(x >> sh) if sh > 0 else float(x) for x in v])


def fast_reduce(f, g, F, G):
    """Nearest-plane reduction by repeated floating-point quotients; the arithmetic on F, G is exact."""
    n = len(f)
    z = np.exp(1j * np.pi * np.arange(n) / n)
    size = lambda *p: max(max(map(abs, x)) for x in p).bit_length()
    s = max(0, size(f, g) - 53)
    ff, gg = (np.fft.fft(_top(p, s) * z) for p in (f, g))
    den = abs(ff) ** 2 + abs(gg) ** 2
    last = None
    while True:
        S = max(0, size(F, G) - 53)
        FF, GG = (np.fft.fft(_top(p, S) * z) for p in (F, G))
        k = (np.fft.ifft((FF * ff.conj() + GG * gg.conj()) / den) / z).real
        sh = S - s
        if sh < 0:
            k = np.ldexp(k, sh)
            sh = 0
        elif sh > 0:
            e = min(sh, max(0, 40 - int(np.ceil(np.log2(abs(k).max() + 1)))))      # keep the fraction bits the shift would lose
            k, sh = np.ldexp(k, e), sh - e
        z_ = [int(x) for x in np.rint(k)]
        if not any(z_):
            return F, G
        cur = size(F, G)
        if last is not None and cur >= last and sh == 0 and max(map(abs, z_)) <= 1:
            return F, G
        last = cur
        F = [a - (b << sh) for a, b in zip(F, mul(f, z_))]
        G = [a - (b << sh) for a, b in zip(G, mul(g, z_))]


def xgcd(a, b):
    x, y, u, v = 1, 0, 0, 1
    while b:
        t = a // b
        a, b, x, y, u, v = b, a - t * b, u, v, x - t * u, y - t * v
    return a, x, y


def solve(f, g):
    """Any (F, G) with f*G - g*F = q reduced at every level, or None."""
    if len(f) == 1:
        d, u, v = xgcd(f[0], g[0])
        return None if abs(d) != 1 else ([-Q * v * d], [Q * u * d])
    r = solve(norm(f), norm(g))
    if r is None:
        return None
    F, G = mul(lift(r[0]), conj(g)), mul(lift(r[1]), conj(f))
    return reduce(f, g, F, G)[:2] if len(f) <= 16 else fast_reduce(f, g, F, G)


def invertible(f):
    return all(ntt([x % Q for x in f]))


def judge(f, g, full=True, skip=None):
    """Why the specification rejects candidate (f, g), or None; a second value says whether the decision is too close to call in floating point."""
    n = len(f)
    lg = n.bit_length() - 1
    if skip != "range" and max(map(abs, f + g)) >= FG_LIM[lg]:
        return "range", 0
    if skip != "norm" and sum(x * x for x in f + g) > NORM_MAX:
        return "norm", 0
    o = ortho(f, g)
    close = abs(float(o) - NORM_MAX) < 1e-6
    if o > NORM_MAX:
        return "ortho", close
    if skip != "invertible" and not invertible(f):
        return "invertible", close
    if full and math.gcd(resultant(f), resultant(g)) != 1:
        return "coprime", close
    return None, close


def range_cases(f, g, got):
    """Variants of a candidate with one coefficient at or just beyond the limit of its degree, all other conditions met; `got` remembers what has been made."""
    n = len(f)
    L = FG_LIM[n.bit_length() - 1]
    for i in sorted({0, 1, n - 1, n, n + 1, 2 * n - 1}):
        for x in (L - 1, L, L + 1, 1 - L, -L, -1 - L):
            if abs(x) > 127 or (i, x) in got:
                continue
            for o in range(24):      # another coefficient keeps the parity, a third one varies the candidate
                w = f + g
                d = (x - w[i]) & 1
                w[i] = x
                if d:
                    o2 = (i // n) * n + (i + 1 + o) % n
                    if o2 == i:
                        continue
                    w[o2] += 1 if w[o2] < 0 else -1
                else:
                    o2 = (n - i // n * n + o) % (2 * n)
                    w[o2] += -2 if w[o2] > 0 else 2
                    if o2 == i:
                        continue
                if judge(w[:n], w[n:], skip="range") == (None, 0):
                    got.add((i, x))
                    yield w, "%d at %d" % (x, i)
                    break


def slot_cases(f, g):
    """Variants of a candidate whose f vanishes in exactly one transform slot, all other conditions met."""
    n = len(f)
    L = FG_LIM[n.bit_length() - 1]
    k = 1 if n < 8 else 3
    cols = [ntt([0] * j + [1] + [0] * (n - 1 - j)) for j in range(k)]
    e = ntt([0] * k + [x % Q for x in f[k:]])
    R = range(1 - L, L) if k == 1 else range(-13, 14)
    for i in range(n) if n <= 16 else sorted({0, 1, n // 2 - 1, n // 2, n - 2, n - 1}):
        for rest in itertools.product(sorted(R, key=abs), repeat=k - 1) if k > 1 else [()]:
            c = -(int(e[i]) + sum(int(cols[1 + j][i]) * x for j, x in enumerate(rest))) % Q
            c -= Q if c > Q // 2 else 0
            w = [c] + list(rest) + f[k:]
            if c in R and sum(w) & 1 and sum(1 for x in ntt([x % Q for x in w]) if not x) == 1:
                if judge(w, g, skip="invertible") == (None, 0):
                    yield w + g, i
                    break


def check_key(f, g, F, G, h=None):
    """Everything a key must satisfy."""
    n = len(f)
    e = [a - b for a, b in zip(mul(f, G), mul(g, F))]
    if e != [Q] + [0] * (n - 1):
        return "fG - gF is not q"
    if h is not None and [x % Q for x in mul([int(x) for x in h], f)] != [x % Q for x in g]:
        return "h*f is not g"
    if h is not None and (min(h) < 0 or max(h) >= Q):
        return "h is not canonical"
    w = judge(f, g, full=False)
    if w[0] and not w[1]:
        return "the key breaks the %s condition" % w[0]
    return None


# key-coefficient table: exact discrete Gaussian of deviation 1.17*sqrt(q/2048)
def table():
    s2 = D("1.17") ** 2 * Q / 2048
    w = {k: (-(D(k * k)) / (2 * s2)).exp() for k in range(0, 61)}
    tot = w[0] + 2 * sum(w[k] for k in range(1, 61))
    t = [w[0] / tot * 2 ** 63]
    tail = sum(w[k] for k in range(1, 61))
    for k in range(1, 27):
        t.append(sum(w[j] for j in range(k + 1, 61)) / tail * 2 ** 63)
    return t


# the randomness of a key generation as a tape of samples
T = [int(x.to_integral_value()) for x in table()]      # the exact distribution, rounded to 63 bits
ASC = np.array(T[:0:-1], dtype=np.uint64)                   # ascending thresholds of the magnitude draw
TOP = 2 ** 63


def samples(data):
    w = np.frombuffer(data[:len(data) // 16 * 16], dtype="<u8").reshape(-1, 2)
    low = w & np.uint64(TOP - 1)
    mag = 27 - np.searchsorted(ASC, low[:, 1], side="right")
    v = np.where(low[:, 0] < T[0], 0, mag)
    return np.where(w[:, 0] >> np.uint64(63), -v, v)


def draw(sm, pos, logn):
    """One polynomial from the sample stream; (coefficients, new position) or None when the stream ends."""
    k, n = 1 << (10 - logn), 1 << logn
    out = []
    while len(out) < n:
        if pos + k > len(sm):
            return None
        s = int(sm[pos:pos + k].sum())
        pos += k
        if abs(s) > 127 or (len(out) == n - 1 and not (sum(out) + s) & 1):
            continue
        out.append(s)
    return out, pos


def word(v):
    """Two tape words that give sample v."""
    return (0).to_bytes(16, "little") if v == 0 else ((TOP - 1) | (TOP if v < 0 else 0)).to_bytes(8, "little") + T[abs(v)].to_bytes(8, "little")


def encode(p, logn):
    k = 1 << (10 - logn)
    out = []
    for c in p:
        rest = []
        while c:
            v = max(-26, min(26, c))
            rest.append(v)
            c -= v
        out += [word(v) for v in rest] + [word(0)] * (k - len(rest))
        assert len(rest) <= k
    return b"".join(out)
