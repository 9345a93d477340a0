"""Oracle and input builders for the on-chain verifiers (independent of /repo)."""
import math
import numpy as np
from . import spec, sol

Q, N, BOUND = spec.Q, 512, spec.BOUND[512]
PSI = pow(7, 2, Q)
EXP = [2 * int(format(i, "09b")[::-1], 2) + 1 for i in range(N)]
X = np.array([pow(PSI, e, Q) for e in EXP], dtype=np.int64)
V = np.ones((N, N), dtype=np.int64)
for _j in range(1, N):
    V[:, _j] = V[:, _j - 1] * X % Q
XI = np.array([pow(int(x), -1, Q) for x in X], dtype=np.int64)
W = np.ones((N, N), dtype=np.int64)
for _j in range(1, N):
    W[_j] = W[_j - 1] * XI % Q
NI = pow(N, -1, Q)
# float64 products stay exact: entries < 2^14, sums < 2^37
VF, WF = V.astype(np.float64), W.astype(np.float64)


def arr(v):
    return np.array([int(x) % Q for x in v], dtype=np.int64)


def ntt(v):
    return (VF @ arr(v).astype(np.float64)).astype(np.int64) % Q


def intt(v):
    return (WF @ arr(v).astype(np.float64)).astype(np.int64) % Q * NI % Q


def inv(v):
    r, b, e = np.ones_like(v), v % Q, Q - 2
    while e:
        if e & 1:
            r = r * b % Q
        b = b * b % Q
        e >>= 1
    return r


def compact(lanes):
    return [sum(int(lanes[16 * i + j]) << (16 * j) for j in range(16)) for i in range(len(lanes) // 16)]


def expand(words):
    return [(w >> (16 * j)) & 0xffff for w in words for j in range(16)]


def hash_point(kind, salt, msg):
    return spec.h2p(N, salt + msg, spec.STREAMS[kind])


def cmod(a):
    a = np.asarray(a, dtype=np.int64) % Q
    return np.where(a > Q // 2, a - Q, a)


def accepts(kind, msg, salt, s2, key):
    """What the specification says of verify(msg, salt, s2 words, key words)."""
    if len(salt) != 40 or len(s2) != 32 or len(key) != 32:
        return False
    a = np.array(expand(s2), dtype=np.int64)
    if (a >= Q).any():
        return False
    c = np.array(hash_point(kind, salt, msg), dtype=np.int64)
    s1 = cmod(c - intt(ntt(a) * (np.array(expand(key), dtype=np.int64) % Q) % Q))
    return int((s1 * s1).sum() + (cmod(a) ** 2).sum()) <= BOUND


def key_for(c, s1, s2):
    """Key under which (s1, s2) solves s1 + s2 h = c; None if s2 is not invertible."""
    d = ntt(s2)
    if (d == 0).any():
        return None
    return (ntt(c) - ntt(s1)) * inv(d) % Q


def fill(vec, used, left):
    """Spread a squared norm over unused places of vec."""
    free = [i for i in range(N) if i not in used and vec[i] == 0]
    for i in free:
        if left == 0:
            break
        r = min(math.isqrt(left), 6144)
        vec[i] = -r if i % 3 == 0 else r
        left -= r * r
    assert left == 0


def small(i):
    """Fixed vectors with entries -1..1 (about a third non-zero), invertible in the ring."""
    j = 0
    while True:
        d = spec.shake_stream(b"small %d %d" % (i, j), N)
        v = [(1 if x < 43 else -1 if x < 86 else 0) for x in d]
        if not (ntt(v) == 0).any():
            return v
        j += 1


def edge(i, which, value, delta):
    """(s1, s2) with squared norm BOUND + delta, `value` at place i of s1 (which 0) or s2 (which 1); s2 invertible."""
    k = 0
    while True:
        s2 = list(small(k))
        s1 = [0] * N
        (s1 if which == 0 else s2)[i] = value
        if not (ntt(s2) == 0).any():
            break
        k += 1
    left = BOUND + delta - sum(x * x for x in s1) - sum(x * x for x in s2)
    fill(s1, {i}, left)
    return s1, s2


def contract(run, variant):
    path = {"falcon": "src/ZKNOX_falcon.sol", "ethfalcon": "src/ZKNOX_ethfalcon.sol", "epervier": "src/ZKNOX_epervier.sol",
            "ethepervier": "src/ZKNOX_ethepervier.sol"}[variant]
    return sol.Contract(run, path, "ZKNOX_" + variant)


KIND = {"falcon": "shake", "epervier": "shake", "ethfalcon": "keccak", "ethepervier": "keccak"}


def ask(c, name, *a):
    """Result of a call, or "revert"."""
    try:
        return c.call(name, *a)[0]
    except sol.Revert:
        return "revert"
