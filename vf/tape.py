"""Exact exploration of an integer sampler through a scripted randomness tape; shared by the Python (P12) and native (C12) checks.

sam.basesampler(tape) and sam.samplerz(mu, sigma, sigmin, randombytes=tape) read tape and advance tape.p."""
import hashlib, itertools, math
from decimal import Decimal as D
from . import gauss, pyref
from .cases import section


TABLE = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903, 8595902006365044063,
         1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299, 638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
NOISE = hashlib.shake_256(b"tape").digest(20000)


class Tape:
    """Scripted randomness, then fixed noise; the bytes read are counted."""

    def __init__(self, data):
        self.d, self.p, self.calls = data, 0, []

    def __call__(self, k):
        o = self.d[self.p:self.p + k]
        self.p += k
        self.calls.append(k)
        return o + NOISE[max(0, self.p - k - len(self.d)):][:k - len(o)]


def bisect(lo, hi, pred):
    """Smallest v in [lo, hi] with not pred(v), for a decreasing predicate."""
    while lo < hi:
        m = (lo + hi) // 2
        if pred(m):
            lo = m + 1
        else:
            hi = m
    return lo


def explore(run, sam, above=0):
    """above: relative distance kept between the deviation and its minimum."""
    q = run.quick

    def base(job):
        """Every decision threshold of the base sampler, located exactly on the code, against exact half-Gaussian tails."""
        f = lambda u: sam.basesampler(Tape(u.to_bytes(9, "little")))
        ths = []
        for k in range(1, 19):
            t = bisect(0, 2 ** 72 - 1, lambda u: f(u) >= k)
            ths.append(t)
            # the specification publishes the table itself (Table 3.1); it is the exact half-Gaussian up to a few units
            why = None if t == TABLE[k - 1] and abs(D(t) - gauss.TAIL[k - 1]) < 10 else "P(z0 >= %d) is %d/2^72, the specified value is %d" % (k, t, TABLE[k - 1])
            if not why and (f(t) != k - 1 or (t and f(t - 1) != k)):
                why = "step at %d is not a single step" % t
            yield "tail%d" % k, why, 1
        for u in sorted({max(0, t + d) for t in ths for d in (-2 ** 24, -256, -1, 0, 1, 255, 2 ** 24, 2 ** 48)} | {1 << i for i in range(72)} | {(1 << i) - 1 for i in range(73)}):
            if u < 2 ** 72:
                t = Tape(u.to_bytes(9, "little"))
                z = sam.basesampler(t)
                yield "u%d" % u, None if z == sum(u < x for x in ths) and t.p == 9 else "base sampler is not monotone in its 72-bit input, or reads %d bytes" % t.p, 1
    section(run, "base-thresholds", [0], base, what="transitions", nt="thresholds")

    MUS = [0.0, 0.5, 0.25, 0.999999, 1e-12, -0.5, -1e-17, -3.0, 7.0, -7.75, 123456.789, -98765.4321, 0.1, -0.1, 6144.37, -1e7 + 0.3]
    SIG = [(1.1165085072329104, 1.1165085072329104), (1.2778336969128337, 1.2778336969128337), (1.2778336969128337, 1.5), (1.298280334344292, 1.8204), (1.2778336969128337, 1.7037990414754918), (1.43300980528773 - 0.001, 1.43300980528773)]
    SIG = [(a, max(b, a * (1 + above))) for a, b in SIG]
    if q:
        MUS, SIG = MUS[:1] + MUS[1::2] + MUS[6:7], SIG[1:5:2] + SIG[-1:]
    else:
        MUS += [k / 61 - 30 for k in range(1, 61 * 60, 37)] + [k / 2 ** 53 for k in (1, 2, 2 ** 52 - 1, 2 ** 52 + 1, 2 ** 53 - 1)]
        SIG += [(1.2778336969128337, 1.2778336969128337 + k * 0.0301) for k in range(1, 18)] + [(1.298280334344292, 1.298280334344292 + k * 0.0521) for k in range(1, 10)]

    def accept(job):
        """Every abstract path (base value, sign): exact acceptance probability found by bisection over the 64-bit comparison, returned value, bytes consumed."""
        mu, (smin, sig) = job
        fl = math.floor(mu)
        r = D(mu) - D(fl)
        reps = {z: None for z in range(19)}
        ths = [0] * 20
        for k in range(1, 19):
            ths[k] = bisect(0, 2 ** 72 - 1, lambda u: sam.basesampler(Tape(u.to_bytes(9, "little"))) >= k)
        ths[0] = 2 ** 72
        for z0 in range(19):
            u = ths[z0] - 1
            if u < ths[z0 + 1]:
                yield "mu%r:z0=%d" % (mu, z0), "value never produced by the base sampler", 1
                continue
            for b in (0, 1):
                pre = u.to_bytes(9, "little") + bytes([b | (0xA4 if z0 % 2 else 0x02)])
                cand = fl + b + (2 * b - 1) * z0

                def takes(v):
                    # after the comparison an acceptance stops; a rejection starts another round on the noise
                    t = Tape(pre + v.to_bytes(8, "big"))
                    z = sam.samplerz(mu, sig, smin, randombytes=t)
                    return t.p <= 18, z, t
                def acc(v):
                    return takes(v)[0]
                th = bisect(0, 2 ** 64 - 1, acc)
                p = gauss.accept(r, sig, smin, z0, b)
                err = abs(D(th) - p * 2 ** 64)
                why = None
                if err > p * 2 ** 64 * D(2) ** -38 + 2:
                    why = "accepted with probability %d/2^64, exact value %s" % (th, p * 2 ** 64)
                elif th and takes(0)[1] != cand:
                    why = "returns %s for candidate %d" % (takes(0)[1], cand)
                elif th:
                    # bytes are consumed one by one, up to and including the first that differs
                    z = (th).to_bytes(8, "big")
                    for i in range(8):
                        if z[i] and not why:
                            v = int.from_bytes(z[:i] + bytes([z[i] - 1]) + b"\xff" * (7 - i), "big")
                            ok, out, t = takes(v)
                            if not ok or t.p != 11 + i or out != cand:
                                why = "comparison stops after %d bytes instead of %d" % (t.p - 10, i + 1)
                yield "mu%r:s%r:z0=%d:b=%d" % (mu, sig, z0, b), why, 1
    section(run, "acceptance", [(m, s) for m in MUS for s in SIG], accept, what="states", nt="thresholds")

    def scripts(job):
        """Multi-round histories: every accept/reject pattern of up to five rounds; result, total consumption and order of reads."""
        mu, smin, sig, depth = job
        for pat in itertools.product((0, 1, 2), repeat=depth):
            data, want, used = b"", None, 0
            for k in pat + (1,):
                u = ((k * 7919 + used * 104729) % (2 ** 40)) + 2 ** 71     # z0 = 0 region
                if k == 2:
                    u = 2 ** 70 + used                                     # another base value, accepted
                b = (k + used) & 1
                data += u.to_bytes(9, "little") + bytes([b]) + (b"\0" if k else b"\xff")
                used += 11
                if k and want is None:
                    z0 = sum(D(u) < t for t in gauss.TAIL[:18])
                    want = (math.floor(mu) + b + (2 * b - 1) * z0, used)
            t = Tape(data)
            z, e = pyref.quiet(sam.samplerz, mu, sig, smin, randombytes=t)
            yield "mu%r:%s" % (mu, pat), None if e is None and (z, t.p) == want else "returned %s after %d bytes, expected %s (%r)" % (z, t.p, want, e), 0 in pat
    section(run, "rounds", [(mu, s[0], s[1], d) for mu in (0.3, -2.6, 5.0) for s in SIG[:2] for d in (1, 2, 3, 4, 5)], scripts, what="traces_validated_against_impl", nt="traces_with_rejection")

    return "%d centres x %d deviations, all 38 candidate paths each" % (len(MUS), len(SIG))
