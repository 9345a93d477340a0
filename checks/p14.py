"""P14: Python key generation returns exactly the first acceptable candidate of its randomness with a complete, correct, reduced key; its integer and ring helpers are exact."""
import hashlib, itertools, math
from fractions import Fraction
import numpy as np
from vf import ntru, pyref, spec
from vf.cases import section, split
from vf.ntru import T, TOP, samples, draw, word, encode

LEVEL = "exploration"


class Ended(Exception):
    pass


class Stream:
    def __init__(self, data):
        self.d, self.p = data, 0

    def __call__(self, k):
        if self.p + k > len(self.d):
            raise Ended
        self.p += k
        return self.d[self.p - k:self.p]


def spread(f, g, F, G):
    """Largest nearest-plane quotient of (F, G), in floating point for large degrees."""
    n = len(f)
    if n <= 32:
        return float(max(map(abs, ntru.quotient(f, g, F, G))))
    z = np.exp(1j * np.pi * np.arange(n) / n)
    ff, gg, FF, GG = (np.fft.fft(np.array(p, dtype=float) * z) for p in (f, g, F, G))
    return float(abs((np.fft.ifft((FF * ff.conj() + GG * gg.conj()) / (abs(ff) ** 2 + abs(gg) ** 2)) / z).real).max())


def main(run):
    m = pyref.load(run, "ntrugen")
    q = run.quick
    have = lambda *names: all(hasattr(m, x) for x in names)

    def helpers(job):
        kind, n = job
        if kind == "mul":
            big = (0, 1, -1, 3, 2 ** 31, -2 ** 63, 2 ** 64 - 1, -10 ** 40)
            for i, j in itertools.product(range(n), repeat=2):
                for c in ((1, 1), (-1, 12288), (2 ** 63, -2 ** 64), (10 ** 50, 10 ** 50 + 1))[:4 if n < 17 else 1]:
                    a, b = [0] * n, [0] * n
                    a[i], b[j] = c
                    got = m.karamul(list(a), list(b))
                    yield "mul%d:%d:%d:%s" % (n, i, j, c[0]), None if list(got) == ntru.mul(a, b) else "product of monomials is wrong", 1
            for s in range(20):
                d = hashlib.shake_256(b"p14 mul %d %d" % (n, s)).digest(2 * n)
                a, b = [big[x % 8] + x for x in d[:n]], [big[x % 8] - x for x in d[n:]]
                yield "mul%d:dense%d" % (n, s), None if list(m.karamul(list(a), list(b))) == ntru.mul(a, b) else "dense product is wrong", 1
        elif kind == "maps":
            for s in range(40):
                d = hashlib.shake_256(b"p14 maps %d %d" % (n, s)).digest(n)
                a = [0] * n
                if s < n:
                    a[s] = 7
                else:
                    a = [x - 128 if s % 2 else (x - 100) * 10 ** 30 for x in d]
                for name, want in (("galois_conjugate", ntru.conj(a)), ("lift", ntru.lift(a)), ("field_norm", ntru.norm(a) if n > 1 else None)):
                    if want is not None and hasattr(m, name):
                        got = getattr(m, name)(list(a))
                        yield "%s:%d:%d" % (name, n, s), None if list(got) == want else "%s gives a wrong polynomial" % name, 1
        elif kind == "xgcd":
            R = 60 if q else 200
            for a in range(-R, R + 1):
                for b in range(-R, R + 1):
                    d, u, v = m.xgcd(a, b)
                    yield "xgcd:%d:%d" % (a, b), None if abs(d) == math.gcd(a, b) and u * a + v * b == d else "xgcd gives (%d, %d, %d)" % (d, u, v), a and b
        else:
            for e in range(0, 300):
                for a in {2 ** e - 1, 2 ** e, 2 ** e + 1}:
                    for s in (a, -a):
                        want = (a.bit_length() + 7) // 8 * 8
                        yield "bitsize:%d:%d" % (e, s < 0), None if m.bitsize(s) == want else "size of %d is %s" % (s, m.bitsize(s)), 1
    js = []
    if have("karamul"):
        js += [("mul", n) for n in (64, 32, 16, 8, 4, 2, 1)]
    js += [("maps", n) for n in (1, 2, 4, 8, 16, 64, 512)]
    js += [("xgcd", 0)] * have("xgcd") + [("bitsize", 0)] * have("bitsize")
    section(run, "helpers", js, helpers)

    def solve(job):
        for w in job:
            n = len(w) // 2
            f, g = list(w[:n]), list(w[n:])
            name = "n%d:%s" % (n, ",".join(map(str, w)) if n < 9 else hashlib.sha256(repr(w).encode()).hexdigest()[:12])
            ok = math.gcd(ntru.resultant(f), ntru.resultant(g)) == 1
            why = None
            try:
                F, G = pyref.guarded(20, m.ntru_solve, list(f), list(g))
                if not ok:
                    why = "returned a solution where none exists"
                elif [a - b for a, b in zip(ntru.mul(f, list(G)), ntru.mul(g, list(F)))] != [spec.Q] + [0] * (n - 1):
                    why = "f*G - g*F is not q"
                elif n > 1 and spread(f, g, F, G) > 0.5 + 1e-6:
                    why = "F, G are not reduced"
            except TimeoutError:
                why = "no answer within 20 s"
            except ValueError as e:
                why = "refused though the resultants are coprime" if ok else None
            except Exception as e:
                why = "raised %r" % e
            yield name, why, ok
    if have("ntru_solve"):
        cs = [(a, b) for a in range(0, 30) for b in range(0, 30)]
        cs += list(itertools.product(range(-3, 4) if q else range(-6, 7), repeat=4))
        cs += list(itertools.product((0, 1, -1) if not q else (0, 1), repeat=8)) + [w for w in itertools.product((0, 2, -5, 60), repeat=8) if hash(w) % (31 if q else 3) == 0]
        for lg in range(3, 10 if q else 11):
            sm = samples(hashlib.shake_256(b"p14 solve %d %d" % (run.seed, lg)).digest(16 * 2048 * (12 if lg < 9 else 4)))
            pos = 0
            for i in range((200 if lg < 6 else 20) if not q else 10 if lg < 8 else 2 if lg < 10 else 1):
                a = draw(sm, pos, lg)
                b = a and draw(sm, a[1], lg)
                if not b:
                    break
                pos = b[1]
                cs.append(tuple(a[0] + b[0]))
        section(run, "solver", split(sorted(cs, key=len)[::-1], 48), solve)

    def gs(job):
        for w in job:
            n = len(w) // 2
            f, g = list(w[:n]), list(w[n:])
            want = max(float(ntru.ortho(f, g)), sum(x * x for x in w))
            got, e = pyref.quiet(m.gs_norm, f, g, spec.Q)
            yield "n%d:%s" % (n, str(w[:8])), "raised %r" % e if e else None if abs(got / want - 1) < 1e-8 else "Gram-Schmidt norm %r, exact %r" % (got, want), 1
    if have("gs_norm"):
        cs = [w for w in itertools.product((0, 1, -3, 100) if q else range(-5, 6), repeat=4) if any(w)]
        cs += [w for w in itertools.product((0, 1, -40), repeat=8) if any(w) and ntru.resultant(ntru.gram(list(w[:4]), list(w[4:])))]
        for lg in range(3, 11):
            for i in range(6 if q else 60):
                d = hashlib.shake_256(b"p14 gs %d %d" % (lg, i)).digest(2 << lg)
                cs.append(tuple((x % 13 - 6 if i % 3 else x - 128) for x in d))
        section(run, "Gram-Schmidt norm", split(cs, 16), gs)

    # whole key generation on scripted randomness
    def gen(data, logn, n=None):
        s = Stream(data)
        try:
            f, g, F, G = pyref.guarded(200, m.ntru_gen, n or 1 << logn, randombytes=s, logn=logn)
        except Ended:
            return -1, None, None, None, None
        return s.p, list(f), list(g), list(F), list(G)

    def judge(data, logn):
        used, f, g, F, G = gen(data, logn)
        n = 1 << logn
        if used >= 0:
            if [len(x) for x in (f, g, F, G)] != [n] * 4 or any(type(x) is not int for x in f + g + F + G):
                return "not four integer polynomials"
            e = [a - b for a, b in zip(ntru.mul(f, G), ntru.mul(g, F))]
            if e != [spec.Q] + [0] * (n - 1):
                return "fG - gF is not q"
            if spread(f, g, F, G) > 0.5 + 1e-6:
                return "F, G are not reduced"
            if max(map(abs, f + g)) >= ntru.FG_LIM[logn] or max(map(abs, F + G)) > 127:
                return "the key does not fit the key format (f, g up to %d, F, G up to %d)" % (max(map(abs, f + g)), max(map(abs, F + G)))
        sm, pos = samples(data), 0
        while True:
            a = draw(sm, pos, logn)
            b = a and draw(sm, a[1], logn)
            if not b:
                return None if used < 0 else "the key is not an acceptable candidate of its randomness"
            mf, mg, pos = a[0], b[0], b[1]
            w, close = ntru.judge(mf, mg)
            if used >= 0 and (f, g) == (mf, mg):
                return "a candidate the specification refuses (%s) was used" % w if w and not close else None if used == 16 * pos else "candidate ends at byte %d, %d were read" % (16 * pos, used)
            if w is None and not close:
                F, G = ntru.solve(mf, mg)
                if max(map(abs, F + G)) <= 127 - (2 * max(map(abs, mf + mg)) if logn > 5 else 1):
                    return "an acceptable candidate was passed over"
    spare = {}

    def fallback(logn):
        i = 0
        while logn not in spare:
            sm, pos = samples(hashlib.shake_256(b"c09 spare %d %d" % (logn, i)).digest(16 * 4096)), 0
            a = draw(sm, 0, logn)
            b = a and draw(sm, a[1], logn)
            i += 1
            if b and ntru.judge(a[0], b[0])[0] is None and max(map(abs, sum(ntru.solve(a[0], b[0]), []))) < 100:
                spare[logn] = a[0], b[0]
        return spare[logn]

    def streams(job):
        logn, ids = job
        for i in ids:
            yield "n%d:%d" % (1 << logn, i), judge(hashlib.shake_256(b"c09 %d %d %d" % (run.seed, logn, i)).digest(32768 * 100), logn), 1
    section(run, "streams", [(l, c) for l in range(10, 0, -1) for c in split(range((3 if l < 9 else 1) if q else 24), 8)], streams)

    def chosen(job):
        for logn, w, what in boundary(*job) if len(job) == 2 else [job]:
            n = 1 << logn
            a, b = fallback(logn)
            yield "n%d:%s" % (n, what), judge(encode(list(w), logn) + encode(a + b, logn), logn), 1

    def boundary(logn, part):
        """Candidates next to every condition: norm, orthogonal norm, zero slots, common factors, over-long F or G."""
        out = []
        if 1:
            n, L = 1 << logn, ntru.FG_LIM[logn]
            want = dict(norm=1, ortho=1, invertible=1 if n < 64 else 0, coprime=1, none=1, fat=1 if n < 16 else 0) if q else dict(norm=3, ortho=3, invertible=3, coprime=3, none=3, fat=2 if n < 256 else 0)
            i = 4000 * part
            while any(v > 0 for v in want.values()) and i < 4000 * part + 4000:
                sm = samples(hashlib.shake_256(b"p14 cand %d %d" % (logn, i)).digest(16 * 4096))
                i += 1
                a = draw(sm, 0, logn)
                b = a and draw(sm, a[1], logn)
                if not b or max(map(abs, a[0] + b[0])) > min(127, 26 << (10 - logn)):
                    continue
                f, g = a[0], b[0]
                if want["norm"] > 0 and abs(sum(x * x for x in f + g) - 16822) < 2500:
                    for target in (16822, 16824):
                        w, tot = f + g, sum(x * x for x in f + g)
                        for j in range(2 * n):
                            rest = tot - w[j] ** 2
                            x = min(range(w[j] % 2, L, 2), key=lambda x: abs(rest + x * x - target))
                            w[j], tot = x, rest + x * x
                            if tot == target:
                                r = ntru.judge(w[:n], w[n:])
                                if r[0] in (None, "norm"):
                                    out.append((logn, tuple(w), "norm %d:%d" % (target, i)))
                                    want["norm"] -= 1
                                break
                r, close = ntru.judge(f, g)
                if close or (r == "ortho" and abs(float(ntru.ortho(f, g)) - 16822) > (1500 if n > 2 else 4000)):
                    continue
                r = r or "none"
                if r == "none" and want["fat"] > 0 and max(map(abs, sum(ntru.solve(f, g), []))) > 127:
                    r = "fat"
                if want.get(r, 0) > 0 and (r != "norm"):
                    want[r] -= 1
                    out.append((logn, tuple(f + g), "%s:%d" % (r, i)))
            # one coefficient at the limit of the degree; one transform slot of f that vanishes
            slots, got, bases = set(), set(), 0
            while bases < (12 if q else 100) and i < 4000 * part + 8000:
                sm = samples(hashlib.shake_256(b"p14 base %d %d" % (logn, i)).digest(16 * 4096))
                i += 1
                a = draw(sm, 0, logn)
                b = a and draw(sm, a[1], logn)
                if not b or max(map(abs, a[0] + b[0])) > min(127, 26 << (10 - logn)) or ntru.judge(a[0], b[0], False)[0]:
                    continue
                bases += 1
                if len(slots) < min(n, 6 if q else 16):
                    for w, s in ntru.slot_cases(a[0], b[0]):
                        if s not in slots and (n < 128 or not q or s in (0, n - 1)):
                            slots.add(s)
                            out.append((logn, tuple(w), "slot %d" % s))
            bases, i = 0, 0
            while logn > 5 and (not q or logn in (6, 9)) and len(got) < 36 and bases < (6 if q else 40) and i < 6000:
                sm = samples(hashlib.shake_256(b"p14 limit %d %d %d" % (logn, part, i)).digest(16 * 4096))
                i += 1
                a = draw(sm, 0, logn)
                b = a and draw(sm, a[1], logn)
                if not b or max(map(abs, a[0] + b[0])) > 26 << (10 - logn) or sum(x * x for x in a[0] + b[0]) > ntru.NORM_MAX - L * L or ntru.judge(a[0], b[0], False)[0]:
                    continue
                bases += 1
                for w, s in ntru.range_cases(a[0], b[0], got):
                    if not q or (s.split()[0] in ("%d" % L, "%d" % -L) and s.split()[2] in ("0", "%d" % (2 * n - 1))):
                        out.append((logn, tuple(w), "limit " + s))
        return out
    js = [(logn, part) for logn in range(1, 10) for part in range(1 if q else 8)]
    for logn, w, s in ((9, 130, "big 9 107 8"), (9, 130, "big 9 422 12")):
        _, lg, i, t = s.split()
        sm, pos = samples(hashlib.shake_256(b"big %d %d" % (int(lg), int(i))).digest(32768 * 40)), 0
        for _ in range(int(t) + 1):
            a = draw(sm, pos, logn)
            b = draw(sm, a[1], logn)
            pos = b[1]
        js.append((logn, tuple(a[0] + b[0]), "fat:" + s.replace(" ", ".")))
    section(run, "boundary candidates", js[::-1], chosen)

    def refused(job):
        """Coefficients that must be drawn again: too large, or of the wrong parity at the end."""
        logn, spot = job
        f, g = fallback(logn)
        k, n, good = 1 << (10 - logn), 1 << logn, encode(f + g, logn)
        for bad in (128, -128, 129, 256, -257, 127, -127)[:4 if q else 7]:
            if abs(bad) <= 26 * k:
                t = good[:16 * k * spot] + encode([bad], logn) * (1 + bad % 2) + good[16 * k * spot:]
                yield "n%d:refuse %d at %d" % (n, bad, spot), judge(t + good * 2 if abs(bad) <= 127 else t, logn), 1
        if spot in (n - 1, 2 * n - 1):
            for d in (1, -1):
                t = good[:16 * k * spot] + encode([(f + g)[spot] + d], logn) * 2 + good[16 * k * spot:]
                got = gen(t, logn)
                yield "n%d:parity at %d" % (n, spot), None if got[:3] == (len(t), f, g) else "a last coefficient of even parity was not redrawn", 1
    section(run, "refused draws", [(l, s) for l in ((7, 4, 1) if q else range(9, 0, -1)) for s in {0, (1 << l) - 1, 1 << l, (2 << l) - 1}], refused)

    def thresholds(job):
        """Each edge of the coefficient table, on the sampler inside a whole generation."""
        logn = 10
        f, g = fallback(logn)
        for spot in job:
            c = (f + g)[spot]
            k = abs(c)
            t = encode(f + g, logn)
            edge = [(TOP - 1 | (TOP if c < 0 else 0), r) for r in ((T[k], (T[k - 1] if k > 1 else TOP) - 1) if k else ())] + ([(T[0] - 1, 5), (T[0] - 1 + TOP, TOP - 1)] if not k else [(T[0] | (TOP if c < 0 else 0), T[k] + 1)])
            for r0, r in edge:
                d = t[:16 * spot] + r0.to_bytes(8, "little") + r.to_bytes(8, "little") + t[16 * spot + 16:]
                used, of, og, F, G = gen(d, logn)
                yield "spot%d:%x:%x" % (spot, r0, r), None if (used, of, og) == (len(d), f, g) else "draw (%x, %x) is not %d" % (r0, r, c), 1
    if not q:
        f, g = fallback(10)
        first = {}
        for i, c in enumerate(f + g):
            first.setdefault(c, i)
        section(run, "table edges", split(first.values(), 8), thresholds)

    # the generator without logn: same conditions, its own sampler
    def native_style(job):
        n, i = job
        def st(k):
            st.p += 1
            return hashlib.shake_256(b"p14 own %d %d %d %d" % (run.seed, n, i, st.p)).digest(k)
        st.p = 0
        f, g, F, G = pyref.guarded(400, m.ntru_gen, n, randombytes=st)
        why = ntru.check_key(list(f), list(g), list(F), list(G))
        if why and "range" in why:
            why = None
        yield "n%d:%d" % (n, i), why or ("F, G are not reduced" if spread(list(f), list(g), list(F), list(G)) > 0.5 + 1e-6 else None), 1
    section(run, "own sampler", [(n, i) for n in (512, 256, 64, 16, 8, 4, 2) for i in range(1 if q else 8)], native_style)
    run.note(rule="a case is one operand pair, one candidate or one stream of randomness; solvable or acceptable candidates (by the exact integer model) are non-trivial")
