"""P03: the Python verifiers accept exactly what the specification accepts, and answer on every input."""
import hashlib, itertools, math
from vf import pyref, spec
from vf.cases import section, split

LEVEL = "exploration"


def squares(t, k, cap=6000):
    """k integers whose squares sum to t (greedy then Lagrange on the rest)."""
    out = []
    while t > 0 and len(out) < k - 4:
        a = min(cap, math.isqrt(t))
        if len(out) >= 2 and t < 4000:
            break
        out.append(a)
        t -= a * a
    for a in range(math.isqrt(t), -1, -1):
        for b in range(math.isqrt(t - a * a), -1, -1):
            r = t - a * a - b * b
            for c in range(math.isqrt(r), -1, -1):
                d = math.isqrt(r - c * c)
                if d * d == r - c * c:
                    out += [a, b, c, d]
                    return (out + [0] * k)[:k] if len(out) <= k else None
                if c * c * 2 < r:
                    break
    return None


def main(run):
    falcon, prng, shake, ni, nr = pyref.load(run, "falcon", "keccak_prng", "shake", "polyntt.ntt_iterative", "polyntt.ntt_recursive")
    q = run.quick
    XOF = {"keccak": (prng.KeccakPRNG, spec.keccak_stream), "shake": (shake.SHAKE, spec.shake_stream)}
    pyref.fast_keccak(run)

    def want(n, h, msg, sig, stream):
        if sig[:1] not in (bytes([0x20 + spec.LOGN[n]]), bytes([0x30 + spec.LOGN[n]])):
            return False
        return spec.verify(n, h, msg, sig, stream)

    def judge(n, h, msg, sig, x, backend=None, pk=None):
        cls, stream = XOF[x]
        kw = {"ntt": backend} if backend else {}
        got, e = pyref.quiet((pk or falcon.PublicKey(n, list(h))).verify, msg, sig, xof=cls, **kw)
        w = want(n, h, msg, sig, stream)
        # 0: nothing to decide, 1: decodes and is rejected, 2: accepted
        cls_ = 2 if w else int(len(sig) >= 41 and spec.decompress(sig[41:], n) is not None)
        if e is not None:
            return "verifier raised %r (specification says %s)" % (e, w), cls_
        if not isinstance(got, bool):
            return "verifier answered %r" % (got,), cls_
        if got != w:
            return "verifier says %s, specification says %s" % (got, w), cls_
        return None, cls_

    base = {}

    def sample(n, x, k=0):
        if (n, x, k) not in base:
            f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
            sk = falcon.SecretKey(n, [f, g, F, G])
            rng = shake.SHAKE.new(b"p03%d%s%d" % (run.seed, x.encode(), k))
            rng.flip()
            msg = hashlib.sha256(b"m%d" % k).digest()[:20 + k]
            sig, e = pyref.quiet(pyref.guarded, 20, sk.sign, msg, randombytes=rng.read, xof=XOF[x][0])
            if e is not None:
                run.fail("sign:%d:%s" % (n, x), "signing failed: %r" % e)
                raise pyref.LoadFailed("sign")
            # h from the specification, not from the code: h*f = g
            fi, gi = spec.ntt(f), spec.ntt(g)
            hn = [a * pow(b, -1, spec.Q) % spec.Q for a, b in zip(gi, fi)]
            if spec.ntt(sk.h) != hn:
                run.fail("public:%d" % n, "public key is not g/f for degree %d" % n)
            base[n, x, k] = (sk.h, msg, sig)
        return base[n, x, k]

    NS = (8, 64, 512, 1024) if q else (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)
    for n in NS:
        for x in XOF:
            sample(n, x)

    def alter(job):
        n, x, kind, lo, hi = job
        h, msg, sig = sample(n, x)
        pk = falcon.PublicKey(n, list(h))
        for i in range(lo, hi):
            m, s, key = msg, sig, None
            if kind == "bit":
                b = bytearray(sig)
                b[i // 8] ^= 1 << (i % 8)
                s = bytes(b)
            elif kind == "byte0":
                s = bytes([i]) + sig[1:]
            elif kind == "length":
                s = sig[:i] if i <= len(sig) else sig + bytes(i - len(sig))
            elif kind == "strip":
                t = sig.rstrip(b"\0")
                s = t + bytes(i)
            elif kind == "tail":
                s = sig[:-1 - i] + b"\x01" + bytes(i) if i < 300 else sig + bytes(i - 300) + b"\x80"
            elif kind == "msgbit":
                b = bytearray(msg)
                b[i // 8] ^= 1 << (i % 8)
                m = bytes(b)
            elif kind == "msglen":
                m = (msg + bytes(64))[:i]
            elif kind == "fill":
                s = sig[:41] + bytes([i]) * (len(sig) - 41)
            elif kind == "pk":
                hh = list(h)
                hh[i] = (hh[i] + (1 if i % 2 else spec.Q - 1)) % spec.Q
                why, w = judge(n, hh, msg, sig, x)
                yield "n%d:%s:%s:%d" % (n, x, kind, i), why, w
                continue
            why, w = judge(n, h, m, s, x, pk=pk)
            yield "n%d:%s:%s:%d" % (n, x, kind, i), why, w

    js = []
    for n in NS:
        for x in XOF:
            h, msg, sig = sample(n, x)
            L = 8 * len(sig)
            st = max(L // 16, 32)
            bits = [(a, min(a + st, L)) for a in range(0, L, st)]
            if q and n == 512 and x == "shake":
                bits = bits[:2] + bits[-2:]
            js += [(n, x, "bit", a, b) for a, b in bits]
            js += [(n, x, "byte0", 0, 256), (n, x, "msgbit", 0, 8 * len(msg)), (n, x, "msglen", 0, len(msg) + 20),
                   (n, x, "strip", 0, 40), (n, x, "tail", 0, 12), (n, x, "tail", 300, 312), (n, x, "fill", 0, 256)]
            js += [(n, x, "length", a, min(a + 100, len(sig) + 60)) for a in range(0, len(sig) + 60, 100)]
            pst = n // 4 if n >= 16 else n
            js += [(n, x, "pk", a, a + pst if not q or n < 512 else a + 12) for a in range(0, n, pst)]
    section(run, "alterations", js, alter)

    def kinds(job):
        """Byte strings and byte arrays as message and signature: the same verdict, both left as they were; one public key object for all calls."""
        n, x = job
        h, msg, sig = sample(n, x)
        pk = falcon.PublicKey(n, list(h))
        flip = lambda b, i: b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
        for tag, m, s in (("honest", msg, sig), ("message", flip(msg, 3), sig), ("salt", msg, flip(sig, 5)), ("head", msg, flip(sig, 0)), ("body", msg, flip(sig, 41)), ("cut", msg, sig[:-1]), ("long", msg, sig + b"\0"), ("empty", msg, b""), ("empty message", b"", sig)):
            for km in (bytes, bytearray):
                for ks in (bytes, bytearray):
                    for b in (ni.NTTIterative, nr.NTTRecursive):
                        am, as_ = km(m), ks(s)
                        why, c = judge(n, h, am, as_, x, backend=b, pk=pk)
                        if am != m or as_ != s or list(pk.pk) != list(h):
                            why = why or "verification changed its arguments"
                        yield "n%d:%s:%s:%s:%s:%s" % (n, x, tag, km.__name__, ks.__name__, b.__name__), why, c
    section(run, "kinds of byte strings", [(n, x) for n in NS for x in XOF], kinds)

    def pairs(job):
        """Every two-bit change of the smallest signatures."""
        n, x, lo, hi = job
        h, msg, sig = sample(n, x)
        pk = falcon.PublicKey(n, list(h))
        L = 8 * len(sig)
        for i in range(lo, hi):
            for j in range(max(i + 1, 328), L):
                b = bytearray(sig)
                b[i // 8] ^= 0x80 >> (i % 8)
                b[j // 8] ^= 0x80 >> (j % 8)
                why, w = judge(n, h, msg, bytes(b), x, pk=pk)
                yield "n%d:%s:two:%d,%d" % (n, x, i, j), why, w
    js = []
    for n in ((2, 8) if q else (2, 4, 8, 16)):
        for x in (XOF):
            L = 8 * len(sample(n, x)[2])
            js += [(n, x, a, min(a + 12, L)) for a in range(0 if not q else 320, L, 12)]
    section(run, "two-bit", js, pairs)

    def short(job):
        """Every signature body of three bytes for degree 2 (quick: with one of six first bytes), and every short total length."""
        n, x, lo, hi = job
        f, g, F, G = pyref.keys(run, n)[run.seed % 12]
        h = sample(8, x)[0][:n]
        pk = falcon.PublicKey(n, list(h))
        for v in range(lo, hi):
            s = bytes([0x20 + spec.LOGN[n]]) + bytes(40) + v.to_bytes(3, "big")
            if v < 42:
                why, w = judge(n, h, b"x", s[:v], x, pk=pk)
                yield "n%d:%s:total%d" % (n, x, v), why, w
            why, w = judge(n, h, b"x", s, x, pk=pk)
            yield "n%d:%s:body%x" % (n, x, v), why, w
    js = [(2, "keccak", a << 16 | b, (a << 16 | b) + 4096) for a in ((0, 1, 0x7f, 0x80, 0x81, 0xff) if q else range(256)) for b in range(0, 65536, 4096)] + [(2, "shake", 0, 64)]
    section(run, "short-bodies", js, short)

    def bound(job):
        """Keys forged so that an arbitrary short pair (s0, s1) verifies: the norm decides at exactly the bound, for every shape of s1."""
        n, x, shape, d = job
        B = spec.BOUND[n]
        for msg in (b"", b"bound"):
            salt = hashlib.shake_256(b"s%d%s%d" % (n, shape.encode(), run.seed)).digest(40)
            c = spec.h2p(n, salt + msg, XOF[x][1])
            for pos in sorted({0, 1, n // 2, n - 1}):
                for a in {"one": (1, -1), "big": (127, -128, 1000, 2047), "huge": (2048, 3000, -4000, 5000, 6144, -6144, 6145, 12000)}[shape]:
                    if a * a > B:
                        continue
                    s1 = [0] * n
                    s1[pos] = a
                    sq = squares(B + d - a * a, n, 6144 if n == 1024 else 6000)
                    if sq is None:
                        continue
                    for rot in (0, n // 2 + 1):
                        s0 = [sq[(i - rot) % n] * (-1 if ((i * 7 + rot) % 3 == 0) == (rot == 0) else 1) for i in range(n)]
                        # h = (c - s0) / (a X^pos)
                        ai = pow(a % spec.Q, -1, spec.Q)
                        t = [(x_ - y) * ai % spec.Q for x_, y in zip(c, s0)]
                        h = [(t[i + pos] if i + pos < n else -t[i + pos - n]) % spec.Q for i in range(n)]
                        enc = spec.compress(s1, spec.SIGLEN[n] - 41)
                        if enc is None:
                            continue
                        sig = bytes([0x30 + spec.LOGN[n]]) + salt + enc
                        for be in (ni.NTTIterative, nr.NTTRecursive):
                            why, w = judge(n, h, msg, sig, x, backend=be)
                            if (w == 2) != (d <= 0):
                                why = why or "oracle"
                            yield "n%d:%s:%s:%d@%d:bound%+d:rot%d" % (n, x, shape, a, pos, d, rot), why, w
    js = [(n, x, sh, d) for n in ((2, 4, 8, 16, 64, 512, 1024) if q else spec.BOUND) for x in (XOF if not q or n < 1024 else ("keccak",)) for sh in ("one", "big", "huge") for d in (-1, 0, 1, 2)]
    section(run, "norm-bound", js, bound)

    def hashes(job):
        """A signature made for one hash function never verifies under the other."""
        n, x = job
        h, msg, sig = sample(n, x)
        for y in XOF:
            why, w = judge(n, h, msg, sig, y)
            yield "n%d:%s-as-%s" % (n, x, y), why, w
        for m in range(2, 11):
            if 1 << m != n:
                why, w = judge(1 << m, (h * 1024)[:1 << m], msg, sig, x)
                yield "n%d:%s-at-%d" % (n, x, 1 << m), why, w
    section(run, "cross", [(n, x) for n in NS for x in XOF], hashes)
    def histories(job):
        """Every sequence of calls on two live keys: an answer depends on no earlier call."""
        n, first, depth = job
        ha, ma, sa = sample(n, "keccak", 0)
        hb, mb, sb = sample(n, "shake", 1)
        tamper = sa[:-1] + bytes([sa[-1] ^ 1])
        resalt = sa[:20] + bytes([sa[20] ^ 1]) + sa[21:]
        calls = [(0, ma, sa, "keccak"), (1, ma, sa, "keccak"), (0, mb, sa, "keccak"), (0, ma, tamper, "keccak"), (0, ma, resalt, "keccak"), (0, ma, sa, "shake"), (1, mb, sb, "shake"), (0, mb, sb, "shake"), (1, mb, sb[:-1], "shake"), (0, ma, sa[:30], "keccak")]
        hs = (ha, hb)
        wants = [want(n, hs[k], m, s, XOF[x][1]) for k, m, s, x in calls]
        backs = (ni.NTTIterative, nr.NTTRecursive)
        for rest in itertools.product(range(len(calls)), repeat=depth - 1):
            pks, why = [falcon.PublicKey(n, list(h)) for h in hs], None
            for i, c in enumerate((first,) + rest):
                k, m, s, x = calls[c]
                got, e = pyref.quiet(pks[k].verify, m, s, xof=XOF[x][0], ntt=backs[i & 1])
                if e is not None or got is not wants[c]:
                    why = "call %d of the sequence answers %r (%r), the specification says %s" % (i, got, e, wants[c])
                    break
            if why is None and any(list(pk.pk) != list(h) for pk, h in zip(pks, hs)):
                why = "a key was changed by verifying"
            yield "n%d:%s" % (n, "-".join(map(str, (first,) + rest))), why, 2
    section(run, "call histories", [(n, c, d) for n, d in (((8, 3), (64, 2)) if q else ((8, 4), (64, 3), (512, 2))) for c in range(10)], histories)
    run.sample({"case": "n=512 signature with bit i flipped, every i", "oracle": "spec.verify"})
    run.note(rule="a case is one (key, message, signature) triple judged by code and specification; non-trivial when the signature body decodes, so that the hash and norm decide")
