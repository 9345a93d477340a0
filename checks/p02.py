"""P02: Python signature compression is a bijection onto the accepted strings."""
import hashlib, itertools
from vf import pyref, spec

LEVEL = "exploration"


def split(seq, k=16):
    seq = list(seq)
    return [seq[i::k] for i in range(k) if seq[i::k]]


def main(run):
    enc = pyref.load(run, "encoding")
    q = run.quick

    def check_decode(b, slen, n):
        """None, or what is wrong with decoding b."""
        want = spec.decompress(b, n) if len(b) <= slen else None
        got, e = pyref.quiet(enc.decompress, bytes(b), slen, n)
        if e is not None:
            return "decoder raised %r" % e
        if want is None:
            return None if got is False else "string that encodes nothing decoded to %s" % str(got)[:60]
        if got is False or list(got) != want:
            return "decoded to %s instead of %s" % (str(got)[:60], str(want)[:60])
        return None

    def go(run, name, jobs, fn):
        def work(job):
            cases = nt = 0
            bad = []
            for key, why, nontrivial in fn(job):
                cases += 1
                nt += nontrivial
                if why and len(bad) < 3:
                    bad.append((key, why))
            return cases, nt, bad
        for out in run.pmap(work, jobs):
            if out is None:
                continue
            run.count("evaluations", out[0])
            run.count("distinct_nontrivial", out[1])
            for key, why in out[2]:
                run.fail("%s:%s" % (name, key), why)

    # every sequence of calls: no answer depends on an earlier call or on what a caller does with its result
    VS = [[0, 1], [-1, 127], [128, -128], [300, -5], [5000, 1]]
    OPS = [("c", v, l) for v in VS for l in (3, 8)] + [("d", x, l, n) for x in (spec.compress(VS[0], 4), spec.compress(VS[3], 8), b"\x80\x80", b"", spec.compress(VS[2], 8)) for l in (4, 8) for n in (1, 2)]

    def history(job):
        first, depth = job
        for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
            why = None
            for i, o in enumerate((first,) + rest):
                op = OPS[o]
                if op[0] == "c":
                    arg, w = list(op[1]), spec.compress(op[1], op[2])
                    got, e = pyref.quiet(enc.compress, arg, op[2])
                    if e is not None or (got is not False if w is None else got is False or bytes(got) != w) or arg != op[1]:
                        why = "call %d: compress(%s, %d) gives %r (%r)" % (i, op[1], op[2], got, e)
                        break
                else:
                    w = spec.decompress(op[1], op[3]) if len(op[1]) <= op[2] else None
                    got, e = pyref.quiet(enc.decompress, op[1], op[2], op[3])
                    if e is not None or (got is not False if w is None else got is False or list(got) != w):
                        why = "call %d: decompress(%s, %d, %d) gives %r (%r)" % (i, op[1].hex(), op[2], op[3], got, e)
                        break
                    if w is not None and isinstance(got, list):
                        got[0] += 1
                        got.append(7)
            yield "-".join(map(str, (first,) + rest)), why, 1
    run.section("call histories", lambda r: go(r, "history", [(o, 3 if q else 4) for o in range(len(OPS))], history))

    # every byte string of 0, 1, 2 (3) bytes, for 1 and 2 coefficients, in fields of several lengths
    def strings(job):
        ln, lo, hi, n, slen = job
        for v in range(lo, hi):
            b = v.to_bytes(ln, "big") if ln else b""
            yield "n%d:slen%d:%s" % (n, slen, b.hex()), check_decode(b, slen, n), spec.decompress(b, n) is not None
    js = []
    for n in (1, 2):
        js += [(0, 0, 1, n, s) for s in (0, 1, 2)] + [(1, 0, 256, n, s) for s in (0, 1, 2)]
        js += [(2, a, a + 4096, n, s) for a in range(0, 65536, 4096) for s in ((2, 3) if n == 1 else (2,))]
    if q:
        js += [(3, a, a + 8192, 2, 3) for a in range(0, 1 << 18, 8192)] + [(3, a, a + 1024, 2, 3) for a in range(1 << 18, 1 << 24, 1 << 18)]
    else:
        js += [(3, a, a + (1 << 16), n, 3) for a in range(0, 1 << 24, 1 << 16) for n in (1, 2)]
    run.section("all-short-strings", lambda r: go(r, "decode", js, strings))

    # every single value and every pair from a boundary set, at each position, with every buffer size around the needed one
    def values(job):
        n, vs = job
        for v in vs:
            for fill in (0, 1, -1, 127, -128):
                for pos in sorted({0, n // 2, n - 1}):
                    x = [fill] * n
                    x[pos] = v
                    need = (sum(9 + (abs(t) >> 7) for t in x) + 7) // 8
                    for slen in (need - 1, need, need + 1, need + 5):
                        want = spec.compress(x, slen)
                        got, e = pyref.quiet(enc.compress, list(x), slen)
                        why = None
                        if e is not None:
                            why = "encoder raised %r" % e
                        elif want is None:
                            why = None if got is False else "encoder wrote %d bytes into a field of %d" % (len(got), slen)
                        elif got is False or bytes(got) != want:
                            why = "encoding differs from the specification"
                        if why is None and want is not None:
                            why = check_decode(want, slen, n)
                            if why is None and spec.decompress(want, n) != x:
                                why = "oracle"
                        yield "n%d:%d@%d:fill%d:slen%d" % (n, v, pos, fill, slen), why, want is not None
    big = [0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 6144, 6145, 12288]
    js = [(1, list(range(a, min(a + 300, 6200)))) for a in range(-6200, 6200, 300)] if not q else [(1, list(range(a, a + 100))) for a in range(-2600, 2600, 100)]
    js += [(n, [s * v for v in big for s in (1, -1)]) for n in (2, 4, 16, 64)]
    run.section("values", lambda r: go(r, "value", js, values))

    # vectors that fill the field of the signature format exactly, or miss it by a bit or two on either side
    def full(job):
        n, k = job
        slen = spec.SIGLEN[n] - 41
        for delta in range(-9, 10):
            extra = 8 * slen + delta - 9 * n
            for shape in range(3):
                x = [(i * 37 + k) % 255 - 127 for i in range(n)]
                pos = [range(n), range(n - 1, -1, -1), range(n // 2, n)][shape]
                left, i = extra, 0
                while left > 0:
                    t = min(left, 14, max(1, extra // n + 1) if shape < 2 else 14)
                    if i >= len(pos):
                        break
                    j = pos[i]
                    x[j] = (128 * t + (abs(x[j]) % 128)) * (1 if x[j] >= 0 else -1)
                    left -= t
                    i += 1
                if left:
                    continue
                want = spec.compress(x, slen)
                got, e = pyref.quiet(enc.compress, list(x), slen)
                why = "encoder raised %r" % e if e is not None else None
                if why is None and want is None:
                    why = None if got is False else "encoder wrote a vector of %d bits into a field of %d" % (8 * slen + delta, 8 * slen)
                elif why is None and (got is False or bytes(got) != want):
                    why = "encoding differs from the specification"
                if why is None and want is not None:
                    why = check_decode(want, slen, n)
                yield "n%d:%d:%+d:shape%d" % (n, k, delta, shape), why, want is not None
    run.section("full fields", lambda r: go(r, "full", [(n, k) for n in spec.SIGLEN for k in range(2 if q else 12)], full))

    # degree 512 and 1024: honest-looking vectors with every single-bit fault and every truncation and extension
    def faults(job):
        n, k, lo, hi, mode = job
        slen = spec.SIGLEN[n] - 41
        st = hashlib.shake_256(b"p02%d%d%d" % (run.seed, n, k)).digest(2 * n)
        x = [int.from_bytes(st[2 * i:2 * i + 2], "big") % 400 - 199 for i in range(n)]
        b = spec.compress(x, slen)
        assert b is not None
        for i in range(lo, hi):
            if mode == "flip":
                y = bytearray(b)
                y[i // 8] ^= 0x80 >> (i % 8)
            elif mode == "cut":
                y = b[:i] if i <= len(b) else b + bytes(i - len(b))
            else:
                y = b.rstrip(b"\0")
                y = y + bytes(max(0, i - len(y))) + b"\x01"
            y = bytes(y)
            why = check_decode(y, slen, n)
            if why is None:
                v = spec.decompress(y, n) if len(y) <= slen else None
                if v is not None:
                    got, e = pyref.quiet(enc.compress, v, slen)
                    if e or got is False or bytes(got) != y + bytes(slen - len(y)):
                        why = "accepted string is not the encoding of its value"
            yield "n%d:k%d:%s:%d" % (n, k, mode, i), why, 1
    js = []
    for n in (2, 8, 64, 128, 512, 1024) if q else (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024):
        slen = spec.SIGLEN[n] - 41
        for k in range(1 if q else 3):
            # faults over the occupied bits and the padding
            step = max(64, slen * 8 // 12)
            js += [(n, k, a, min(slen * 8, a + step), "flip") for a in range(0, slen * 8, step)]
            js += [(n, k, 0, slen + 20, "cut"), (n, k, slen * 2 // 3, slen, "tail")]
    run.section("faults", lambda r: go(r, "fault", js, faults))

    def d16(job):
        (a, b) = job
        for v in range(a, b):
            for pre in (b"", b"\x12\x34"):
                x = pre + v.to_bytes(2, "big")
                got, e = pyref.quiet(enc.decode16, x, len(x) // 2)
                want = [int.from_bytes(x[i:i + 2], "big") for i in range(0, len(x), 2)]
                yield "d16:%s" % x.hex(), None if e is None and list(got) == want else "16-bit words of %s read as %s" % (x.hex(), got), 1
        for ln in (1, 3, 5):
            yield "d16:odd%d" % ln, None if pyref.quiet(enc.decode16, bytes(ln), ln)[1] is not None else "odd length accepted", 1
    run.section("16-bit words", lambda r: go(r, "decode16", [(a, a + 4096) for a in range(0, 65536, 4096)], d16))
    run.sample({"n": 2, "string": "000301", "verdict": "rejected: -0"})
    run.note(rule="a case is one byte string decoded, or one vector encoded into a field of a given size; non-trivial when the string encodes a vector (decode sections) or the vector fits (value section)")
