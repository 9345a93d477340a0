"""C14: the native signers release exactly what the lattice sampler gave, for every sequence of candidates, private key and randomness."""
import ctypes as C, hashlib, itertools
from vf import cbuild, chain, native, spec
from vf.cases import section, split

LEVEL = "exploration"
Q = spec.Q
CAP = {0: 690, 1: 1067, 2: 2094}      # size advertised for an empty message
NAME = {0: "falcon", 1: "zknox", 2: "epervier"}
ROOT = [int(x) for x in chain.X]


def small(i, amp=100):
    d = hashlib.shake_256(b"c14 %d" % i).digest(512)
    return [int(x) % (2 * amp + 1) - amp for x in d]


def value_at(v, k):
    x, r = ROOT[k], 0
    for c in reversed(v):
        r = (r * x + c) % Q
    return r


def singular(i, ks):
    """Small-ish vector whose transform is zero in the slots ks (and normally in no other)."""
    v = small(i)
    if len(ks) == 1:
        v[0] = spec.center(v[0] - value_at(v, ks[0]))
        return v
    t = chain.ntt(v)
    for k in ks:
        t[k] = 0
    return [int(x) for x in chain.cmod(chain.intt(t))]


def invertible(v):
    return not (chain.ntt(v) == 0).any()


def unit_hint(v):
    p = 1
    for x in chain.ntt(v):
        p = p * int(x) % Q
    return pow(p, -1, Q)


def be16(v):
    return b"".join((x % Q).to_bytes(2, "big") for x in v)


def compress(v):
    s = "".join(("1" if x < 0 else "0") + format(abs(x) & 127, "07b") + "0" * (abs(x) >> 7) + "1" for x in v)
    s += "0" * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def esig(scheme, s1, s2):
    """Expected signature part, or None when the candidate has no encoding."""
    if scheme == 0:
        if max(map(abs, s2)) > 2047:
            return None
        b = compress(s2)
        return b"\x29" + b if len(b) <= 647 else None
    if scheme == 1:
        return b"\x29" + be16(s2)
    return b"\x29" + be16(s1) + b"\x29" + be16(s2) + unit_hint(s2).to_bytes(2, "big")


def trim(v, bits):
    s = "".join(format(x & ((1 << bits) - 1), "0%db" % bits) for x in v)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def untrim(b, bits):
    s = "".join(format(x, "08b") for x in b)
    out = []
    for i in range(512):
        x = int(s[i * bits:(i + 1) * bits], 2)
        x -= (x >> (bits - 1)) << bits
        if x == -(1 << (bits - 1)):
            return None
        out.append(x)
    return out


def private(b):
    """(f, g, F, G) of an acceptable private key, else None."""
    if b[0] != 0x59:
        return None
    f, g, F = untrim(b[1:385], 6), untrim(b[385:769], 6), untrim(b[769:1281], 8)
    if f is None or g is None or F is None:
        return None
    d = chain.ntt(f)
    if (d == 0).any():
        return None
    G = [int(x) for x in chain.cmod(chain.intt(chain.ntt(g) * chain.ntt(F) % Q * chain.inv(d) % Q))]
    return (f, g, F, G) if max(map(abs, G)) <= 127 else None


def main(run):
    q = run.quick
    bl = cbuild.Lib(run)
    weak = ("falcon_inner_sign_dyn", "randombytes")
    libs = [C.CDLL(bl.build(t, harness=("sign_h.c",), eth=e, weak=weak)) for t, e in (("sg-shake", False), ("sg-keccak", True))]
    kb = native.both(run)[0]
    keys = {}

    def key(k):
        if k not in keys:
            r, pk, sk = kb.keypair(0, native.seed48("c14", run.seed, k))
            keys[k] = (pk, sk, private(sk))
        return keys[k]
    for k in range(3):
        if key(k)[2] is None:       # key generation is judged by C09; use any key that can be read
            run.fail("key %d" % k, "a generated private key is refused by an independent reading of the format")
            return

    def sign(lib, scheme, m, sk, cands, rnd):
        n = C.c_ulonglong(0x1234567)
        cap = CAP[scheme] + len(m)
        buf = C.create_string_buffer(cap + 64)
        flat = [x for s1, s2 in cands for x in list(s1) + list(s2)]
        used = C.c_long()
        r = lib.s_sign(scheme, buf, C.c_ulonglong(cap), C.byref(n), m, C.c_ulonglong(len(m)), sk, (C.c_int16 * len(flat))(*flat), len(cands), rnd, len(rnd), C.byref(used))
        return r, buf.raw[:min(n.value, cap + 64)] if r == 0 else None, used.value

    def arr(lib, name, t):
        return list((t * 512).in_dll(lib, name))

    def judge(lv, scheme, m, sk, cands, tag, priv=0):
        """None or what is wrong."""
        lib = libs[lv]
        rnd = hashlib.shake_256(b"rnd" + repr(tag).encode()).digest(200)
        r, sm, used = sign(lib, scheme, m, sk, cands, rnd)
        over, calls = (C.c_int.in_dll(lib, x).value for x in ("s_over", "s_calls"))
        if over & 16:
            return "bytes after the signed message were written"
        if r == -99:
            return "the signer keeps asking for candidates"
        p = private(sk) if priv == 0 else priv
        if p is None:
            return "a private key that is not a valid encoding was accepted (result %d)" % r if r == 0 else None
        if r != 0 and calls == 0:
            return "refused a valid private key (result %d)" % r
        if over & 2 or (r == 0 and used != 88):
            return "%d random bytes requested, specified 40 for the nonce and 48 for the seed" % used
        if over & 4:
            return "the sampler was called for another degree"
        if not C.c_int.in_dll(lib, "s_same").value:
            return "a further attempt used another key, another point or the same generator state"
        for nm, want in zip("fgFG", p):
            if arr(lib, "s_" + nm, C.c_int8) != want:
                return "the sampler was given another %s than the private key holds" % nm
        nonce, seed = rnd[:40], rnd[40:88]
        kind = "keccak" if lv and scheme != 2 else "shake"
        if arr(lib, "s_hm", C.c_uint16) != spec.h2p(512, nonce + m, spec.STREAMS[kind]):
            return "the signed point is not the hash of nonce and message"
        if bytes((C.c_uint8 * 64).in_dll(lib, "s_rng")) != hashlib.shake_256(seed).digest(64):
            return "the sampler's generator is not SHAKE256 of the fresh seed"
        i = 0
        if scheme == 2:
            while i < len(cands) - 1 and not invertible(cands[i][1]):
                i += 1
        if calls != i + 1:
            return "%d attempts were made where attempt %d is the first usable one" % (calls, i + 1)
        e = esig(scheme, *cands[i])
        if e is None:
            return None if r != 0 else "released a candidate that has no encoding"
        want = len(e).to_bytes(2, "big") + nonce + m + e
        if r != 0:
            return "refused a usable candidate (result %d)" % r
        if sm != want:
            d = next((j for j in range(min(len(sm), len(want))) if sm[j] != want[j]), min(len(sm), len(want)))
            return "signed message of %d bytes differs from the specified %d bytes at byte %d (message at 42..%d)" % (len(sm), len(want), d, 42 + len(m))
        return None

    combos = [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2), (1, 2)]
    good = (small(900), small(901))
    assert invertible(good[1])

    # ---- values of one coefficient at several places
    def values(job):
        lv, sc, vals = job
        lim = 6144 if sc else 2048
        for pos in (0, 255, 511) if q else (0, 1, 7, 8, 254, 255, 256, 510, 511):
            for v in vals:
                if abs(v) > lim:
                    continue
                s1, s2 = list(good[0]), list(good[1])
                s2[pos] = v
                s1[pos] = -v
                if sc == 2 and not invertible(s2):
                    continue
                yield "%s-%d place %d value %d" % (NAME[sc], lv, pos, v), judge(lv, sc, b"m", key(0)[1], [(s1, s2)], (pos, v)), True
    sp = sorted({s * (b + d) for s in (1, -1) for b in (0, 1, 64, 127, 128, 255, 256, 383, 511, 1023, 1024, 1535, 1920, 2046, 2047, 2048, 2049, 3071, 4095, 4096, 5000, 6142, 6143, 6144) for d in (-1, 0, 1)} )
    section(run, "coefficient values", [(lv, sc, s) for lv, sc in combos for s in split(sp if q else range(-6144, 6145), 2 if q else 16)], values)

    # ---- compressed size around the limit
    def sizes(job):
        lv, ks = job
        for k in ks:
            # 512 coefficients of at least 9 bits each: `ones` of them carry extra unary bits so that the total is 8*647+k bits
            extra = 8 * 647 + k - 512 * 9
            v = [1] * 512
            i = 0
            while extra:
                e = min(15, extra)
                v[(i * 37) % 512] += 128 * e * (-1) ** i if i % 2 == 0 else -2 - 128 * e
                extra -= e
                i += 1
            assert len("".join("x" * (9 + (abs(x) >> 7)) for x in v)) == 8 * 647 + k
            yield "falcon-%d %d bits past the limit" % (lv, k), judge(lv, 0, b"", key(0)[1], [(good[0], v)], k), True
    section(run, "compressed size around the limit", [(lv, s) for lv in (0, 1) for s in split(range(-24, 40) if q else range(-568, 200), 2)], sizes)

    # ---- candidates without inverse, in every slot
    def slots(job):
        lv, ks = job
        for k in ks:
            bad = (small(k + 2000), singular(k, [k]))
            if invertible(bad[1]):
                continue
            yield "epervier-%d zero in slot %d" % (lv, k), judge(lv, 2, b"abc", key(0)[1], [bad, good], k), True
    section(run, "every slot without inverse", [(lv, s) for lv in (0, 1) for s in split(range(0, 512, 1), 8)], slots)

    def patterns(job):
        lv, sc, pats = job
        bad = [(small(3000), [0] * 512), (small(3001), singular(7, [0, 511])), (small(3002), singular(8, [3])), (small(3003), singular(9, range(512 - 5, 512)))]
        for p in pats:
            c = [bad[i] for i in p] + [good, (small(3100), small(3101))]
            if sc != 2:
                c = c[-2:]
            yield "%s-%d attempts %s" % (NAME[sc], lv, p), judge(lv, sc, b"abc", key(0)[1], c, p), True
    dp = [p for k in range(0, 3 if q else 5) for p in itertools.product(range(4), repeat=k)]
    section(run, "every pattern of unusable candidates", [(lv, 2, s) for lv in (0, 1) for s in split(dp, 4)] + [(lv, sc, [()]) for lv in (0, 1) for sc in (0, 1)], patterns)

    # ---- messages
    def messages(job):
        lv, sc, ls = job
        for n in ls:
            yield "%s-%d message of %d bytes" % (NAME[sc], lv, n), judge(lv, sc, spec.shake_stream(b"m%d" % n, n), key(1)[1], [good], n), True
    lens = list(range(0, 100)) + [127, 128, 135, 136, 137, 255, 256, 511, 512, 1023, 1024, 2048, 4000, 4055, 4056, 4057, 5000, 65535, 65536, 70000] if q else list(range(0, 1500)) + [4055, 4056, 4057, 65535, 65536, 65537, 200000]
    section(run, "messages of every length", [(lv, sc, s) for lv, sc in combos for s in split(lens, 4)], messages)

    # ---- private keys
    def flips(job):
        lv, sc, bits = job
        sk0 = key(2)[1]
        for b in bits:
            sk = bytearray(sk0)
            sk[b >> 3] ^= 0x80 >> (b & 7)
            yield "%s-%d private key bit %d" % (NAME[sc], lv, b), judge(lv, sc, b"k", bytes(sk), [good], b), True
    bits = list(range(8)) + list(range(8, 1281 * 8, 23)) if q else range(1281 * 8)
    section(run, "every bit of the private key", [(lv, sc, s) for lv, sc in ((0, 0), (1, 1), (0, 2)) for s in split(bits, 8)], flips)

    def forged(job):
        lv, sc, which = job
        f, g, F, G = key(2)[2]
        n = 512

        def shift(p, k, s):
            k %= 1024
            r = [0] * n
            for i, x in enumerate(p):
                j = (i + k) % 1024
                r[j % n] = s * (x if j < n else -x)
            return r

        def enc(f, g, F):
            return b"\x59" + trim(f, 6) + trim(g, 6) + trim(F, 8)
        rows = []
        if which == "basis":       # F + x^k f, G + x^k g: another basis of the same lattice
            for k in range(0, 1024, 16 if q else 1):
                rows.append(("F + x^%d f" % k, enc(f, g, [a + b for a, b in zip(F, shift(f, k, 1))])))
        elif which == "rotated":   # x^k (f, g) with the matching F
            for k in range(0, 1024, 16 if q else 1):
                rows.append(("x^%d f" % k, enc(shift(f, k, 1), shift(g, k, 1), shift(F, -k, 1))))
        elif which == "reserved":
            for i in range(0, n, 8 if q else 1):
                for w, p in enumerate((f, g)):
                    v = list(p)
                    v[i] = -32
                    rows.append(("reserved value at %s[%d]" % ("fg"[w], i), enc(*((v, g) if w == 0 else (f, v)), F)))
                v = list(F)
                v[i] = -128
                rows.append(("reserved value at F[%d]" % i, enc(f, g, v)))
        elif which == "header":
            for h in range(256):
                rows.append(("header %d" % h, bytes([h]) + key(2)[1][1:]))
        elif which == "singular":  # f without inverse: an NTT slot is zero
            for k in range(0, n, 16 if q else 1):
                x, y = ROOT[k], None
                # search small f with f(x) = 0: combine two monomials with coefficients within -31..31
                for j in range(1, n):
                    p = pow(x, j, Q)
                    y = next(((a, b) for a in range(1, 32) for b in (spec.center(-a * pow(p, -1, Q)),) if abs(b) < 32), None)
                    if y:
                        v = [0] * n
                        v[0], v[j] = y
                        rows.append(("f without inverse in slot %d" % k, enc(v, g, F)))
                        rows.append(("zero g, f without inverse in slot %d" % k, enc(v, [0] * n, [0] * n)))
                        break
            rows.append(("zero f", enc([0] * n, g, F)))
            rows.append(("zero g and F", enc(f, [0] * n, [0] * n)))
        elif which == "G":         # G made 126, 127, 128 or -127, -128 at one place: F = 1, f = x^j, g chosen
            for val in (30, 31):
                for F0 in (1, 4, -4, 5):
                    for j in (0, 1, 255, 511):
                        f1, g1, F1 = [0] * n, [0] * n, [0] * n
                        f1[j] = 1
                        g1[3], F1[2] = val, F0
                        rows.append(("f = x^%d, g = %d x^3, F = %d x^2" % (j, val, F0), enc(f1, g1, F1)))
            for a, b in ((1, 126), (1, 127), (-1, 127), (-1, 126), (2, 64), (2, 63), (-2, 64), (4, 32), (8, 16), (16, 8), (-16, 8), (31, 5), (31, 4), (3, 43), (3, 42)):
                for j in (0, 1, 511) if q else range(0, 512, 5):
                    f1, g1, F1 = [0] * n, [0] * n, [0] * n
                    f1[j] = -1
                    g1[0], F1[0] = a, b
                    rows.append(("f = -x^%d, g = %d, F = %d" % (j, a, b), enc(f1, g1, F1)))
        for nm, sk in rows:
            p = private(sk)
            yield "%s-%d key %s" % (NAME[sc], lv, nm), judge(lv, sc, b"k", sk, [good], nm, priv=p), True
    section(run, "private keys of every kind", [(lv, sc, w) for lv, sc in ((0, 0), (1, 1), (0, 2)) for w in ("basis", "rotated", "reserved", "header", "singular", "G")], forged)

    # ---- hint
    def hints(job):
        logn, what = job
        n = 1 << logn
        lib = libs[0]
        h, z = C.c_int(), C.c_int()
        if what == "all":
            vs = ([a] for a in range(-6144, 6145)) if n == 1 else None
            edge = sorted({s * x for s in (1, -1) for x in list(range(0, 24)) + [127, 128, 1000, 1479, 2047, 2048, 4091, 4096, 6143, 6144]} | set(range(-6144, 6145, 173)))
            vs = ((a, b) for a in edge for b in edge)
        elif what == "basis":
            vs = ([0] * i + [v] + [0] * (n - 1 - i) for i in range(n) for v in (1, -1, 6144, -6144, 2047))
        elif what == "dense":
            vs = ([hashlib.shake_256(b"%d %d" % (j, i)).digest(2)[0] * 48 - 6120 for i in range(n)] for j in range(20 if q else 400))
        else:
            vs = (singular(j, [k]) for j, k in enumerate(range(0, 512, 4 if q else 1)))
        for v in vs:
            v = [max(-6144, min(6144, x)) for x in v]
            t = spec.ntt(list(v)) if n != 512 else [int(x) for x in chain.ntt(v)]
            r = lib.s_hint((C.c_int16 * n)(*v), logn, C.byref(h), C.byref(z))
            want = [x for x in t if x == 0]
            why = None
            if r & 2:
                why = "the polynomial was changed"
            elif (r & 1) != (not want):
                why = "invertibility reported as %d with %d zero slots" % (r & 1, len(want))
            elif z.value != len(want):
                why = "%d zero slots counted, there are %d" % (z.value, len(want))
            elif r & 1 and logn <= 9:
                p = 1
                for x in t:
                    p = p * x % Q
                if h.value * p % Q != 1 or not 0 <= h.value < Q:
                    why = "hint %d is not the inverse of the product of the slots" % h.value
            yield "degree %d %s %s" % (n, what, v[:4]), why, True
    section(run, "hint and invertibility", [(1, "all")] + [(l, "basis") for l in range(1, 10)] + [(l, "dense") for l in range(1, 11)] + [(9, "slots")], hints)
    run.note(rule="each case runs a native signing function with a scripted lattice sampler and scripted randomness and compares result, arguments of the sampler and every byte released with "
             "an independent reading of the format; non-trivial = the signer got as far as the decision under test", exhaustive=True)
    run.assumptions.append("the lattice sampler is called through falcon_inner_sign_dyn and leaves s1 at the start of the scratch area, as sign.c documents (C15 checks what it returns)")
