"""C09: native key generation returns exactly the first acceptable candidate of its randomness, with a complete, correct key, at every degree."""
import ctypes as C, hashlib, itertools, math
import numpy as np
from vf import cbuild, ntru, spec
from vf.cases import section, split
from vf.ntru import T, TOP, samples, draw, word, encode

LEVEL = "exploration"


def main(run):
    lib = cbuild.cdll(run, "kg", harness=("kg_h.c",), weak=("falcon_inner_i_shake256_extract",))
    lib.k_gen.restype = C.c_long
    q = run.quick

    def gen(data, logn, what=3, fill=0xA5):
        n = 1 << logn
        b = [(C.c_int8 * (n + 8))(*([77] * (n + 8))) for _ in range(4)]
        h = (C.c_uint16 * (n + 8))(*([7777] * (n + 8)))
        used = lib.k_gen(data, C.c_size_t(len(data)), logn, what, fill, *b, h)
        v = [list(x) for x in b] + [list(h)]
        if any(x[n:] != ([7777] if i == 4 else [77]) * 8 for i, x in enumerate(v)):
            used = -2
        return used, [x[:n] for x in v]

    def expect(data, logn):
        """The model: first candidate of the stream that passes; also those whose fate is undecided."""
        sm, pos = samples(data), 0
        while True:
            a = draw(sm, pos, logn)
            b = a and draw(sm, a[1], logn)
            if not b:
                return None
            f, g, pos = a[0], b[0], b[1]
            w, close = ntru.judge(f, g)
            if w is None or close:
                yield f, g, pos, close
    lim = 127

    def fits(f, g):
        F, G = ntru.solve(f, g)
        if len(f) > 32:     # a quotient next to a half may be rounded either way
            return max(map(abs, F + G)) <= lim - 2 * max(map(abs, f + g)), 1
        F, G, margin = ntru.reduce(f, g, F, G)
        return max(map(abs, F + G)) <= lim, margin

    def reduced(f, g, F, G):
        n = len(f)
        if n <= 32:
            return float(max(map(abs, ntru.quotient(f, g, F, G))))
        z = np.exp(1j * np.pi * np.arange(n) / n)
        ff, gg, FF, GG = (np.fft.fft(np.array(p) * z) for p in (f, g, F, G))
        k = np.fft.ifft((FF * ff.conj() + GG * gg.conj()) / (abs(ff) ** 2 + abs(gg) ** 2)) / z
        return float(abs(k.real).max())

    def judge(data, logn, whats=(3,)):
        """Compare one run with the model; returns (why, number of candidates tried)."""
        first = None
        for what in whats:
            used, (f, g, F, G, h) = gen(data, logn, what, 0xA5 if what == 3 else 0x5A)
            if used == -2:
                return "memory outside the given buffers was written"
            if first is None:
                first = used, f, g, F
                if used < 0:
                    f = None
            elif (used, f, g, F)[:4 if used >= 0 else 1] != first[:4 if used >= 0 else 1]:
                return "the key depends on which outputs are asked for, or on memory contents"
            if what & 1 == 0 or used < 0:
                continue
            why = ntru.check_key(f, g, F, G, h if what & 2 else None)
            if why:
                return why
            if max(map(abs, F + G)) > lim:
                return "F or G does not fit"
            k = reduced(f, g, F, G)
            if k > 0.5001:
                return "F, G are not reduced (quotient %g)" % k
        used, f, g, F = first
        for mf, mg, pos, close in expect(data, logn):
            if used >= 0 and (mf, mg) == (f, g):
                return None if used == 16 * pos else "the key was made from %d bytes, its candidate ends at byte %d" % (used, 16 * pos)
            if close:
                continue
            if logn in (3, 5, 9, 10):      # the solver's fixed budgets make it give up on some solvable candidates of these degrees; that only costs a retry
                continue
            if min(ntru.resultant(mf), ntru.resultant(mg)) == 1:      # likewise, its binary GCD gives up when a resultant is 1
                continue
            ok, margin = fits(mf, mg)
            if ok and margin > 1e-9:
                return "an acceptable candidate was passed over: f=%s g=%s" % (mf[:8], mg[:8])
        return None if used < 0 else "the key is not an acceptable candidate of its randomness"

    spare = {}

    def fallback(logn):
        if logn not in spare:
            i = 0
            while True:
                s = hashlib.shake_256(b"c09 spare %d %d" % (logn, i)).digest(32768 * 40)
                used, (f, g, F, G, h) = gen(s, logn)
                if used > 0:
                    spare[logn] = f, g
                    break
                i += 1
        return spare[logn]

    def seeds(job):
        logn, ids = job
        for i in ids:
            s = hashlib.shake_256(b"c09 %d %d %d" % (run.seed, logn, i)).digest(32768 * 400)
            yield "n%d:%d" % (1 << logn, i), judge(s, logn, (3, 2, 1, 0) if i % 4 == 0 else (3,)), 1
    num = {1: 40, 2: 60, 3: 60, 4: 60, 5: 40, 6: 30, 7: 24, 8: 16, 9: 12, 10: 6}
    section(run, "streams", [(l, c) for l in range(10, 0, -1) for c in split(range(num[l] * (1 if q else 20)), 6 if q else 40)], seeds)


    # chosen candidates: a tape holds the candidate, then one that is known to be good
    def tape(f, g, logn):
        a, b = fallback(logn)
        return encode(f + g, logn) + encode(a + b, logn)

    def classes(logn, seed):
        """An endless deterministic family of candidates around random ones."""
        n = 1 << logn
        i = 0
        while True:
            sm = samples(hashlib.shake_256(b"c09 base %d %d %d" % (seed, logn, i)).digest(16 * 4096))
            i += 1
            a = draw(sm, 0, logn)
            b = a and draw(sm, a[1], logn)
            if b and max(map(abs, a[0] + b[0])) < min(127, 26 << (10 - logn)):
                yield a[0], b[0]

    def chosen(job):
        logn, kind, k, cnt = job
        n, L = 1 << logn, ntru.FG_LIM[logn]
        made = tries = 0
        got = set()
        for raw, (f, g) in enumerate(classes(logn, k)):
            if made >= cnt or (kind == "range" and raw > (3000 if q else 30000)):
                return
            cand = []
            if kind == "norm":          # even by parity: 16822 is the last good one, 16824 the first bad one
                base = sum(x * x for x in f + g)
                if abs(base - 16822) > (14000 if logn < 4 else 4000):
                    continue
                v = f + g
                for want in (16820, 16822, 16824, 16826):
                    w = list(v)
                    tot = base
                    for i in range(2 * n):     # greedy steps of two keep parity
                        rest = tot - w[i] ** 2
                        x = min((x for x in range(w[i] % 2, L, 2)), key=lambda x: abs(rest + x * x - want))
                        w[i], tot = x, rest + x * x
                        if tot == want:
                            break
                    if sum(x * x for x in w) == want:
                        r = ntru.judge(w[:n], w[n:])
                        if not r[1] and r[0] in (None, "norm"):
                            cand.append((w, "%d%s" % (want, r[0])))
            elif kind == "ortho":
                v = f + g
                o = float(ntru.ortho(f, g, 0))
                if abs(o - ntru.NORM_MAX) > 600 or sum(x * x for x in v) > 16600:
                    continue
                for i, j in itertools.islice(itertools.combinations(range(2 * n), 2), 300):
                    for d, e in ((2, 0), (2, 2), (2, -2), (-2, 2), (-2, -2)):
                        w = list(v)
                        w[i] += d
                        w[j] += e
                        o = float(ntru.ortho(w[:n], w[n:], 0))
                        if 1e-5 < abs(o - ntru.NORM_MAX) < (20 if logn < 3 else 2) and ntru.judge(w[:n], w[n:])[0] in (None, "ortho"):
                            cand.append((w, "above" if o > ntru.NORM_MAX else "below"))
                    if len(cand) >= 4:
                        break
            elif kind == "range":
                if sum(x * x for x in f + g) > ntru.NORM_MAX - L * L or ntru.judge(f, g, False)[0]:
                    continue
                tries += 1
                if tries > (20 if q else 400):
                    return
                cand += ntru.range_cases(f, g, got)
            elif kind == "wrap":        # norms far beyond the bound, that look small when kept in too few bits
                top = 2 * n * (L - 1) ** 2
                for want in (1 << 15, 1 << 16, 3 << 15, 1 << 17, 1 << 18):
                    if want + 12000 < top:
                        s = math.sqrt((want + 8000) / sum(x * x for x in f + g))
                        w = [max(-L + 1 + (x + L - 1) % 2, min(L - 1 - (x + L - 1) % 2, x + 2 * round(x * (s - 1) / 2))) for x in f + g]
                        tot = sum(x * x for x in w)
                        if want < tot < want + 16822 and ntru.judge(w[:n], w[n:], skip="norm") == (None, 0):
                            cand.append((w, "%d" % want))
                if raw > 200:
                    return
            elif kind == "FG":          # solutions with a coefficient at the limit of their field
                if raw > (2000 if q else 20000):
                    return
                if ntru.judge(f, g)[0]:
                    continue
                F, G = ntru.solve(f, g)
                m = max(map(abs, F + G))
                if 126 <= m <= 130:
                    x = next((x, i // n) for i, x in enumerate(F + G) if abs(x) == m)
                    if x not in got or not q:
                        got.add(x)
                        cand.append((f + g, "%d in %s" % (x[0], "FG"[x[1]])))
            elif kind == "invertible":
                tries += 1
                if tries > (600 if q else 4000):
                    return
                if n > 16 and ntru.judge(f, g, False)[0] is not None:
                    continue
                cand += [(w, "slot %d" % i) for w, i in ntru.slot_cases(f, g) if (i, i) not in got or not q]
                got |= {(int(x[1].split()[1]),) * 2 for x in cand}
                if n > 16 and len(got) == 6:
                    made = cnt
            else:
                cand.append((f + g, kind))
            for w, what in cand:
                made += 1
                yield "n%d:%s:%s:%d.%d" % (n, kind, what, k, made), judge(tape(w[:n], w[n:], logn), logn), 1
    js = []
    for logn in range(10, 0, -1):
        for kind in ("norm", "ortho", "range", "invertible", "wrap", "FG"):
            if kind == "range" and logn < 6 or kind == "wrap" and logn < 2 or kind == "FG" and logn not in (1, 2, 4):
                continue
            for k in range((8 if kind == "FG" else 1 if kind == "wrap" else 2 if logn < 9 else 1) * (1 if q else 8)):
                js.append((logn, kind, k, 36 if kind == "range" else 16 if kind == "invertible" and logn < 5 else 12 if logn < 9 else 6))
    section(run, "boundary candidates", js, chosen)

    def grid(job):
        logn, cands = job
        n = 1 << logn
        for w in cands:
            if sum(w[:n]) & 1 and sum(w[n:]) & 1:
                yield "n%d:%s" % (n, ",".join(map(str, w))), judge(tape(list(w[:n]), list(w[n:]), logn), logn), 1
    one = [(a, b, c, d) for a in range(-127, 128, 6 if q else 1) for b in range(-127, 128, 5 if q else 1) for c, d in ((0, 1), (-33, 50), (5, -60)) if abs(a * a + b * b + c * c + d * d - 12900) < 4100]
    two = [v for v in itertools.product((0, 1, -46) if q else (-1, 0, 2, 45, -46), repeat=8) if abs(sum(x * x for x in v) - 12500) < 4500 and sum(v[:4]) & 1 and sum(v[4:]) & 1]
    section(run, "candidate grids", [(1, c) for c in split(one, 16)] + [(2, c) for c in split(two, 32)], grid)

    def draws(job):
        """Scripted draws: table thresholds, ignored bits, refused coefficients and parities."""
        f, g = fallback(job[0])
        logn, n, k = job[0], 1 << job[0], 1 << (10 - job[0])
        good = encode(f + g, logn)
        if job[1] == "table":
            T63 = TOP - 1
            cases = []
            for m in range(1, 27):
                for r in {T[m], T[m] + 1, T[m - 1] - 1 if m > 1 else T63, T[m] ^ TOP, (T[m - 1] - 1 if m > 1 else T63) ^ TOP}:
                    for r0 in (T63, T[0], T63 ^ TOP, T[0] ^ TOP):
                        cases.append((r0, r, -m if r0 >> 63 else m))
            for r in (0, 1, T63, TOP, 2 ** 64 - 1, T[1], T[20]):
                for r0 in (0, T[0] - 1, TOP, (T[0] - 1) ^ TOP):
                    cases.append((r0, r, 0))
            for spot in (0, n - 1, n, 2 * n - 1) if not q else ((0, n, 2 * n - 1)[logn % 3],):
                for r0, r, m in cases if not q or logn % 3 == 1 else cases[logn::7]:
                    t = bytearray(good)
                    c = (f + g)[spot]
                    first = r0.to_bytes(8, "little") + r.to_bytes(8, "little")
                    if k == 1:
                        if m != c:
                            continue
                        t[16 * spot:16 * spot + 16] = first
                    else:
                        rest = encode([c - m], logn)
                        if rest[-16:] != word(0):
                            continue
                        t[16 * k * spot:16 * k * (spot + 1)] = first + rest[:-16]
                    used, out = gen(bytes(t), logn)
                    yield "n%d:table:%d:%x:%x" % (n, spot, r0, r), None if used == len(good) and out[0] == f and out[1] == g else "draw (%x, %x) is not %d" % (r0, r, m), 1
        else:
            for spot in range(2 * n) if n < (8 if q else 64) else (0, 1, n - 2, n - 1, n, 2 * n - 1):
                for bad in (128, -128, 129, 200, 255, 256, 257, -255, -256, 384, -257, 127, -127):
                    if abs(bad) > 26 * k:
                        continue
                    ins = encode([bad], logn) * (1 + bad % 2)
                    t = good[:16 * k * spot] + ins + good[16 * k * spot:]
                    if abs(bad) <= 127:
                        t += encode(f + g, logn) * 2
                    yield "n%d:refuse %d at %d" % (n, bad, spot), judge(t, logn), 1
            for spot in (n - 1, 2 * n - 1):
                for m in range(1, 4):
                    for d in (1, -1):
                        bad = encode([(f + g)[spot] + d], logn) * m
                        t = good[:16 * k * spot] + bad + good[16 * k * spot:]
                        used, out = gen(t, logn)
                        yield "n%d:parity %d at %d" % (n, m * d, spot), None if used == len(t) and out[0] == f and out[1] == g else "a last coefficient of even parity was not redrawn", 1
            # the candidate tape cut short must ask for more
            yield "n%d:short" % n, None if gen(good[:-1], logn)[0] == -1 else "a key was made from too little randomness", 1
    section(run, "draws", [(l, w) for l in range(10, 0, -1) for w in ("table", "refuse")], draws)

    # the public functions around it, on the real hash
    from vf import native
    api = native.both(run)

    def public(job):
        fn, sch, nat, ids = job
        n = 512
        for i in ids:
            slen = i if fn == "seeded" else 48
            s = hashlib.shake_256(b"c09 api %d %d" % (run.seed, i)).digest(slen)
            pk, sk = C.create_string_buffer(b"\x77" * (native.PKLEN[sch] + 8)), C.create_string_buffer(b"\x77" * 1289)
            if fn == "seeded":
                call = nat.l.crypto_sign_keypair_from_seed if sch == 0 else nat.l.zknox_crypto_sign_keypair_from_seed
                r = call(pk, sk, s, C.c_size_t(slen))
                if slen < 32:
                    clean = pk.raw.strip(b"\x77\0") == b"" and sk.raw.strip(b"\x77\0") == b""
                    yield "%s:%d:%d" % (fn, sch, i), None if r == -1 and clean else "a seed of %d bytes was not refused" % slen, 1
                    continue
                ent = s
            else:
                r = nat.l.h_keypair(sch, s, pk, sk)
                from vf.drbg import Drbg
                ent = Drbg(s).read(48)
            used, (f, g, F, G, h) = gen(hashlib.shake_256(ent).digest(32768 * 400), 9)
            bits = lambda v, w: "".join(format(x & ((1 << w) - 1), "0%db" % w) for x in v)
            tob = lambda b: int(b, 2).to_bytes(len(b) // 8, "big")
            wsk = bytes([0x59]) + tob(bits(f, 6) + bits(g, 6) + bits(F, 8))
            wpk = bytes([9]) + (tob(bits(h, 14)) if sch == 0 else b"".join(x.to_bytes(2, "big") for x in ntru.ntt(h)))
            why = None
            if r != 0:
                why = "key generation failed with %d" % r
            elif sk.raw[:1281] != wsk or sk.raw[1281:1289] != b"\x77" * 8:
                why = "the secret key is not the encoding of f, g, F"
            elif pk.raw[:len(wpk)] != wpk or pk.raw[len(wpk):len(wpk) + 8] != b"\x77" * 8:
                why = "the public key is not the encoding of h = g/f"
            yield "%s:%d:%s:%d" % (fn, sch, nat.tag, i), why, 1
    js = []
    for nat in api:
        for sch in (0, 1):
            js += [("seeded", sch, nat, c) for c in split([0, 1, 16, 31, 32, 33, 48, 64, 135, 136, 137, 200] if q else list(range(0, 300)), 3)]
        for sch in (0, 1, 2):
            js += [("random", sch, nat, c) for c in split(range(4 if q else 60), 2)]
    section(run, "public functions", js, public)
    run.note(rule="a case is one stream of hash output (real or scripted) given to the generator; the returned key is compared with the first candidate an exact integer model accepts",
             degrees="2..1024")
