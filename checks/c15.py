"""C15: native signing samples the lattice of the key: centres, deviations and reassembly on every sampler-answer pattern, both code paths."""
import ctypes as C, hashlib, itertools, math
import numpy as np
from vf import cbuild, spec
from vf.cases import section, split
from checks.p10 import order, rows, spec_sigma

LEVEL = "exploration"


def main(run):
    # no inlining across the sampler call, so that the replacement is what runs
    lib = cbuild.cdll(run, "lat", harness=("lat_h.c",), weak=("falcon_inner_sampler",))
    q = run.quick

    def keygen(logn, k):
        n = 1 << logn
        b = [C.create_string_buffer(n) for _ in range(4)]
        h = (C.c_uint16 * n)()
        s = hashlib.shake_256(b"c15 %d %d %d" % (run.seed, logn, k)).digest(48)
        lib.l_keygen(logn, s, 48, *b, h)
        return [[x - 256 if x > 127 else x for x in p.raw] for p in b], list(h)
    cache = {}

    def lattice(logn, k):
        if (logn, k) not in cache:
            n = 1 << logn
            polys, h = keygen(logn, k)
            f, g, F, G = polys
            B = np.vstack([np.hstack([rows(g), -rows(f)]), np.hstack([rows(G), -rows(F)])])
            o = order(n)
            seq = [(1, i) for i in o] + [(0, i) for i in o]
            M = np.array([B[b * n + i] for b, i in seq[::-1]])
            Qm, R = np.linalg.qr(M.T)
            cache[logn, k] = polys, h, B, M[::-1], np.abs(np.diag(R))[::-1], Qm.T[::-1], seq
        return cache[logn, k]

    def sign(tree, logn, polys, hm, pat, absolute=0):
        C.c_int.in_dll(lib, 'l_absolute').value = absolute
        n = 1 << logn
        arr = [(C.c_int8 * n)(*p) for p in polys]
        s1, s2, mu, isg = (C.c_int16 * n)(), (C.c_int16 * n)(), (C.c_double * (2 * n))(), (C.c_double * (2 * n))()
        z, fin, smin, att = (C.c_int * (2 * n))(), (C.c_int * (2 * n))(), C.c_double(), C.c_int()
        calls = lib.l_sign(tree, logn, *arr, (C.c_uint16 * n)(*hm), (C.c_int * len(pat))(*pat), len(pat), s1, s2, mu, isg, z, fin, C.byref(smin), C.byref(att))
        return calls, list(s1), list(s2), list(mu), list(isg), list(z), list(fin), smin.value, att.value

    def points(logn, j):
        n = 1 << logn
        if j < 4:
            return [(0, 12288, 6144, 1)[j]] * n
        d = hashlib.shake_256(b"hm %d" % j).digest(2 * n)
        return [(d[2 * i] << 8 | d[2 * i + 1]) % spec.Q for i in range(n)]

    def run_one(job):
        logn, k, j, pats = job
        n = 1 << logn
        polys, h, B, M, norms, GS, seq = lattice(logn, k)
        hm = points(logn, j)
        sig = spec_sigma(n)
        # (hm, 0) in the coordinates of the basis is handled by taking the target vector itself
        target = np.array(hm + [0] * n, dtype=float)
        for pat in pats:
            name = "n%d:k%d:h%d:%s" % (n, k, j, "".join(map(str, pat)) if len(pat) <= 64 else "set" + str([i for i, x in enumerate(pat) if x]))
            for tree in (0, 1):
                calls, s1, s2, mu, isg, z, fin, smin, att = sign(tree, logn, polys, hm, pat)
                why = None
                vec = target
                if calls != 2 * n * att:
                    why = "%d sampler calls in %d attempts of degree %d" % (calls, att, n)
                for i in range(2 * n if not why else 0):
                    m = float(vec @ GS[i]) / float(M[i] @ GS[i])
                    if abs(m - mu[i]) > 1e-5 * (1 + abs(m)):
                        why = "call %d has centre %r, lattice says %r" % (i, mu[i], m)
                    elif abs(isg[i] * sig / norms[i] - 1) > 1e-7:
                        why = "call %d has deviation %r, lattice says %r" % (i, 1 / isg[i], sig / norms[i])
                    if why:
                        break
                    vec = vec - z[i] * M[i]
                if not why and abs(smin / SMIN[logn] - 1) > 1e-14:
                    why = "minimum deviation %r" % smin
                if not why:
                    coef = {c: fin[i] for i, c in enumerate(seq)}
                    z0, z1 = [coef[0, p] for p in range(n)], [coef[1, p] for p in range(n)]
                    f, g, F, G = polys
                    v0 = [a + b for a, b in zip(spec.negamul(z0, g), spec.negamul(z1, G))]
                    v1 = [a + b for a, b in zip(spec.negamul(z0, f), spec.negamul(z1, F))]
                    w1 = [a - b for a, b in zip(hm, v0)]
                    nrm = sum(x * x for x in w1 + v1)
                    if w1 != s1 or v1 != s2:
                        why = "the signature is not target minus lattice point"
                    elif nrm > spec.BOUND[n]:
                        why = "a signature of norm %d was returned" % nrm
                    elif att == 1 or all(c == d for c, d in zip(z, fin)):
                        pass
                    else:    # the first attempt was refused: it must have been too long
                        coef = {c: z[i] for i, c in enumerate(seq)}
                        z0, z1 = [coef[0, p] for p in range(n)], [coef[1, p] for p in range(n)]
                        v0 = [a + b for a, b in zip(spec.negamul(z0, g), spec.negamul(z1, G))]
                        v1 = [a + b for a, b in zip(spec.negamul(z0, f), spec.negamul(z1, F))]
                        if sum((a - b) ** 2 for a, b in zip(hm, v0)) + sum(x * x for x in v1) <= spec.BOUND[n]:
                            why = "a short enough attempt was thrown away"
                yield name + (":tree" if tree else ":dyn"), why, any(pat)
    js = []
    for logn in range(1, 11):
        n = 1 << logn
        if logn <= 2:
            pats = list(itertools.product((0, 1), repeat=2 * n)) + list(itertools.product((-3, 4), repeat=min(2 * n, 4))) + [(200,) + (0,) * (2 * n - 1), (0,) * (2 * n - 1) + (-500,)]
        else:
            d = 2 if logn <= (3 if q else 4) else 1
            step = 1 if logn < 6 or not q else n // 16
            pats = [tuple((1 if i % 3 else -1) if i in s else 0 for i in range(2 * n)) for r in range(d + 1) for s in itertools.combinations(range(0, 2 * n, step), r)]
            pats += [tuple((i * 7 + i * i) % 3 % 2 for i in range(2 * n)), (1,) * (2 * n), (0, 1) * n, (300,) + (0,) * (2 * n - 1)]
        if logn > 8 and q:
            pats = pats[:2] + pats[-4:]
        for k in range(2 if q or logn > 7 else 4):
            for j in range(6 if logn < 6 else 2 if q or logn > 8 else 4):
                js += [(logn, k, (j * 5) % 6 if logn > 5 else j, c) for c in split(pats, 1 if logn < 5 else 4)]
    section(run, "sampler answers", sorted(js, key=lambda j: -j[0]), run_one)

    # the acceptance decision of the signing loop, over dense sets of answers around the bound
    from vf.jobs import run_jobs, cut
    js = []
    for logn, base, ks in ((1, 9 if q else 25, 4), (2, 3 if q else 5, 2)):
        n = 1 << logn
        perm = list(order(n)) * 2
        for k in range(ks):
            polys, h = keygen(logn, k)
            arr = [("i8", p) for p in polys]
            for tree in (0, 1):
                js += [("l_enum", tree, logn, *arr, ("u16", points(logn, k)), perm, base, lo, hi, spec.BOUND[n], k) for lo, hi in cut(0, base ** (2 * n), 4)]
    run.section("acceptance", lambda r: run_jobs(r, lib, js, "acceptance", nontrivial="accepted"))

    def got_z(logn, fin):
        return dict(zip(lattice(logn, 0)[6], fin))

    def wraps(job):
        """First attempts so long that 32-bit sums wrap to a small value."""
        logn, k = job
        n = 1 << logn
        polys, h = keygen(logn, k)
        f, g, F, G = polys
        hm = points(logn, 5)
        calls, s1, s2, mu, isg, z, fin, smin, att = sign(0, logn, polys, hm, [0])
        o = order(n)[-1]
        e = [0] * n
        e[o] = 1
        rg, rf = np.array(spec.negamul(e, g), dtype=np.int64), np.array(spec.negamul(e, f), dtype=np.int64)
        if att != 1:
            return
        found = 0
        for off in range(1, 40000):
            a, b = np.array(s1) - off * rg, np.array(s2) + off * rf
            x, y = int(a @ a), int(b @ b)
            if max(abs(a).max(), abs(b).max()) > 32767:
                break
            if x + y > spec.BOUND[n] and ((x + y) % 2 ** 32 <= spec.BOUND[n] or x < 2 ** 31 and (x + y % 2 ** 32) <= spec.BOUND[n]):
                found += 1
                for tree in (0, 1):
                    got = sign(tree, logn, polys, hm, [0] * (2 * n - 1) + [off])
                    yield "n%d:k%d:offset %d:%s" % (n, k, off, "tree" if tree else "dyn"), None if got[8] > 1 else "an attempt of squared norm %d was returned" % (x + y), True
                if found >= (4 if q else 40):
                    break
        # the first half alone passes 2^32 while the second stays short: add q at chosen places of the first half
        s1, s2, z = np.array(s1, dtype=np.int64), np.array(s2, dtype=np.int64), got_z(logn, tuple(fin))
        rest = spec.BOUND[n] - int(s2 @ s2)
        by = np.argsort(-abs(s1))
        tries = 0
        for turns in (1, 2):
            for cnt in range(24, 32 if n > 32 else 0):
                for start in range(0, n - cnt, max(1, n // 64)):
                    for flip in (1, -1):
                        w = np.zeros(n, dtype=np.int64)
                        for i in by[start:start + cnt]:
                            w[i] = flip * (1 if s1[i] >= 0 else -1)
                        for i in by[::-1][:cnt * (turns - 1)]:
                            w[i] = w[i] or 1
                        a = s1 + spec.Q * w
                        x = int(a @ a)
                        if not (x >> 32 == turns and x % 2 ** 32 <= rest) or tries >= (3 if q else 30):
                            continue
                        tries += 1
                        # q*w = z0*g + z1*G with z0 = -F*w, z1 = f*w, and then z0*f + z1*F = 0
                        d0, d1 = spec.negamul(list(map(int, w)), F), spec.negamul(list(map(int, w)), f)
                        zz = [z[c] + (d0[c[1]] if c[0] == 0 else -d1[c[1]]) for c in lattice(logn, k)[6]]
                        for tree in (0, 1):
                            got = sign(tree, logn, polys, hm, zz, absolute=1)
                            yield "n%d:k%d:%d places from %d:%s" % (n, k, cnt, start, "tree" if tree else "dyn"), None if got[8] > 1 else "an attempt whose first half has squared norm %d was returned" % x, True
    section(run, "overflowing attempts", [(logn, k) for logn in (10, 9, 8, 7) for k in range(2 if q else 6)], wraps)
    run.note(rule="a case is one key, one target, one pattern of sampler answers and one code path; non-trivial cases deviate from flooring every answer")


SMIN = [0, 1.1165085072329104, 1.1321247692325274, 1.147528535373367, 1.170254078853483, 1.1925466358390344, 1.2144300507766141, 1.2359260567719809, 1.2570545284063217, 1.2778336969128337, 1.298280334344292]
