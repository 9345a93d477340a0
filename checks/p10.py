"""P10: the Python Fourier arithmetic, LDL trees and Fourier sampling are those of the lattice, checked on every branch of the sampler."""
import itertools, math
import numpy as np
from vf import pyref, spec
from vf.cases import section, split

LEVEL = "exploration"


def rows(a):
    """Negacyclic matrix: row i = coefficients of X^i * a."""
    n = len(a)
    M = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            M[i, (i + j) % n] = a[j] if i + j < n else -a[j]
    return M


def order(n):
    """Order in which the recursion fixes the coefficients of one block (last fixed first): odd half before even half."""
    if n == 1:
        return [0]
    if n == 2:
        return [0, 1]           # both orthogonal, sampled in this order
    h = order(n // 2)
    return [2 * i + 1 for i in h] + [2 * i for i in h]


def main(run):
    fft, ffs, common, falcon = pyref.load(run, "fft", "ffsampling", "common", "falcon")
    q = run.quick
    rootsof = {}

    def points(n):
        """Evaluation points in the code's order, read off from the transform of X; they must be exactly the 2n-th odd roots."""
        if n not in rootsof:
            e = [0] * n
            e[1] = 1
            rootsof[n] = np.array(fft.fft(e), dtype=complex)
        return rootsof[n]

    def close(a, b, tol=1e-9):
        a, b = np.array(a, dtype=complex), np.array(b, dtype=complex)
        return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0)) <= tol * (1 + float(np.max(np.abs(b), initial=0)))

    def transform(job):
        n, idx = job
        w = points(n)
        if idx[0] == 0:
            got = sorted(np.round(np.angle(w) * n / math.pi).astype(int) % (2 * n))
            yield "n%d:roots" % n, None if got == list(range(1, 2 * n, 2)) and close(np.abs(w), np.ones(n)) else "evaluation points are not the roots of X^n+1", 1
        for i in idx:
            e = [0] * n
            e[i] = 1
            F, err = pyref.quiet(fft.fft, e)
            why = None
            if err is not None or not close(F, w ** i):
                why = "transform of X^%d is wrong (%r)" % (i, err)
            if not why:
                for v in (1, -3, 0.5, 1e6, 12288):
                    x = [v if j == i else (j % 3) - 1 for j in range(n)]
                    back, err = pyref.quiet(fft.ifft, fft.fft(x))
                    if err is not None or not close(back, x):
                        why = "inverse transform does not restore a polynomial (%r)" % err
                    elif not close(fft.adj(x), [x[0]] + [-t for t in x[:0:-1]]):
                        why = "adjoint is wrong"
                    elif n > 2:
                        s = fft.split_fft(fft.fft(x))
                        if not (close(s[0], fft.fft(x[0::2])) and close(s[1], fft.fft(x[1::2]))):
                            why = "split in the transform domain is wrong"
                        elif not close(fft.merge_fft(s), fft.fft(x)) or common.merge(common.split(x)) != x:
                            why = "merge does not undo split"
                    if why:
                        break
            yield "n%d:basis%d" % (n, i), why, 1
    js = []
    for n in spec.BOUND:
        st = 1 if n <= 64 or not q else n // 64
        js += [(n, c) for c in split(range(0, n, st), 1 if n <= 64 else 8)]
    section(run, "transform", sorted(js, key=lambda j: -j[0]), transform)

    def ring(job):
        n, pairs = job
        for i, j, a, b in pairs:
            x, y = [0] * n, [0] * n
            x[i], y[j] = a, b
            want = spec.negamul(x, y)
            yield "n%d:X%d*X%d:%d,%d" % (n, i, j, a, b), None if close(fft.mul(x, y), want) and close(fft.div(want, y), x) else "product or quotient of monomials is wrong", 1
            x[0] += 3
            y[n - 1] -= 2
            want = spec.negamul(x, y)
            ok = close(fft.mul(x, y), want) and fft.add(x, y) == [s + t for s, t in zip(x, y)] and fft.sub(x, y) == [s - t for s, t in zip(x, y)] and fft.neg(x) == [-s for s in x]
            yield "n%d:bin%d,%d:%d,%d" % (n, i, j, a, b), None if ok else "ring operation is wrong", 1
    js = []
    for n in (2, 4, 8, 16, 32) + ((64, 128) if not q else ()):
        ps = [(i, j, a, b) for i in range(n) for j in range(n) for a, b in (((1, 1), (-7, 12288)) if n <= 16 or not q else ((5, -1),))]
        js += [(n, c) for c in split(ps, 8)]
    section(run, "ring", js, ring)

    def basis(n, k):
        f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
        B = np.vstack([np.hstack([rows(g), -rows(f)]), np.hstack([rows(G), -rows(F)])])
        o = order(n)
        # index of row (block, power) in processing order, first processed first
        seq = [(1, i) for i in o] + [(0, i) for i in o]
        M = np.array([B[b * n + i] for b, i in seq[::-1]])
        _, R = np.linalg.qr(M.T)
        norms = np.abs(np.diag(R))[::-1]      # norms of the orthogonalised rows in processing order
        Qm, R2 = np.linalg.qr(M.T)
        return (f, g, F, G), M[::-1], norms, Qm.T[::-1], seq

    def trees(job):
        n, k = job
        polys, M, norms, _, seq = basis(n, k)
        f, g, F, G = polys
        B0 = [[g, fft.neg(f)], [G, fft.neg(F)]]
        Gm, e = pyref.quiet(ffs.gram, B0)
        if e is not None:
            yield "n%d:k%d:gram" % (n, k), "raised %r" % e, 1
            return
        want = [[np.array(spec.negamul(f, _adj(f))) + np.array(spec.negamul(g, _adj(g))), None], [None, None]]
        ok = close(Gm[0][0], want[0][0]) and close(Gm[1][0], np.array(spec.negamul(G, _adj(g))) + np.array(spec.negamul(F, _adj(f)))) and \
            close(Gm[0][1], _adj(list(Gm[1][0]))) and close(Gm[1][1], np.array(spec.negamul(G, _adj(G))) + np.array(spec.negamul(F, _adj(F))))
        yield "n%d:k%d:gram" % (n, k), None if ok else "Gram matrix is wrong", 1
        Gf = [[fft.fft(x) for x in r] for r in Gm]
        L, D = ffs.ldl_fft(Gf)
        l10 = np.array(L[1][0])
        ok = close(D[0][0], Gf[0][0]) and close(l10 * np.array(D[0][0]), Gf[1][0], 1e-7) and close(l10 * np.array(D[0][0]) * np.conj(l10) + np.array(D[1][1]), Gf[1][1], 1e-7)
        yield "n%d:k%d:ldl" % (n, k), None if ok else "L*D*L^t is not the Gram matrix", 1
        # leaves of the transform-domain and coefficient trees: squared orthogonalised norms, in order
        leaves = []

        def walk(t):
            if len(t) == 3:
                walk(t[2])
                walk(t[1])
            else:
                leaves.append(t)
        T = ffs.ffldl_fft(Gf)
        walk(T)
        got = [abs(complex(x[0])) for x in leaves for _ in (0, 1)]
        yield "n%d:k%d:leaves" % (n, k), None if close(got, norms ** 2, 1e-6) else "tree leaves are not the Gram-Schmidt norms", 1
        if n <= 64:
            leaves.clear()
            walk(ffs.ffldl(Gm))
            got = [abs(complex(x[0])) for x in leaves for _ in (0, 1)]
            yield "n%d:k%d:leaves-coef" % (n, k), None if close(got, norms ** 2, 1e-6) else "coefficient-domain tree leaves are not the Gram-Schmidt norms", 1
            t2 = ffs.ffldl_fft(Gf)
            falcon.normalize_tree(t2, 7.5)
            leaves.clear()
            walk(t2)
            got = [complex(x[0]) for x in leaves for _ in (0, 1)]
            yield "n%d:k%d:normalised" % (n, k), None if close(got, 7.5 / norms, 1e-6) else "normalised leaves are not sigma/norm", 1
    js = [(n, k) for n in (2, 4, 8, 16, 32, 64, 128) for k in range(12 if n < 128 or not q else 2)]
    section(run, "trees", sorted(js, reverse=True), trees)

    def targets(n, j):
        t = [((j * 37 + i * 101) % 997) / 7.0 - 60 + i * 0.013 for i in range(2 * n)]
        if j == 0:
            t = [0.0] * (2 * n)
        return t[:n], t[n:]

    def sampling(job):
        """Every combination of sampler answers: centres and deviations handed to the integer sampler are those of the orthogonalised basis, results reassemble exactly."""
        n, k, j, pats = job
        polys, M, norms, GS, seq = basis(n, k)
        f, g, F, G = polys
        sk = falcon.SecretKey(n, [f, g, F, G])
        t0, t1 = targets(n, j)
        tf = [fft.fft(t0), fft.fft(t1)]
        real = {}
        orig = ffs.samplerz
        for pat in pats:
            calls, bits, mins = [], iter(pat), set()

            def fake(mu, sigma, *a, **kw):
                z = math.floor(complex(mu).real) + next(bits)
                mins.add(float((a + tuple(kw.get(k, sk.sigmin) for k in ("sigmin",)))[0]))
                calls.append((complex(mu).real, complex(sigma).real, z))
                return z
            ffs.samplerz = fake
            try:
                z, e = pyref.quiet(ffs.ffsampling_fft, tf, sk.T_fft, sk.sigmin, None)
            finally:
                ffs.samplerz = orig
            key = "n%d:k%d:t%d:%s" % (n, k, j, "".join(map(str, pat)) if len(pat) <= 64 else str([i for i, x in enumerate(pat) if x]))
            if e is not None or len(calls) != 2 * n:
                yield key, "sampling raised %r after %d calls" % (e, len(calls)), 1
                continue
            # nearest plane over the orthogonalised rows
            vec = np.array(t0 + t1) @ np.vstack([np.hstack([rows(g), -rows(f)]), np.hstack([rows(G), -rows(F)])])
            zz = {}
            why = None if mins == {float(sk.sigmin)} else "the sampler is given the minimum deviations %s instead of %r" % (sorted(mins), sk.sigmin)
            for i, (b, p) in enumerate(seq if not why else ()):
                # mu = <vec, b*>/<b, b*>
                mu = float(vec @ GS[i]) / float(M[i] @ GS[i])
                cm, cs, cz = calls[i]
                if abs(mu - cm) > 1e-5 * (1 + abs(mu)):
                    why = "call %d has centre %r, lattice says %r" % (i, cm, mu)
                    break
                if abs(cs - spec_sigma(n) / norms[i]) > 1e-6:
                    why = "call %d has deviation %r, lattice says %r" % (i, cs, spec_sigma(n) / norms[i])
                    break
                vec = vec - cz * M[i]
                zz[b, p] = cz
            if not why:
                got = [[round(x) for x in fft.ifft(v)] for v in z]
                if got != [[zz[0, p] for p in range(n)], [zz[1, p] for p in range(n)]]:
                    why = "sampled integers are reassembled in the wrong places"
            yield key, why, any(pat)
    js = []
    if hasattr(ffs, "samplerz"):
        for n in (2, 4, 8, 16, 32):
            if n <= 4:
                pats = list(itertools.product((0, 1), repeat=2 * n)) + [tuple((i * 3) % 5 - 2 for i in range(2 * n))]
            else:
                d = 2 if n == 8 else 1
                pats = [tuple(1 if i in s else 0 for i in range(2 * n)) for r in range(d + 1) for s in itertools.combinations(range(2 * n), r)]
                if not q and n == 8:
                    pats = list(itertools.product((0, 1), repeat=16))[::3]
            for k in range(1 if q else 3):
                for j in range(3):
                    js += [(n, k, j, c) for c in split(pats, 1 if n < 8 else 4)]
    section(run, "sampler-branches", sorted(js, key=lambda j: -j[0]), sampling)

    def planes(job):
        """Nearest plane in both domains agrees with rounding on the orthogonalised rows."""
        n, k, j = job
        polys, M, norms, GS, seq = basis(n, k)
        f, g, F, G = polys
        t0, t1 = targets(n, j)
        full = np.vstack([np.hstack([rows(g), -rows(f)]), np.hstack([rows(G), -rows(F)])])
        vec = np.array(t0 + t1) @ full
        zz, tie = {}, False
        for i, (b, p) in enumerate(seq):
            mu = float(vec @ GS[i]) / float(M[i] @ GS[i])
            tie |= abs(mu - math.floor(mu) - 0.5) < 1e-4
            zz[b, p] = round(mu)
            vec = vec - zz[b, p] * M[i]
        want = [[zz[0, p] for p in range(n)], [zz[1, p] for p in range(n)]]
        B0 = [[g, fft.neg(f)], [G, fft.neg(F)]]
        Gm = ffs.gram(B0)
        if tie:
            return
        z, e = pyref.quiet(ffs.ffnp_fft, [fft.fft(t0), fft.fft(t1)], ffs.ffldl_fft([[fft.fft(x) for x in r] for r in Gm]))
        yield "fft:n%d:k%d:t%d" % (n, k, j), None if e is None and [[round(x) for x in fft.ifft(v)] for v in z] == want else "nearest plane (transform domain) differs (%r)" % e, 1
        z, e = pyref.quiet(ffs.ffnp, [t0, t1], ffs.ffldl(Gm))
        yield "coef:n%d:k%d:t%d" % (n, k, j), None if e is None and [[round(x) for x in v] for v in z] == want else "nearest plane (coefficient domain) differs (%r)" % e, 1
    section(run, "nearest-plane", [(n, k, j) for n in (2, 4, 8, 16, 32) for k in range(2 if q else 6) for j in range(12)], planes)
    run.sample({"n": 4, "sampler answers": "floor/ceil pattern 01101001", "compared": "all 8 centres and deviations against the orthogonalised basis"})
    run.note(rule="a case is one basis element, operand pair, key or sampler-answer pattern; non-trivial sampler cases deviate from plain flooring")


def _adj(a):
    return [a[0]] + [-t for t in a[:0:-1]]


def spec_sigma(n):
    """sigma = (1/pi) sqrt(log(4n(1 + 1/eps))/2) * 1.17 * sqrt(q), eps = 1/sqrt(Q_s * lambda) with the standard parameters."""
    lam = {512: 128, 1024: 256}.get(n) or {2: 2, 4: 2, 8: 2, 16: 4, 32: 8, 64: 16, 128: 32, 256: 64}[n]
    eps = 1 / math.sqrt(lam * 2 ** 64)
    return 1.17 * math.sqrt(spec.Q) * math.sqrt(math.log(4 * n * (1 + 1 / eps)) / 2) / math.pi
