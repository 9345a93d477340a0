"""C05: native acceptance is exactly 'squared norm <= bound', through every verifying entry point and for every degree."""
import ctypes as C
from vf import cbuild, native
from vf.native import Res

LEVEL = "exploration"
BOUND = [0, 101498, 208714, 428865, 892039, 1852696, 3842630, 7959734, 16468416, 34034726, 70265242]
VARIANTS = [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)]


def targets(b):
    t = set()
    for c in (b, 2**31, 2**32, 2**32 + b, 2**33, 2**33 + b, 2**31 + b, 3 * 2**32 + b, 2**34):
        t |= {c - 3, c - 2, c - 1, c, c + 1, c + 2, c + 3}
    t |= {0, 1, 2, b // 2, 2 * b, 4 * b, 16 * b, 100 * b}
    return sorted(t)


def compose(T, order, unit1, unit2, seedv):
    """Coefficients (s1,s2) with exactly this squared norm.  s2 always contains a large invertible pattern when possible."""
    s = [0] * 1024
    k = 0
    idx = {0: lambda k: k, 1: lambda k: 1023 - k, 2: lambda k: (k & 1) * 512 + k // 2,
           3: lambda k: 512 + (k * 37) % 512 if k < 512 else (k * 37) % 512}[order]
    s[512 + seedv] = 1     # X^seedv makes s2 non-zero even when the norm sits in s1
    T -= 1
    if T < 0:
        return None
    used = {512 + seedv}
    import math
    while T > 0:
        while k < 1024 and idx(k) in used:
            k += 1
        if k >= 1024:
            return None
        i = idx(k)
        v = min(unit1 if i < 512 else unit2, math.isqrt(T))
        s[i] = -v if (k % 3 == 1) else v
        T -= v * v
        k += 1
    return s[:512], s[512:]


def main(run):
    L = cbuild.Lib(run)
    libs = native.both(run, builder=L)
    nlib = L.load("norm", harness=("norm_h.c", "ref.c"))

    def go(run, jobs):
        def work(job):
            x = Res()
            args = []
            for a in job[1:]:
                if isinstance(a, tuple):
                    args.append((C.c_uint64 * len(a))(*a) if a and a[0] == "T" else (C.c_int * len(a))(*a))
                elif isinstance(a, list):
                    args.append((C.c_uint64 * len(a))(*a))
                else:
                    args.append(a)
            getattr(nlib, job[0])(*args, C.byref(x))
            return job, x.cases, x.accepted, x.bad, x.msg.decode()
        for out in run.pmap(work, jobs):
            if out is None:
                continue
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("accepting", acc)
            run.count("distinct_nontrivial", cases)
            if bad:
                run.fail("norm:%s" % msg[:80], "%d of %d vectors misjudged; first: %s" % (bad, cases, msg), job=str(job)[:300])

    js = []
    for logn in range(1, 11):
        ts = targets(BOUND[logn])
        units = (32768, 32767, 12288, 6144, 2047, 1077, 300, 182, 100, 1)
        js.append(("h_targets", logn, ts, len(ts), units, len(units)))
    run.section("exact-boundary", go, js)
    js = []
    for logn in range(1, 11):
        ts = [t for t in targets(BOUND[logn]) if t]
        units = (6144, 6143, 5833, 4096, 2047, 1077, 300, 182, 100)
        js += [("h_raw", logn, ts[k::4], len(ts[k::4]), units, len(units)) for k in range(4)]
    run.section("verification-functions", go, js)
    js = []
    for logn in range(1, 11):
        n = 1 << logn
        pos = range(0, n, max(1, n // (4 if run.quick else 32)))
        js += [("h_single", logn, p, p + 1, 1, 0) for p in pos] + [("h_single", logn, n - 1, n, 1, f) for f in (0, 1, -3)]
    run.section("one-coefficient", go, js)
    run.section("degree-2-sphere", go, [("h_quads", a, a + 20) for a in range(0, 330, 20)])

    # end to end: key and signature built around chosen (s1,s2) so that the verifier must compute exactly this norm
    def e2e(job):
        vi, sch, T, order, u1, u2, sv = job
        nv = libs[vi]
        if sch == 0:
            u2 = min(u2, 2047)
        x = Res()
        for shift in range(40):
            comp = compose(T, order, u1, u2, (sv + shift) % 512)
            if comp is None:
                return job, None
            s1, s2 = comp
            rc = nv.l.h_forge_judge(sch, (C.c_int32 * 512)(*s1), (C.c_int32 * 512)(*s2), b"norm", C.c_size_t(4), bytes(range(40)),
                                    1 if T <= BOUND[9] else 0, C.byref(x), b"chosen vector")
            if rc == -2:
                raise RuntimeError("oracle inconsistency %r" % (job,))
            if rc >= 0:
                return job, (x.cases, x.accepted, x.bad, x.msg.decode())
        return job, None

    def e2e_many(js):
        return [e2e(j) for j in js]

    def end_to_end(run):
        js = []
        ts = targets(BOUND[9])
        for vi, sch in VARIANTS:
            for T in ts:
                if T == 0:
                    continue
                for order in (0, 1, 2, 3):
                    for u1, u2 in ((6144, 6144), (6144, 1077), (2047, 2047), (300, 300), (182, 182)) if run.quick else \
                            ((6144, 6144), (6144, 1077), (5833, 5833), (4096, 4096), (2047, 2047), (2048, 2046), (1024, 128), (300, 300), (255, 256), (200, 190), (182, 182), (128, 6144)):
                        js.append((vi, sch, T, order, u1, u2, 3))
        done = 0
        K = 64
        for part in run.pmap(e2e_many, [js[i::K] for i in range(K)]):
            for job, o in part or []:
                if o is None:
                    continue
                done += 1
                run.count("evaluations", o[0])
                run.count("accepting", o[1])
                run.count("distinct_nontrivial", o[0])
                if o[2]:
                    vi, sch, T = job[:3]
                    run.fail("%s:norm=%d:order%d:%d/%d" % (libs[vi].name(sch), T, job[3], job[4], job[5]),
                             "signature of squared norm %d (bound %d): %s" % (T, BOUND[9], o[3]), job=job)
        run.note(forged_pairs=done)
    run.section("end-to-end", end_to_end)
    # one large coefficient of every value, at several positions, through the public verifiers: s2 = v X^p + small, s1 = 0
    def e2e_values(job):
        vi, sch, p, lo, hi = job
        nv = libs[vi]
        out = [0, 0, 0, ""]
        lim = 2047 if sch == 0 else 6144
        for half in (0, 1):
            for v in list(range(lo, hi)):
                if half == 1 and abs(v) > lim:
                    continue
                s1, s2 = [0] * 512, [0] * 512
                s2[(p + 1) % 512] = 1
                if half == 0:
                    s1[p] = v
                else:
                    s2[p] = v
                T = sum(a * a for a in s1 + s2)
                x = Res()
                rc = nv.l.h_forge_judge(sch, (C.c_int32 * 512)(*s1), (C.c_int32 * 512)(*s2), b"v", C.c_size_t(1), bytes(40),
                                        1 if T <= BOUND[9] else 0, C.byref(x), b"single value %d half %d" % (v, half))
                if rc == -2:
                    raise RuntimeError("oracle inconsistency")
                if rc >= 0:
                    out[0] += 1
                    out[1] += x.accepted
                    out[2] += x.bad
                    if x.bad and not out[3]:
                        out[3] = "value %d in half %d position %d: %s" % (v, half, p, x.msg.decode())
        return job, out

    def values(run):
        js = []
        for vi, sch in ((0, 0), (0, 1), (0, 2), (1, 1)):
            for p in (0, 511) if run.quick else (0, 1, 77, 255, 256, 510, 511):
                st = 17 if run.quick else 1
                edges = set()
                for c in (0, 128, 1024, 2047, 4096, 5833, 6144):
                    edges |= {c - 1, c, c + 1}
                vals = sorted({v for v in (edges | set(range(0, 6145, st))) if 0 <= v <= 6144})
                for sgn in (1, -1):
                    for v in vals:
                        js.append((vi, sch, p, sgn * v, sgn * v + 1))
        K = 64
        for part in run.pmap(lambda part: [e2e_values(j) for j in part], [js[i::K] for i in range(K)]):
            for job, o in part or []:
                run.count("evaluations", o[0])
                run.count("accepting", o[1])
                run.count("distinct_nontrivial", o[0])
                if o[2]:
                    run.fail("%s:%s" % (libs[job[0]].name(job[1]), o[3][:60]), o[3], job=job)
    run.section("single-values-end-to-end", values)
    run.sample({"squared_norm": BOUND[9], "verdict": "accepted"})
    run.sample({"squared_norm": BOUND[9] + 1, "verdict": "rejected"})
    run.sample({"squared_norm": 2**32 + 5, "verdict": "rejected (no 32-bit wrap-around)"})
    run.note(rule="vectors built to have an exactly known squared norm (bound and 2^31/2^32/2^33/2^34 boundaries +-3, each fill order, unit and sign pattern; "
             "every 16-bit value of one coefficient); the end-to-end sections embed them in a key/signature pair and ask the public verifier; every case is distinct",
             exhaustive=True)
