"""C02: the verifier accepts exactly what the specification accepts; any alteration is rejected and nothing is released."""
from ctypes import byref, c_int32, c_size_t
from checks.c05 import BOUND, compose
from vf import native

LEVEL = "exploration"
LONG = (257, 65536, 65541)
VARIANTS = [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)]


def main(run):
    libs = native.both(run)
    base = {}
    for vi, sch in VARIANTS:
        nv = libs[vi]
        for mlen in (0, 1, 33) + LONG:
            r, pk, sk = nv.keypair(sch, native.seed48("c02", run.seed, vi, sch, mlen))
            r2, sm = nv.sign(sch, bytes((i * 7 + 1) & 255 for i in range(mlen)), sk)
            if r or r2:
                run.sec = "setup"
                run.fail("%s:setup" % nv.name(sch), "key generation/signing failed (%d, %d)" % (r, r2))
                return
            base[vi, sch, mlen] = (pk, sm)

    def go(run, kind, jobs):
        def work(job):
            vi, sch, mlen = job[:3]
            pk, sm = base[vi, sch, mlen]
            nv = libs[vi]
            if kind == "tamper":
                which, lo, hi, mode = job[3:]
                x = nv.call("h_tamper", sch, pk, sm, c_size_t(len(sm)), which, c_size_t(lo), c_size_t(hi), mode)
            elif kind == "cut":
                v = [(i * 7 + k) % 121 - 60 for k in (1, 5) for i in range(512)]
                x = nv.call("h_forge_cut", sch, job[3], job[4], (c_int32 * 512)(*v[:512]), (c_int32 * 512)(*v[512:]))
            elif kind == "lenfield":
                x = nv.call("h_lenfield", sch, pk, sm, c_size_t(len(sm)), job[3], job[4])
            elif kind == "noinv":
                x = nv.call("h_forge_noinv", job[3], job[4])
            elif kind == "splice":
                x = nv.call("h_splice", sch, pk, sm, c_size_t(len(sm)), c_size_t(job[3]), c_size_t(job[4]), c_size_t(job[5]), job[6])
            else:
                x = nv.call("h_resize", sch, pk, sm, c_size_t(len(sm)), c_size_t(job[3]), c_size_t(job[4]), job[5], job[6])
            return job, x.cases, x.accepted, x.bad, x.msg.decode()

        for out in run.pmap(work, jobs):
            if out is None:
                continue
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", cases)
            run.count("accepted_by_both", acc)
            if bad:
                run.fail("%s:%s" % (libs[job[0]].name(job[1]), msg), "%d of %d alterations misjudged; first: %s" % (bad, cases, msg), job=job)

    def spans(n, k):
        st = (n + k - 1) // k
        return [(a, min(n, a + st)) for a in range(0, n, st)]

    def tamper_jobs(mlens, mode_sm, mode_pk):
        js = []
        for (vi, sch, ml), (pk, sm) in base.items():
            if ml not in mlens:
                continue
            js += [(vi, sch, ml, 0, a, b, mode_sm) for a, b in spans(len(sm), 8)]
            js += [(vi, sch, ml, 1, a, b, mode_pk) for a, b in spans(len(pk), 8)]
        return js

    run.section("bit-flips", go, "tamper", tamper_jobs((33,) if run.quick else (0, 1, 33), 0, 0))
    # all 256 values of every structural byte: length field, nonce ends, message, both headers, last bytes; key header and ends
    js = []
    for (vi, sch, ml), (pk, sm) in base.items():
        if ml != 33:
            continue
        e = 42 + ml
        pos = [0, 1, 2, 41, 42, e - 1, e, e + 1, e + 2, len(sm) - 3, len(sm) - 2, len(sm) - 1]
        if sch == 2:
            pos += [e + 1024, e + 1025, e + 1026]
        js += [(vi, sch, ml, 0, p, p + 1, 1) for p in pos]
        js += [(vi, sch, ml, 1, p, p + 1, 1) for p in (0, 1, 2, len(pk) - 2, len(pk) - 1)]
    run.section("structural-bytes", go, "tamper", js)
    if not run.quick:
        run.section("every-byte-value", go, "tamper", tamper_jobs((33,), 1, 1))
    run.section("declared-length", go, "lenfield",
                [(vi, sch, ml, a, b) for (vi, sch, ml) in base if ml == 33 for a, b in (spans(65536, 8) if not run.quick else spans(2600, 4) + [(65500, 65536)])])
    js = []
    for (vi, sch, ml), (pk, sm) in base.items():
        if run.quick and ml == 1 or ml > 33:
            continue
        for adjust in (0, 1):
            for filler in (0, 0x80, 0xFF) if not run.quick else (0,):
                js += [(vi, sch, ml, a, b, adjust, filler) for a, b in spans(len(sm) + (40 if run.quick else 1200), 4)]
    run.section("truncate-extend", go, "resize", js)
    # long messages: bytes changed, removed or added on both sides of every multiple of 256 (of 8192 in the longest)
    js, ks = [], []
    for (vi, sch, ml), (pk, sm) in base.items():
        if ml <= 33:
            continue
        pos = sorted({min(ml - 1, max(0, b + d)) for b in range(0, ml + 1, 256 if ml < 1000 or not run.quick else 8192) for d in (-1, 0, 1)})
        js += [(vi, sch, ml, 0, 42 + p, 43 + p, 0) for p in pos]
        for n in (1, 2, 255, 256, 257, 65535, 65536, 65537, 131072):
            for at in (0, ml):
                ks += [(vi, sch, ml, 42 + at, 0, n, f) for f in (0, 7)]
            if n <= ml:
                ks += [(vi, sch, ml, 42, n, 0, 0), (vi, sch, ml, 42 + ml - n, n, 0, 0), (vi, sch, ml, 42, n, n, 0), (vi, sch, ml, 42 + ml - n, n, n, 0)]
    run.section("long-tamper", go, "tamper", js)
    run.section("long-splice", go, "splice", ks)
    run.section("hashed-part", go, "cut", [(vi, sch, 33, a, b) for vi, sch in VARIANTS for a, b in spans(64 if run.quick else 400, 8)])

    def norms(run):
        """Signatures built around vectors of a known norm: mass in either half, both sides of the bound."""
        b = BOUND[9]

        def work(job):
            vi, sch, T, order, unit = job
            x = native.Res()
            comp = compose(T, order, unit, min(unit, 2047) if sch == 0 else unit, 3)
            rc = -1 if comp is None else libs[vi].l.h_forge_judge(sch, (c_int32 * 512)(*comp[0]), (c_int32 * 512)(*comp[1]), b"norm", c_size_t(4), bytes(40), int(T <= b), byref(x), b"vector of known norm")
            if rc == -2:
                raise RuntimeError("oracle inconsistency %r" % (job,))
            return job, x.cases, x.accepted, x.bad, x.msg.decode()
        for out in run.pmap(work, [(vi, sch, T, o, u) for vi, sch in VARIANTS for T in (b - 1, b, b + 1, 2 * b, 2**31 + 5, 2**32 + 5) for o in (0, 1, 2, 3) for u in (6144, 2047, 1077, 300)]):
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", cases)
            run.count("accepted_by_both", acc)
            if bad:
                run.fail("%s:norm=%d:order%d:%d" % (libs[job[0]].name(job[1]), job[2], job[3], job[4]), "signature of squared norm %d (bound %d): %s" % (job[2], b, msg), job=job)
    run.section("norms", norms)
    run.section("no-inverse", go, "noinv", [(0, 2, 33, a, b) for a, b in spans(512, 8)])
    run.sample({"base": "one honest signed message per variant and message length 0, 1, 33", "alterations": "see sections"})
    run.note(rule="one case = one altered signed message or key judged by the tree and by the independent specification verifier; verdicts, "
             "returned message and untouched output on rejection must agree; every case is a distinct byte string", exhaustive=True)
