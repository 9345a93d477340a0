"""C11: native calls are independent: no outcome depends on earlier calls, on what the stack holds, or on a call that runs in the middle."""
import ctypes as C
from vf import cbuild
from vf.native import Res

LEVEL = "exploration"
INST = ["-fsanitize-coverage=trace-pc"]
OUT = 6000


def main(run):
    q = run.quick
    lib = cbuild.Lib(run)
    builds = [("shake", False, "-O1"), ("keccak", True, "-O1")] + ([] if q else [("shake-O0", False, "-O0"), ("shake-O3", False, "-O3")])
    so = {}
    for tag, eth, opt in builds:
        so[tag] = C.CDLL(lib.build(tag, harness=("hist_h.c",), eth=eth, opt=opt, cflags=INST, hflags=[], ldflags=["-Wl,-Bsymbolic"]))
        so[tag].h_opname.restype = C.c_char_p
        so[tag].h_fresh.restype = C.c_size_t
    nops = so["shake"].h_nops()

    def fixtures(l):
        return l.h_fixtures(run.seed & 255)

    def fresh(job):
        tag, op = job
        b = C.create_string_buffer(OUT)
        n = so[tag].h_fresh(op, b)
        return tag, op, b.raw[:n]
    base = {}
    run.sec = "fixtures"
    bad = [x for x in run.pmap(lambda t: fixtures(so[t]), list(so)) if x]
    if bad:
        run.fail("fixtures", "key generation or signing failed while the fixtures were made")
    if run.nviol:
        return
    for t in so:
        fixtures(so[t])
    run.sec = None

    def fresh_all(run):
        for out in run.pmap(fresh, [(t, o) for t in so for o in range(nops)]):
            if out:
                base[out[0], out[1]] = out[2]
                run.count("evaluations")
    run.section("fresh processes", fresh_all)
    if not base:        # a replay of another section
        run.sec = "fresh processes"
        fresh_all(run)
        run.sec = None
    if len(base) < nops * len(so):
        return

    def ready(tag):
        for o in range(nops):
            so[tag].h_base(o, base[tag, o], C.c_size_t(len(base[tag, o])))
        return so[tag]

    def book(run, prefix, jobs, work, nt):
        seen = 0
        for out in run.pmap(work, jobs):
            if out is None:
                continue
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", cases)
            seen += acc
            if bad:
                run.fail("%s:%s:%s" % (prefix, job[0], msg), "%d of %d: %s" % (bad, cases, msg), job=str(job))
        if nt:
            run.note(**{nt: seen})

    def sequences(job):
        tag, ops, depth, first = job
        l, x = ready(tag), Res()
        l.h_sequences((C.c_int * len(ops))(*ops), len(ops), depth, first, C.byref(x))
        return job, x.cases, x.accepted, x.bad, x.msg.decode()
    OPEN = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15]
    opens = {s: [16 * s + v for v in OPEN] + [51, 52] for s in range(3)}
    every = [o for o in range(nops)]
    some = [0, 3, 4, 6, 10, 13, 16, 19, 20, 26, 32, 35, 42, 48, 49, 51, 53, 54]

    js = [(t, opens[s], 3 if q else 4, i) for t in so for s in range(3) for i in range(len(opens[s]))]
    run.section("all sequences of opens", book, "sequence", js, sequences, None)
    js = [(t, every, 2, i) for t in (so if not q else ["shake"]) for i in range(nops)]
    run.section("all pairs of operations", book, "pair", js, sequences, None)
    if not q:
        run.section("all triples of operations", book, "triple", [(t, some, 3, i) for t in so for i in range(len(some))], sequences, None)
    run.sample({"section": "sequences", "operations": [so["shake"].h_opname(o).decode() for o in opens[0]], "depth": 3 if q else 4})

    def interleave(job):
        tag, a, b, full, part, parts = job
        l, x = ready(tag), Res()
        l.h_interleave(a, b, full, part, parts, C.byref(x))
        return job, x.cases, x.accepted if part == 0 else 0, x.bad, x.msg.decode()
    A = [16 * s + v for s in range(3) for v in (0, 15)] + [49, 50, 53, 54, 10, 26, 42, 13, 48, 55]
    B = [0, 1, 16, 17, 32, 33, 49, 50] if q else [o for o in range(nops) if o not in (29, 45)]
    heavy = {10, 11, 13, 26, 27, 29, 42, 43, 45, 48, 54, 55}
    js = []
    for t in (["shake"] if q else list(so)):
        for a in A:
            if q:
                # sign, keygen: the first visit of every block, against itself and one open; the others: first, second and last visit
                js += [(t, a, b, -1, p, 8) for b in {10: (10, 1), 42: (42,), 13: (13,), 54: (54, 1), 55: (55,)}.get(a, ()) for p in range(8)]
                js += [(t, a, b, 0, 0, 1) for b in {0: (1, 16, 33, 49), 16: (17, 0), 32: (33, 0), 49: (49, 1), 50: (50,), 53: (0, 49)}.get(a, ())]
            else:
                # the long ones: the first visit of every block; the others: first, second and last visit, against every short operation
                if a in heavy:
                    js += [(t, a, b, -1, p, 8) for b in (1, 16, 33, 49, a) for p in range(8)]
                else:
                    js += [(t, a, b, 0, p, 4) for b in dict.fromkeys([o for o in B if o not in heavy] + [a]) for p in range(4)]
    run.section("a second call at every block", book, "interleaved", js, interleave, "blocks")
    if not q:
        js = [(t, a, b, 1, p, 8) for t in so for a, b in ((0, 1), (0, 49), (16, 1), (32, 49), (49, 0)) for p in range(8)]
        run.section("a second call at every visit of every block", book, "interleaved-full", js, interleave, None)
    run.sample({"section": "interleavings", "first": [so["shake"].h_opname(o).decode() for o in A], "second": [so["shake"].h_opname(o).decode() for o in B]})
    run.note(rule="one case = one sequence of calls, or one pair of calls of which the second runs completely at one basic-block boundary of the first; every outcome (return code, all output bytes, "
             "generator state) must be the one of a fresh process", exhaustive=True)
    run.assumptions.append("a call that runs in the middle runs on the same stack, at basic-block boundaries (not between two instructions of a block); the deterministic generator DRBG_ctx is the one "
                           "shared object and is put back after the second call")
