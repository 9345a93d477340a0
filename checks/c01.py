"""C01: every honestly produced signature is accepted and gives the message back."""
import os
from ctypes import c_long
from vf import cbuild, native

LEVEL = "exploration"
# (native variant index, scheme); epervier always hashes with SHAKE256
VARIANTS = [(0, 0), (1, 0), (0, 1), (1, 1), (0, 2)]


def lengths(run):
    """(lo, hi, step) blocks of message lengths; every length of each block is signed."""
    if run.quick:
        dense = [(0, 330, 1)]
    else:
        dense = [(0, 2300, 1)]
    edges = [255, 256, 512, 1023, 1024, 2047, 2048, 3300, 4055, 4056, 4057, 4095, 4096, 4097, 8192, 65535, 65536, 65577]
    # around every sponge-block boundary of nonce||message (rate 136) and of the Keccak input chunking
    edges += [136 * k - 40 + d for k in (3, 8, 16, 30, 31) for d in (-1, 0, 1)]
    return dense, sorted(set(edges))


def main(run):
    libs = native.both(run, cflags=("-include", os.path.join(cbuild.HARN, "adverse.h")))
    dense, edges = lengths(run)

    def work(job):
        vi, sch, kseed, lo, hi, step, alias, pat = job
        nv = libs[vi]
        r, pk, sk = nv.keypair(sch, native.seed48("c01", run.seed, kseed, sch))
        if r != 0:
            return (job, 1, 0, 1, "key generation failed: %d" % r)
        nv.seed(native.seed48("c01s", run.seed, job))
        x = nv.call("h_complete", sch, pk, sk, c_long(lo), c_long(hi), c_long(step), alias, pat)
        return (job, x.cases, x.accepted, x.bad, x.msg.decode())

    def go(run, jobs):
        for out in run.pmap(work, jobs):
            if out is None:
                continue
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", acc)
            if bad:
                vi, sch = job[:2]
                run.fail("%s:%s" % (libs[vi].name(sch), msg), "%d of %d honest signatures not usable; first: %s (key seed %d)" % (bad, cases, msg, job[2]), job=job)

    def jobs_len(alias, pat, nkeys, blocks, edge):
        js = []
        for vi, sch in VARIANTS:
            for k in range(nkeys):
                for lo, hi, st in blocks:
                    step = max(1, (hi - lo) // 6)
                    for a in range(lo, hi, step):
                        js.append((vi, sch, k, a, min(hi, a + step), st, alias, pat))
                for e in edge:
                    js.append((vi, sch, k, e, e + 1, 1, alias, pat))
        return js

    run.section("every-length", go, jobs_len(0, 0, 1 if run.quick else 2, dense, edges))
    for pat in (1, 2):
        run.section("content-%d" % pat, go, jobs_len(0, pat, 1, [(0, 20, 1)], []))
    # in-place use: the message lies inside the output buffer, at each offset around the header
    for off in (0, 1, 2, 41, 42, 43, 60, 300):
        run.section("in-place-%d" % off, go, jobs_len(off + 1, 0, 1, [(0, 6, 1)] if run.quick else [(0, 150, 1)], [64, 700]))
    run.section("more-keys", go, [(vi, sch, k, 0, 3, 1, 0, 0) for vi, sch in VARIANTS for k in range(10, 22 if run.quick else 210)])
    run.sample({"variant": "falcon-shake", "message_length": 0, "result": "accepted, message returned"})
    run.sample({"lengths_dense": dense, "lengths_edges": edges})
    run.note(rule="each case signs one message with the tree's own key and checks: the independent specification verifier accepts, "
             "the tree's verifier accepts and returns the identical message, lengths and layout as advertised; non-trivial = signed and opened",
             exhaustive=True)
    run.assumptions.append("key and signing randomness is one deterministic stream per block; all lengths/placements/contents listed are enumerated, keys and nonces are a fixed finite list")
