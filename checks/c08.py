"""C08: native streaming hash functions: any chunking of input and output gives the one-shot specification stream."""
import hashlib
import ctypes as C
from vf import cbuild
from vf.jobs import run_jobs, cut

LEVEL = "model_checking"


def main(run):
    lib = cbuild.cdll(run, "xof", harness=("xof_h.c", "ref.c"))
    deep = not run.quick

    def sec(name, jobs):
        run.section(name, lambda r: run_jobs(r, lib, jobs, name, explored=("n_edges", "n_states")))

    def selfcheck(run):
        # the specification stream itself against an unrelated implementation
        for L in list(range(0, 300)) + [1000]:
            d = bytes((i * 31 + L) & 255 for i in range(L))
            out = C.create_string_buffer(300)
            lib.ref_shake256(d, C.c_size_t(L), out, C.c_size_t(300))
            if out.raw != hashlib.shake_256(d).digest(300):
                raise RuntimeError("oracle broken")
            run.count("oracle_cross_checks")
        from Crypto.Hash import keccak
        for L in list(range(0, 300)) + [1000]:
            d = bytes((i * 31 + L) & 255 for i in range(L))
            out = C.create_string_buffer(32)
            lib.ref_keccak256(d, C.c_size_t(L), out)
            k = keccak.new(digest_bits=256)
            k.update(d)
            if out.raw != k.digest():
                raise RuntimeError("oracle broken")
            run.count("oracle_cross_checks")
    run.section("oracle", selfcheck)
    top = 420 if not deep else 1400
    sec("two-pieces", [("h_split2", k, a, b, 1 if a < 300 or deep else 3) for k in (0, 1) for a, b in cut(0, top, 24)])
    sec("chunk-trees", [("h_tree", k, f, 3 if deep else 2, 2) for k in (0, 1) for f in range(18)])
    sec("chunk-trees-deep-output", [("h_tree", k, f, 1, 4 if deep else 3) for k in (0, 1) for f in range(18)])
    sec("phases", [("h_phase",)])
    sec("hash-alignments", [("h_hash", a, b) for a, b in cut(0, 700 if not deep else 4200, 16)])
    sec("single-bits", [("h_bits", k, n) for k in (0, 1) for n in ((1, 8, 135, 136, 137) if not deep else (1, 7, 8, 9, 40, 135, 136, 137, 272, 300))])
    sec("long", [("h_long", k, w) for k in (0, 1) for w in (0, 1)])
    run.note(model="state = (bytes absorbed, phase, bytes squeezed); every transition is executed on the real context (cloned at each node) and its output compared with the specification stream; states are counted per worker process",
             exhaustive=True)
    run.sample("inject 135, inject 1, flip, extract 31, extract 33")
    run.sample("every split a+(L-a) for every L < %d" % top)
