"""C06: arithmetic of the verifier and of key reconstruction is exact in Z_q[X]/(X^n+1), for every degree."""
from vf import cbuild
from vf.jobs import run_jobs, cut

LEVEL = "exploration"


def main(run):
    lib = cbuild.cdll(run, "ring", harness=("ring_h.c", "ref.c"))
    deep = not run.quick
    R = range(1, 11)

    def sec(name, jobs):
        run.section(name, lambda r: run_jobs(r, lib, jobs, name))
    sec("oracle-selfcheck", [("h_selfcheck", l, 20) for l in R])
    sec("transform-all-pairs-degree-2", [("h_ntt_pairs", a, b) for a, b in cut(0, 12289, 16)])
    sec("transform-basis", [("h_ntt_basis", l, a, b) for l in R for a, b in cut(0, 1 << l, 8 if l > 6 else 1)])
    sec("transform-values", [("h_ntt_values", l, p) for l in ((9,) if not deep else R)
                             for p in sorted({0, 1, 255, 256, 511} if l == 9 else {0, (1 << l) - 1})])
    sec("division-all-pairs", [("h_div", a, b) for a, b in (cut(0, 12289, 32))])
    sec("product-all-pairs", [("h_mul", a, b) for a, b in cut(-330, 331, 16)])
    sec("monomial-grid", [("h_monomials", l, a, b, 1 if l < 7 or deep else 24) for l in R for a, b in cut(0, 1 << l, 8 if l > 5 else 1)])
    sec("dense", [("h_dense", l, 60 if run.quick else 2000, run.seed * 77 + l + 13 * k) for l in R for k in range(2)])
    sec("zero-sets", [("h_zeros", l, a, b, max(1, (1 << l) // (8 if l > 6 and not deep else 64))) for l in R for a, b in cut(0, 1 << l, 8 if l > 5 else 1)])
    sec("small-keys", [("h_keys_small", a, b) for a, b in cut(-127, 128, 16)])
    sec("monomial-keys", [("h_keys_mono", l, a, b, 1 if l < 7 or deep else 24) for l in R for a, b in cut(0, 1 << l, 8 if l > 5 else 1)])
    sec("key-range", [("h_keys_range", l, a, b) for l in R for a, b in cut(0, 1 << l, 8 if l > 5 else 1)])
    run.sample({"transform": "all 12289^2 inputs of degree 2"})
    run.sample({"key recovery": "h = x/y for the residues enumerated"})
    run.note(rule="each case is one exact computation compared with an independent implementation (itself compared with schoolbook products)", exhaustive=True)
