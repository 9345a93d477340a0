"""C07: hash-to-point is the specified rejection sampling under every answer of the extendable-output function."""
from vf import cbuild
from vf.jobs import run_jobs, cut

LEVEL = "exploration"
OVER = [0, 65, 67, 71, 77, 86, 100, 122, 154, 205, 287]


def main(run):
    B = cbuild.Lib(run)
    stub = B.load("h2p-stub", harness=("h2p_h.c", "ref.c"), exclude=("shake.c", "keccak_prng.c"))
    real = B.load("h2p-real", harness=("h2p_h.c", "ref.c"), hflags=["-DH2P_REAL"])
    deep = not run.quick
    R = range(1, 11)

    def sec(name, lib, jobs):
        run.section(name, lambda r: run_jobs(r, lib, jobs, name, nontrivial="cases" if lib is real else "rejecting"))
    M = lambda l: (1 << l) + OVER[l]
    sec("every-sample-value", stub, [("h_values", l, p) for l in R for p in ((0, (1 << l) - 1, M(l) - 1) if l < 9 or deep else (0,))])
    sec("rejected-runs", stub, [("h_runs", l, a, b, 1 if l < 7 or deep else 8) for l in R for a, b in cut(0, M(l), 8)] if deep else
        [("h_runs", l, a, b, 1 if l < 7 else 16) for l in range(1, 10) for a, b in cut(0, M(l), 8)])
    sec("rejected-pairs", stub, [("h_pairs", l, a, b, 1 if l < 8 or deep else 8) for l in (R if deep else range(1, 10)) for a, b in cut(0, M(l), 16)])
    bits = 16 if deep else 12
    sec("all-patterns", stub, [("h_masks", l, base, bits if l < 9 else min(bits, 10), a, b) for l in (1, 2, 3, 4, 7, 9)
                               for base in sorted({0, (1 << l) - 4 if l > 2 else 1, M(l) - bits}) for a, b in cut(0, 1 << (bits if l < 9 else min(bits, 10)), 4)])
    sec("periodic", stub, [("h_periodic", l) for l in R])
    top = 900 if not deep else 5200
    sec("real-xof", real, [("h_real", 9, a, b, 0) for a, b in cut(0, top, 32)] +
        [("h_real", l, a, b, p) for l in R for p in (0, 1, 2) for a, b in cut(0, 300 if deep else 140, 4)] +
        [("h_real", 9, c - 2, c + 3, p) for c in (4056, 4096, 8192) for p in (0, 1)])
    run.sample({"degree": 2, "accepted sample positions": "every pair among 67"})
    run.sample({"degree": 512, "rejected samples": "every contiguous run"})
    run.note(rule="one case = one chosen answer stream of the XOF fed to the plain, constant-time and Keccak variants and compared with the specification; "
             "real-xof compares complete points for every input length; a case is non-trivial when its stream contains a rejected sample, or for real-xof always", exhaustive=True)
