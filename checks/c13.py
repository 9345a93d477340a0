"""C13: the native floating-point emulation is correctly rounded and the Fourier arithmetic built on it is exact."""
from vf import cbuild
from vf.jobs import run_jobs, cut

LEVEL = "exploration"


def main(run):
    lib = cbuild.cdll(run, "fpr", harness=("fpr_h.c",), ldflags=("-lquadmath",))
    q = run.quick

    def sec(name, jobs):
        run.section(name, lambda r: run_jobs(r, lib, jobs, name))
    size = [lib.h_mants(l) for l in (0, 1, 2)]
    a, b = (1, 2) if q else (2, 2)
    sec("constants", [("h_tables", 0)])
    sec("addition", [("h_add", a, lo, hi, 6 if q else 1) for lo, hi in cut(0, size[a], 16)])
    sec("multiplication", [("h_mul", b, lo, hi) for lo, hi in cut(0, size[b], 16)])
    sec("division", [("h_div", b, lo, hi) for lo, hi in cut(0, size[b], 32)])
    sec("root", [("h_sqrt", lo, hi) for lo, hi in cut(0, 65536, 16)])
    sec("rounding", [("h_round", b, e, e + 6) for e in range(-8, 64, 6)])
    sec("unary", [("h_unary", b)])
    sec("order", [("h_lt", b, lo, hi) for lo, hi in cut(0, size[b], 16)])
    sec("integers", [("h_int", lo, lo + 4) for lo in range(0, 63, 4)])
    n = 20000 if q else 400000
    sec("exponential", [("h_exp", lo, hi, n) for lo, hi in cut(0, n + 1, 16)])
    js = []
    for logn in range(1, 11):
        full = 6 << logn
        for kind in range(4):
            top = full if kind == 0 else min(full, 300)
            if q and logn > 6:
                top = {7: 200, 8: 128, 9: 64, 10: 32}[logn]
            js += [("h_fft", logn, kind, lo, hi) for lo, hi in cut(0, top, 1 if logn < 7 else 8)]
    sec("transform", sorted(js, key=lambda j: -j[1]))
    js = [("h_polyops", logn, lo, hi) for logn in range(10, 0, -1) for lo, hi in cut(0, (24 if logn > 7 else 100) * (1 if q else 20), 1 if logn < 7 else 8)]
    sec("pointwise", js)
    run.note(rule="every operand pair of a boundary class is executed on the real code and compared bit for bit with the IEEE hardware; transforms are compared with naive evaluation in extended precision", boundary_mantissas=size)
    run.sample("1.mant(all ones) + 2^-53*1.mant(0), both signs")
    run.sample("every multiple of 1/8 with both neighbours through rint, floor and trunc")
