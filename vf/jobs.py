"""Runs a list of C enumeration jobs (name, int args...) in crash-isolated workers and books the results."""
import ctypes as C
from .native import Res


KINDS = {"i8": C.c_int8, "u16": C.c_uint16, "i16": C.c_int16, "d": C.c_double}


def arg(a):
    """A list is an int array, (kind, list) an array of another type."""
    if isinstance(a, tuple):
        return (KINDS[a[0]] * len(a[1]))(*a[1])
    return (C.c_int * len(a))(*a) if isinstance(a, list) else a


def cut(lo, hi, k):
    st = max(1, (hi - lo + k - 1) // k)
    return [(a, min(hi, a + st)) for a in range(lo, hi, st)]


def run_jobs(run, lib, jobs, prefix, nontrivial="cases", timeout=None, explored=None):
    """explored: (edge counter, state counter) exported by the harness, booked as transitions and states instead of evaluations."""
    def work(job):
        mark = [C.c_long.in_dll(lib, s).value for s in explored or ()]
        x = Res()
        args = [arg(a) for a in job[1:]]
        getattr(lib, job[0])(*args, C.byref(x))
        job = (job, [C.c_long.in_dll(lib, s).value - m for s, m in zip(explored or (), mark)])
        return job, x.cases, x.accepted, x.bad, x.msg.decode(errors="replace")
    for out in run.pmap(work, jobs, timeout=timeout):
        if out is None:
            continue
        (job, ex), cases, acc, bad, msg = out
        if ex:
            run.count("transitions", ex[0])
            run.count("states", ex[1])
            run.count("traces_validated_against_impl", cases)
        else:
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", cases if nontrivial == "cases" else acc)
        if bad:
            run.fail("%s:%s" % (prefix, msg), "%d of %d cases differ; first: %s" % (bad, cases, msg), job=str(job))
