"""Loads /repo/pythonref with the polyntt stand-in; exceptions of the code under test are kept apart from harness errors."""
import contextlib, importlib, io, os, sys
from .core import REPO, ROOT

PYREF = os.path.join(REPO, "pythonref")


def load(run, *names):
    for p in (os.path.join(ROOT, "vf", "stubs"), PYREF):
        if p not in sys.path:
            sys.path.insert(0, p)
    out = []
    for n in names:
        try:
            out.append(importlib.import_module(n))
        except Exception as e:  # the module does not even load
            run.fail("import:%s" % n, "module %s does not load: %r" % (n, e))
            raise LoadFailed(n)
    return out if len(out) != 1 else out[0]


class LoadFailed(Exception):
    pass


def quiet(fn, *a, **k):
    """(value, None) or (None, exception)."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k), None
    except Exception as e:
        return None, e


def hang_guard(seconds):
    import signal

    def bang(*_):
        raise TimeoutError("no answer within %d s" % seconds)
    signal.signal(signal.SIGALRM, bang)
    signal.alarm(seconds)


KEYS = {}


def keys(run, n):
    """(f, g, F, G) lists of the published vectors for degree n, checked independently."""
    m = load(run, "scripts.sign_KAT")
    return [(d["f"], d["g"], d["F"], d["G"]) for d in m.sign_KAT[n]]


def guarded(seconds, fn, *a, **k):
    """fn(...) or TimeoutError; usable inside workers."""
    import signal
    hang_guard(seconds)
    try:
        return fn(*a, **k)
    finally:
        signal.alarm(0)


def fast_keccak(run):
    """Replace the slow permutation by the compact C one when (and only when) that leaves outputs unchanged; P01 checks the original."""
    import ctypes as C
    import numpy as np
    from . import cbuild, spec
    keccak, shake = load(run, "keccak", "shake")
    K = getattr(keccak, "Keccak", None)
    if K is None or not hasattr(K, "F1600"):
        return False
    f = C.CDLL(cbuild.Lib(run).build("keccakf", srcs=[], harness=("keccakf.c",))).keccakf
    orig = K.F1600

    def fast(self):
        st = np.ascontiguousarray(self.state, dtype=np.uint64)
        f(st.ctypes.data_as(C.c_void_p))
        if st is not self.state:
            self.state = st

    def stream():
        h = shake.SHAKE.new()
        h.update(b"probe" * 60)
        h.flip()
        return h.read(300)
    a = quiet(stream)[0]
    K.F1600 = fast
    if quiet(stream)[0] != a:
        K.F1600 = orig
        return False
    return True
