import ctypes as C, hashlib, os
from . import cbuild

PKLEN = {0: 897, 1: 1025, 2: 1025}
NAMES = {0: "falcon", 1: "zknox", 2: "epervier"}


class Res(C.Structure):
    _fields_ = [("cases", C.c_long), ("accepted", C.c_long), ("bad", C.c_long), ("msg", C.c_char * 400)]


def seed48(*parts):
    return hashlib.shake_256(repr(parts).encode()).digest(48)


class Native:
    """ctypes face of the native tree + harness/api.c, one per hash variant."""

    def __init__(self, lib, xof):
        self.l, self.xof = lib, xof
        self.tag = "keccak" if xof else "shake"
        lib.h_forge.restype = C.c_long

    def name(self, scheme):
        return "%s-%s" % (NAMES[scheme], self.tag)

    def seed(self, s):
        self.l.h_seed(s)

    def keypair(self, scheme, seed):
        pk, sk = C.create_string_buffer(PKLEN[scheme]), C.create_string_buffer(1281)
        r = self.l.h_keypair(scheme, seed, pk, sk)
        return r, pk.raw, sk.raw

    def sign(self, scheme, m, sk):
        sm = C.create_string_buffer(len(m) + 2400)
        n = C.c_ulonglong(0)
        r = self.l.h_sign(scheme, sm, C.byref(n), m, C.c_ulonglong(len(m)), sk)
        return r, sm.raw[:n.value]

    def open(self, scheme, sm, pk):
        m = C.create_string_buffer(len(sm) + 1)
        n = C.c_ulonglong(0)
        r = self.l.h_open(scheme, m, C.byref(n), sm, C.c_ulonglong(len(sm)), pk)
        return r, m.raw[:n.value] if r == 0 else None

    def call(self, fn, *a):
        r = Res()
        getattr(self.l, fn)(*a, C.byref(r))
        return r


def both(run, extra=(), builder=None, **kw):
    L = builder or cbuild.Lib(run)
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(L.build, "shake", harness=("api.c", "ref.c") + tuple(extra), **kw)
        b = ex.submit(L.build, "keccak", harness=("api.c", "ref.c") + tuple(extra), eth=True, **kw)
        return Native(C.CDLL(a.result()), 0), Native(C.CDLL(b.result()), 1)
