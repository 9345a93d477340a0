"""G01: the Go binding is the native scheme for every input, stays within its memory, and draws fresh randomness whatever the schedule."""
import concurrent.futures as cf, itertools, os
from vf import gobind, native, spec
from vf.core import ROOT
from vf.cases import section, split
from vf.gobind import hx

LEVEL = "exploration"


def main(run):
    q = run.quick
    H = os.path.join(ROOT, "harness")
    with cf.ThreadPoolExecutor(3) as ex:
        a = ex.submit(gobind.build, run, "asan", os.path.join(H, "go", "main.go.txt"), asan=True)
        b = ex.submit(gobind.build, run, "stub", os.path.join(H, "go", "main.go.txt"), stub=os.path.join(H, "gostub.c"))
        nat = native.both(run)[0]
        prog, stub = a.result(), b.result()
    keys = {}

    def key(k):
        if k not in keys:
            keys[k] = nat.keypair(0, native.seed48("g01", run.seed, k))[1:]
        return keys[k]
    key(0), key(1)

    class Face:
        """One process per job; a death is reported for the call it happened on and a new process takes over."""
        def __init__(self):
            self.p = gobind.Proc(prog)

        def __call__(self, *a):
            try:
                return self.p.ask(*a)
            except gobind.Died as e:
                why = str(e)
                self.p.close()
                self.p = gobind.Proc(prog)
                return ["died", why]

    def verdict(face, sm, m, pk):
        """None or why VerifySignature is wrong on this input."""
        got = face("V", hx(sm), hx(m), hx(pk))
        if got[0] not in ("true", "false"):
            return " ".join(got)
        want = False
        if pk is not None and len(pk) == 897 and sm is not None and len(sm) >= 42:
            r, rec = nat.open(0, sm, pk)
            want = r == 0 and rec == (m or b"")
        return None if got[0] == str(want).lower() else "VerifySignature said %s, the native verifier says %s" % (got[0], want)

    # ---- sign and verify every message length, equal to the native signature for the same generator state
    def lengths(job):
        face = Face()
        pk, sk = key(0)
        for n in job:
            m = spec.shake_stream(b"g01 %d" % n, n)
            sd = native.seed48("g01s", run.seed, n)
            face("R", sd.hex())
            got = face("S", hx(m), hx(sk))
            nat.seed(sd)
            r, sm = nat.sign(0, m, sk)
            why = None
            if got[0] != "ok":
                why = " ".join(got)
            elif got[1] != sm.hex():
                why = "SignMessage gave %d bytes that are not the native signature of %d bytes" % (len(got[1]) // 2, len(sm))
            if why is None:
                why = verdict(face, sm, m, pk)
                for o in (m + b"\0", m[:-1] if m else b"x", bytes([m[0] ^ 1]) + m[1:] if m else b"\0", m[:-1] + bytes([m[-1] ^ 0x80]) if m else b"\0\0", None):
                    why = why or verdict(face, sm, o, pk)
            yield "message of %d bytes" % n, why, True
        face.p.close()
    dense = list(range(0, 70)) + list(range(600, 660, 3)) + [255, 256, 512, 637, 638, 639, 640, 641, 982, 983, 1023, 1024, 1025, 1026, 1330, 1331, 2047, 2048, 4096, 5000, 65536] if q else list(range(0, 2600)) + [4095, 4096, 65535, 65536, 100000, 1000000]
    section(run, "every message length", split(dense, 8), lengths)

    # ---- any lengths of any argument
    pk0, sk0 = key(0)
    nat.seed(native.seed48("g01f", run.seed))
    M = b"the message"
    _, SM = nat.sign(0, M, sk0)

    def shapes(job):
        what, ls = job
        face = Face()
        for n in ls:
            cut = lambda b: None if n < 0 else (b + bytes(max(0, n - len(b))))[:n]
            if what == "sk":
                got = face("S", hx(M), hx(cut(sk0)))
                if n == 1281:
                    why = None if got[0] == "ok" else " ".join(got)
                else:
                    why = None if got[0] == "err" else "a private key of %d bytes: %s" % (n, " ".join(got)[:160])
            elif what == "sk-zero":
                got = face("S", hx(M), hx(bytes(max(n, 0))))
                why = None if got[0] == "err" else "an all-zero private key of %d bytes: %s" % (n, " ".join(got)[:160])
            elif what == "pk":
                why = verdict(face, SM, M, cut(pk0))
            elif what == "sm":
                why = verdict(face, cut(SM), M, pk0)
            elif what == "sm-zero":
                why = verdict(face, bytes(max(n, 0)), bytes(max(n - 42, 0)), pk0)
            elif what == "declared":
                for sm in ([n >> 8 & 255, n & 255],):
                    why = verdict(face, bytes(sm) + SM[2:], M, pk0)
            elif what == "declared-long":
                why = verdict(face, bytes([n >> 8 & 255, n & 255]) + SM[2:] + bytes(1500), SM[42:] + bytes(1500), pk0)
            yield "%s of %d" % (what, n), why, True
        face.p.close()
    near = lambda c: list(range(c - 3, c + 4))
    few = lambda hi: sorted(set([-1] + list(range(0, 60)) + list(range(0, hi, 7)) + near(1281) + near(897) + near(len(SM)) + [1024, 1330, 2000]))
    rng = (lambda hi: few(hi)) if q else (lambda hi: range(-1, hi))
    decl = sorted(set(list(range(0, 720, 5 if q else 1)) + list(range(0, 65536, 509 if q else 3)) + near(len(SM) - 42 - len(M)) + [65535]))
    section(run, "every length of every argument", [(w, s) for w in ("sk", "sk-zero", "pk", "sm", "sm-zero") for s in split(rng(1400), 2 if q else 6)] + [(w, s) for w in ("declared", "declared-long") for s in split(decl, 2)], shapes)

    # ---- single-bit changes
    def flips(job):
        what, bits = job
        face = Face()
        for b in bits:
            sm, m, pk = bytearray(SM), bytearray(M), bytearray(pk0)
            {"sm": sm, "m": m, "pk": pk}[what][b >> 3] ^= 0x80 >> (b & 7)
            yield "%s bit %d" % (what, b), verdict(face, bytes(sm), bytes(m), bytes(pk)), True
        face.p.close()
    section(run, "every single-bit change", [("m", range(len(M) * 8))] + [("sm", s) for s in split(range(0, len(SM) * 8, 11 if q else 1), 4)] + [("pk", s) for s in split(range(0, 897 * 8, 17 if q else 1), 4)], flips)

    # ---- keys
    def keypairs(job):
        face = Face()
        for k in job:
            sd = native.seed48("g01k", run.seed, k)
            face("R", sd.hex())
            got = face("G")
            r, pk, sk = nat.keypair(0, sd)
            yield "key %d" % k, None if got == ["ok", pk.hex(), sk.hex()] else "GenerateKeypair differs from the native key generation: " + " ".join(got)[:100], True
        face.p.close()
    section(run, "key pairs", split(range(8 if q else 200), 4), keypairs)

    def fresh(job):
        what, n = job
        seen = {}
        for k in range(n):
            face = Face()
            got = face("G") if what == "key" else face("S", hx(M), hx(sk0))
            why = None if got[0] == "ok" else " ".join(got)
            for part, val in (("key", got[1]),) if what == "key" else (("nonce", got[1][4:84]), ("signature", got[1][-1000:])):
                if why is None and seen.setdefault((part, val), k) != k:
                    why = "two processes drew the same %s" % part
            got2 = face("G") if what == "key" else face("S", hx(M), hx(sk0))
            if why is None and (got2[0] != "ok" or got2[1] == got[1]):
                why = "two calls gave the same %s" % what
            yield "process %d: %s" % (k, what), why, True
            face.p.close()
    section(run, "fresh randomness in every process", [("key", 4 if q else 30), ("signature", 4 if q else 30)], fresh)

    # ---- every combination of concurrent calls
    def pairs(job):
        for c in job:
            p = gobind.Proc(stub)
            try:
                p.ask("C", c)
                why = None
            except gobind.Died as e:
                why = str(e)
            p.close()
            if b"OVERLAP" in p.err:
                why = "two calls that draw from the one native generator overlapped"
            yield "concurrent " + c, why, True
    section(run, "every combination of concurrent calls", split(["".join(c) for k in ((2,) if q else (2, 3, 4)) for c in itertools.combinations_with_replacement("GS", k)], 3), pairs)
    run.note(rule="each case is one call (or one set of concurrent calls) of the Go binding, built with AddressSanitizer on both sides of cgo, compared with the native library; all are non-trivial", exhaustive=True)
    run.assumptions.append("overlap of concurrent calls is observed in a stand-in for the native library whose calls wait 150 ms for one another")
