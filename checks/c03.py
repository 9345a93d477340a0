"""C03: native encodings are canonical: decode accepts exactly the image of encode, and the two are inverse."""
import ctypes as C
from vf import cbuild, native
from vf.native import Res

LEVEL = "exploration"
COMP, COMP16, MODQ, MODQ16, TRIM8, TRIM16 = range(6)
NAME = ["compressed", "sig16", "modq14", "modq16", "trim8", "trim16"]


def main(run):
    lib = cbuild.cdll(run, "codec", harness=("codec_h.c", "ref.c"))

    def go(run, jobs):
        def work(job):
            x = Res()
            getattr(lib, job[0])(*job[1:], C.byref(x))
            return job, x.cases, x.accepted, x.bad, x.msg.decode()
        for out in run.pmap(work, jobs):
            if out is None:
                continue
            job, cases, acc, bad, msg = out
            run.count("evaluations", cases)
            run.count("distinct_nontrivial", acc)
            if bad:
                run.fail("%s:%s" % (NAME[job[1]], msg), "%d of %d cases differ; first: %s" % (bad, cases, msg), job=job)

    def cut(lo, hi, k):
        st = max(1, (hi - lo + k - 1) // k)
        return [(a, min(hi, a + st)) for a in range(lo, hi, st)]

    deep = not run.quick
    js = []
    for ln in (1, 2, 3):
        js += [("h_all_strings", COMP, 0, 1, ln, a, b) for a, b in cut(0, 256, 16)]
    if deep:
        js += [("h_all_strings", COMP, 0, 1, 4, a, a + 1) for a in range(256)]
        js += [("h_all_strings", COMP, 0, 2, 5, a, a + 1) for a in (0, 1, 0x7f, 0x80, 0x81, 0xff)][:0]
    for bits in range(2, 9):
        ln = (2 * bits + 7) // 8
        js.append(("h_all_strings", TRIM8, bits, 1, ln, 0, 256))
    for bits in range(2, 13):
        ln = (2 * bits + 7) // 8
        js += [("h_all_strings", TRIM16, bits, 1, ln, a, b) for a, b in cut(0, 256, 4)]
    run.section("all-short-strings", go, js)
    run.section("all-pairs", go, [("h_all_pairs", COMP, 0, a, b, 2049) for a, b in cut(-2049, 2050, 16 if deep else 16) if deep or True][::1 if deep else 4])
    js = []
    for logn in range(1, 11):
        n = 1 << logn
        ps = max(1, n // (64 if deep else 8))
        for fill in (0, 1, -127, 128, 2047) if deep else (0, -127, 2047):
            js += [("h_grid", COMP, 0, logn, p, p + 1, 1, -2060, 2060, fill, 0) for p in sorted({0, 1, n // 2, n - 1}) if p < n]
        for a, b in cut(0, n, 8):
            js.append(("h_grid", COMP, 0, logn, a, b, 1 if deep or n < 128 else 4, -2, 2, 0, 1))
        for a, b in cut(-140, 141, 4):
            js.append(("h_grid", COMP, 0, logn, n - 1, n, 1, a, b - 1, 3, 1))
    run.section("compressed", go, js)
    js = [("h_grid", COMP, 0, 9, p, p + 64, 1 if deep else 8, -2047, 2047, 0, 0) for p in range(0, 512, 64)]
    js += [("h_grid", COMP, 0, 9, 0, 512, 511, -32768, 32767, 5, 0)]
    run.section("compressed-512", go, js)
    js = []
    for logn in range(1, 11):
        n = 1 << logn
        for fill in (0, 128, -2047):
            js += [("h_comp_raw", COMP, 0, logn, a, b, 1 if deep or n <= 64 else n // 64, 40, fill, 1) for a, b in cut(0, n, 2 if n < 64 else 8)]
            js.append(("h_comp_raw", COMP, 0, logn, n - 1, n, 1, 40, fill, 1))
    run.section("over-long-fields", go, js)
    js = []
    for k, lim in ((MODQ, 65535), (MODQ16, 65535), (COMP16, 32767)):
        lo = 0 if k != COMP16 else -32768
        for logn in (1, 2, 3, 5, 9):
            n = 1 << logn
            pos = (sorted({0, 1, n // 2, n - 2, n - 1}) if deep or n < 32 else [0, n - 1]) if n > 2 else [0, 1]
            for p in pos:
                js += [("h_grid", k, 0, logn, p, p + 1, 1, a, b - 1, 0, 0) for a, b in cut(lo, lim + 1, 4)]
            js.append(("h_grid", k, 0, logn, n - 1, n, 1, 12280 if k != COMP16 else -6150, 12290 if k != COMP16 else -6135, 6144, 1))
        step = 1 if deep else 16
        js += [("h_fields", k, 0, 9, a, b, step) for a, b in cut(0, 512, 16)]
        js += [("h_fields", k, 0, l, 0, 1 << l, 1) for l in (1, 2, 3)]
        for v in (12288, 12289, 6144, 6145, 2047, 2048):
            js += [("h_grid", k, 0, 9, a, b, 1, v - 1, v + 1, 0, 0) for a, b in cut(0, 512, 4)]
    run.section("modq", go, js)
    js = []
    for bits in range(2, 9):
        for logn in range(1, 11):
            n = 1 << logn
            js.append(("h_grid", TRIM8, bits, logn, 0, n, max(1, n // (64 if deep else 16)), -128, 127, 0, 0))
            js.append(("h_grid", TRIM8, bits, logn, n - 1, n, 1, -1, 1, 1, 1))
            js.append(("h_fields", TRIM8, bits, logn, 0, n, 1 if deep or n <= 512 else 16))
    for bits in (5, 6, 8):
        js.append(("h_grid", TRIM8, bits, 9, 0, 512, 1, -128, 127, 1, 0))
    for bits in range(2, 17):
        js.append(("h_grid", TRIM16, bits, 3, 0, 8, 1, -(1 << (bits - 1)), (1 << (bits - 1)) - 1 if bits == 16 else (1 << (bits - 1)), 0, 0))
        js.append(("h_fields", TRIM16, bits, 3, 0, 8, 1))
        for logn in (1, 2, 3, 4, 9, 10):
            top = (1 << (bits - 1)) - 1
            js += [("h_grid", TRIM16, bits, logn, p, p + 1, 1, v, v + 2, 0, 1) for p in ((1 << logn) - 1, (1 << logn) // 2) for v in (-top - 1, -1, min(top - 1, 32765))]
    run.section("fixed-width", go, js)

    # private keys through the signing API: the one forbidden field value at every position is refused
    nv = native.Native(cbuild.cdll(run, "api", harness=("api.c", "ref.c")), 0)

    def keys_one(sch):
        fails, n = [], 0
        fg, FG = lib.h_fg_bits(9), lib.h_FG_bits(9)
        r, pk, sk = nv.keypair(sch, native.seed48("c03", run.seed, sch))
        v = int.from_bytes(sk[1:], "big")
        fields = [(i * fg, fg) for i in range(1024)] + [(1024 * fg + i * FG, FG) for i in range(512)]
        if 1024 * fg + 512 * FG != 8 * 1280:
            return [("sk-layout", "private key layout does not fill 1280 bytes")], 0
        for h in range(256):
            if h != sk[0]:
                n += 1
                if nv.sign(sch, b"x", bytes([h]) + sk[1:])[0] == 0:
                    fails.append(("sk-header-%s-%02x" % (native.NAMES[sch], h), "private key with header %02x was accepted" % h))
        for idx, (o, w) in enumerate(fields):
            sh = 8 * 1280 - o - w
            nvv = (v & ~(((1 << w) - 1) << sh)) | ((1 << (w - 1)) << sh)
            n += 1
            if nv.sign(sch, b"x", sk[:1] + nvv.to_bytes(1280, "big"))[0] == 0:
                fails.append(("sk-field-%s-%d" % (native.NAMES[sch], idx), "private key with the forbidden value in coefficient %d was used for signing" % idx))
        return fails, n

    def keys(run):
        for out in run.pmap(keys_one, (0, 1, 2), timeout=200):
            if out:
                run.count("evaluations", out[1])
                run.count("distinct_nontrivial", out[1])
                for k, w in out[0]:
                    run.fail(k, w)
    run.section("private-keys", keys)
    run.sample({"codec": "compressed", "all 3-byte strings at degree 2": 1 << 24})
    run.note(rule="each case is one byte string decoded, or one coefficient vector encoded and decoded, compared with a bit-level specification; "
             "non-trivial = a valid encoding", exhaustive=True)
