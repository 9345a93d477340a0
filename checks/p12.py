"""P12: the Python integer sampler has exactly the specified distribution and consumes randomness as the reference does."""
import hashlib, math
from decimal import Decimal as D
from vf import gauss, pyref, spec
from vf.cases import section, split
from vf.tape import Tape, bisect, explore

LEVEL = "model_checking"


def main(run):
    sam, rng, mk = pyref.load(run, "samplerz", "rng", "mkgauss")
    q = run.quick
    bounds = explore(run, sam)

    def expo(job):
        lo, hi, st = job
        for i in range(lo, hi, st):
            x = i * math.log(2) / 65536
            for ccs in (1.0 - 2 ** -53, 0.75, 0.5, 0.61328125):
                y = sam.approxexp(x, ccs)
                e = D(ccs) * (-D(x)).exp() * 2 ** 64
                yield "exp:%d:%r" % (i, ccs), None if abs(D(y) - e) <= e * D(2) ** -40 else "approxexp(%r, %r) = %d, exact %s" % (x, ccs, y, e), 1
    if hasattr(sam, "approxexp"):
        st = 64 if q else 4
        section(run, "exponential", [(a, a + 4096, st) for a in range(0, 65536, 4096)], expo, what="transitions", nt="grid_points")

    def chacha(job):
        """The generator: every position of a block for every kind of read, several seeds and counter carries."""
        for seed, plan in job:
            g, p = gauss.Gen(seed, 6), rng.ChaCha20(seed)
            why = None
            for i, op in enumerate(plan):
                got = p.randombytes(9) if op == "w" else p.randombytes(1)
                want = g.u64() + g.u8() if op == "w" else g.u8()
                if bytes(got) != want:
                    why = "read %d (%s) differs from the reference generator" % (i, op)
                    break
            yield "%s:%s" % (seed.hex()[-16:], plan[:20] + str(len(plan))), why, 1
    seeds = [bytes(range(56)), bytes(48) + b"\xff" * 8, hashlib.shake_256(b"p12%d" % run.seed).digest(48) + b"\xfc\xff\xff\xff" + bytes(4), hashlib.shake_256(b"x").digest(48) + b"\xff\xff\xff\xff\x01\0\0\0"]
    more = [hashlib.shake_256(b"y").digest(48) + (2 ** k - d).to_bytes(8, "little") for k in (8, 16, 31, 32, 33, 48, 63) for d in (8, 1, 0)] + [bytes(48) + (2 ** 64 - 8).to_bytes(8, "little")]
    plans = ["b" * k + "w" + "b" + "w" * 3 for k in range(490, 530)] + ["w" * 60 + "b" * k + "w" * 60 for k in range(0, 60)] + ["wbb" * 150, "wbbbb" * 90, "b" * 1600]
    if q:
        plans = plans[::2] + plans[12:16]
    section(run, "generator", split([(s, p) for s in seeds for p in plans] + [(s, p) for s in more for p in plans[20:60:10] + ["b" * 1600]], 16), chacha, what="traces_validated_against_impl", nt="generator_histories")

    def mkg(job):
        """Key-coefficient sampler: every threshold of its table against the exact Gaussian of the specification."""
        GS = D("1.17") * (D(spec.Q) / D(2048)).sqrt()
        w = {k: (-(D(k * k)) / (2 * GS * GS)).exp() for k in range(-60, 61)}
        tot = sum(w.values())
        # first draw decides zero, second the magnitude
        def val(a, b):
            return mk.mkgauss(Tape(a.to_bytes(8, "little") + b.to_bytes(8, "little")), 10)
        t0 = bisect(0, 2 ** 63 - 1, lambda v: val(v, 0) == 0)
        yield "zero", None if t0 == gauss.KEYTAB[0] and abs(D(t0) / 2 ** 63 - w[0] / tot) < D(2) ** -40 else "P(0) is %d/2^63" % t0, 1
        cum = D(0)
        for k in range(1, 27):
            # v = k is chosen when the second draw is in [gauss[k+?]...]; locate both edges
            hi = bisect(0, 2 ** 63 - 1, lambda v: abs(val(2 ** 63 - 1, v)) > k) if k < 26 else 0
            cum += 2 * w[k] / tot
            p = D(hi) / 2 ** 63
            want = 1 - cum / (1 - w[0] / tot)
            yield "mag%d" % k, None if hi == gauss.KEYTAB[k] and abs(p - want) < D(2) ** -40 + want * D(2) ** -20 else "P(|v| > %d) is %d/2^63, the reference table says %d" % (k, hi, gauss.KEYTAB[k]), 1
        for k in (0, 5, 2 ** 61, 2 ** 63 - 1):
            m = val(2 ** 63 - 1, k)
            yield "sign%d" % k, None if val(2 ** 64 - 1, k) == -m and val(2 ** 63 - 1, k + 2 ** 63) == m else "sign handling", 1
        for lg in range(1, 11):
            # smaller degrees add 2^(10-logn) independent draws
            t = Tape((2 ** 63 - 1).to_bytes(8, "little") * 2)
            v = mk.mkgauss(t, lg)
            yield "sum%d" % lg, None if t.p == 16 << (10 - lg) else "%d bytes read" % t.p, 1
    section(run, "key-coefficients", [0], mkg, what="transitions", nt="thresholds")
    run.sample({"path": "z0=3, b=1, mu=-7.75, sigma=1.5", "compared": "exact acceptance threshold (64 bits) against the discrete Gaussian"})
    run.note(model="sampler abstracted to its decision paths (base value, sign, comparison byte); each path located exactly on the code by bisection over its full input width",
             bounds=bounds)
