"""C12: the native integer sampler has exactly the specified distribution; its generator is the specified stream for every read history."""
import ctypes as C, hashlib, itertools
from vf import cbuild, gauss
from vf.cases import section, split
from vf.tape import Tape, explore

LEVEL = "model_checking"


def main(run):
    lib = cbuild.cdll(run, "samp", harness=("samp_h.c",))
    q = run.quick

    class Sam:
        @staticmethod
        def basesampler(tape):
            n = C.c_int()
            z = lib.t_base(tape.d, len(tape.d), C.byref(n))
            tape.p += n.value
            return z

        @staticmethod
        def samplerz(mu, sigma, smin, randombytes):
            n = C.c_int()
            z = lib.t_sampler(randombytes.d, len(randombytes.d), C.c_double(mu), C.c_double(1 / sigma), C.c_double(smin), C.byref(n))
            randombytes.p += n.value
            return z
    bounds = explore(run, Sam, 1e-12)     # 1/sigma * sigmin == 1 to the last bit is outside the sampler's domain (fixed-point factor below 1)

    def prng(job):
        for seed, ctr, plan in job:
            s56 = hashlib.shake_256(seed).digest(56)
            if ctr is not None:
                s56 = s56[:48] + ctr.to_bytes(8, "little")
            g = gauss.Gen(s56, 12)
            want = b""
            for op in plan:
                if op in "wq":
                    want += g.u64()
                if op in "wb":
                    want += g.u8()
                n = int(op) if op.isdigit() else 64 * (ord(op) - 64) if op.isupper() else 0
                for _ in range(n):
                    want += g.u8()
            out = C.create_string_buffer(len(want) + 16)
            n = lib.t_prng(seed, len(seed), C.c_uint64(ctr or 0), ctr is not None, plan.encode(), out)
            yield "%s:%s:%s" % (seed.hex()[:8], ctr, plan[:40]), None if out.raw[:n] == want else "the generator stream differs from the specification for this history of reads", 1
    seeds = [(b"", None), (b"p12", None), (b"c%d" % run.seed, None), (b"carry", 0xfffffffc), (b"carry2", 0x1ffffffff), (b"wrap", 2 ** 64 - 9)] + [(b"ctr", 2 ** k - d) for k in (8, 16, 31, 32, 33, 48, 63) for d in (8, 1, 0)] + [(b"wrap2", 2 ** 64 - 8)]
    plans = ["b" * k + "w" + "b" + "w" * 3 for k in range(490, 530)] + ["w" * 60 + "b" * k + "w" * 60 for k in range(0, 60)] + ["wbb" * 150, "wbbbb" * 90, "b" * 1600, "q" * 300]
    plans += ["".join(p) + "bwb" for d in range(1, 4 if q else 6) for p in itertools.product("wb7GH", repeat=d)]
    plans += ["b" * k + x + "bq" for k in range(496, 513) for x in "19AH"]
    section(run, "generator", split([(s, c, p) for i, (s, c) in enumerate(seeds) for p in (plans if i < 6 or not q else plans[40:101:4] + plans[-8:])], 16), prng, what="traces_validated_against_impl", nt="generator_histories")
    run.sample({"path": "z0=3, b=1, mu=-7.75, sigma=1.5", "compared": "exact acceptance threshold (64 bits) of the native sampler against the discrete Gaussian"})
    run.note(model="sampler abstracted to its decision paths (base value, sign, comparison byte), each located exactly on the native code by bisection over its full input width; generator model = (block, position) with three kinds of read",
             bounds=bounds)
