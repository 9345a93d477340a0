"""P13: the Python AES-256 CTR_DRBG is the SP 800-90A generator for every history of requests."""
import hashlib, itertools
from vf import pyref
from vf.drbg import Drbg
from vf.cases import section, split

LEVEL = "model_checking"


def main(run):
    mod = pyref.load(run, "drbg.aes256_ctr_drbg")
    q = run.quick
    R = mod.AES256_CTR_DRBG
    SEEDS = [bytes(48), b"\xff" * 48, bytes(range(48)), hashlib.shake_256(b"p13%d" % run.seed).digest(48)]
    SIZES = (0, 1, 15, 16, 17, 31, 32, 33, 48, 100)
    ADDS = (None, b"", b"a", b"x" * 47, b"\xff" * 48)

    def histories(job):
        for seed, pers, hist in job:
            r, d = Drbg(seed, pers), None
            key = "%s:%d:%s" % (seed[-1:].hex(), len(pers), [(n, -1 if a is None else len(a)) for n, a in hist])
            d, e = pyref.quiet(R, seed, pers)
            why = "construction raised %r" % e if e else None
            for i, (n, a) in enumerate(hist):
                if why:
                    break
                got, e = pyref.quiet(d.random_bytes, n, a)
                if e is not None or bytes(got) != r.read(n, a):
                    why = "request %d (%d bytes, additional %s) differs (%r)" % (i, n, a and len(a), e)
            yield key, why, len(hist) > 1
    H = [[(n, a) for n, a in zip(ns, as_)] for d in (1, 2) for ns in itertools.product(SIZES, repeat=d) for as_ in itertools.product(ADDS, repeat=d)]
    H += [[(n, None) for n in ns] for ns in itertools.product(SIZES[:6] if q else SIZES, repeat=3 if q else 4)]
    H += [[(n, None), (16, None)] for n in range(0, 300 if q else 2000)]
    # abstract states: number of blocks drawn since the last rekey is what distinguishes control states
    cs = [(s, p, h) for h in H for s in (SEEDS if len(h) == 1 else SEEDS[-1:]) for p in ((b"", b"p", b"q" * 48) if len(h) == 1 else (b"",))]
    section(run, "histories", split(cs, 16), histories, what="traces_validated_against_impl", nt="multi_request_traces")
    run.count("transitions", sum(len(h) for _, _, h in cs))
    run.count("states", len({(s, p, tuple(h[:i])) for s, p, h in cs for i in range(len(h) + 1)}))

    def wrap(job):
        """Counter carries at every byte, including the wrap of all 128 bits."""
        for bits in range(1, 129):
            for back in (1, 2, 3):
                d, r = R(SEEDS[2]), Drbg(SEEDS[2])
                v = (2 ** bits - back) % 2 ** 128
                if not isinstance(getattr(d, "V", None), bytes):
                    return
                d.V, r.v = v.to_bytes(16, "big"), v
                got, e = pyref.quiet(lambda: d.random_bytes(64) + d.random_bytes(5))
                yield "carry%d-%d" % (bits, back), None if e is None and got == r.read(64) + r.read(5) else "output after a counter carry differs (%r)" % e, 1
    section(run, "carries", [0], wrap, what="traces_validated_against_impl", nt="multi_request_traces")

    def refuse(job):
        for ln in list(range(0, 48)) + [49, 96]:
            yield "seed%d" % ln, None if isinstance(pyref.quiet(R, bytes(ln))[1], ValueError) else "seed of %d bytes accepted" % ln, 1
        for ln in (49, 64):
            yield "pers%d" % ln, None if isinstance(pyref.quiet(R, bytes(48), bytes(ln))[1], ValueError) else "personalization of %d bytes accepted" % ln, 1
            d, r = R(SEEDS[2]), Drbg(SEEDS[2])
            bad = pyref.quiet(d.random_bytes, 8, bytes(ln))[1] is None
            yield "add%d" % ln, "additional input of %d bytes accepted" % ln if bad else None if d.random_bytes(20) == r.read(20) else "refused request changed the state", 1
        a, b = R(SEEDS[1]), R(SEEDS[2])
        x = [a.random_bytes(20), b.random_bytes(20), a.random_bytes(20), b.random_bytes(20)]
        ra, rb = Drbg(SEEDS[1]), Drbg(SEEDS[2])
        yield "two-objects", None if x == [ra.read(20), rb.read(20), ra.read(20), rb.read(20)] else "two generators disturb each other", 1
        yield "os-entropy", None if R().random_bytes(32) != R().random_bytes(32) else "unseeded generators repeat", 1
    section(run, "refusals", [0], refuse, what="traces_validated_against_impl", nt="multi_request_traces")
    run.sample({"history": "request 17, then 33 with 48 bytes of additional input", "oracle": "SP 800-90A CTR_DRBG over pycryptodome AES"})
