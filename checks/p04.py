"""P04: every Python signature verifies, for every degree, key, message length, hash function and source of randomness."""
import hashlib, itertools
from vf import pyref, spec
from vf.cases import section

LEVEL = "exploration"


def blake_h2p_stream(data, n):
    return spec.blake_stream(hashlib.blake2s(data[:40]).digest() + data[40:], n)


def main(run):
    falcon, prng, shake, blake, drbg, rng, gen = pyref.load(run, "falcon", "keccak_prng", "shake", "blake2s_prng", "drbg.aes256_ctr_drbg", "rng", "ntrugen")
    ni, nr = pyref.load(run, "polyntt.ntt_iterative", "polyntt.ntt_recursive")
    q = run.quick
    pyref.fast_keccak(run)
    XOF = {"keccak": (prng.KeccakPRNG, spec.keccak_stream), "shake": (shake.SHAKE, spec.shake_stream), "blake2s": (blake.Blake2sPRNG, blake_h2p_stream)}

    def source(kind, label):
        s = hashlib.sha256(b"p04|%d|%s" % (run.seed, label.encode())).digest()
        if kind == "shake":
            h = shake.SHAKE.new(s)
            h.flip()
            return h.read
        if kind == "drbg":
            return drbg.AES256_CTR_DRBG(s + s[:16]).random_bytes
        if kind == "chacha":
            return rng.ChaCha20(s + s[:24]).randombytes
        if kind == "hash":
            st = {"c": 0}

            def f(k):
                st["c"] += 1
                return hashlib.shake_256(s + bytes([st["c"] & 255, st["c"] >> 8])).digest(k)
            return f
        if kind == "const":
            return lambda k: bytes([s[0]]) * k
        return None

    def key(n, k):
        return pyref.keys(run, n)[(k + run.seed) % 12]

    def public(f, g):
        fi, gi = spec.ntt(f), spec.ntt(g)
        return [a * pow(b, -1, spec.Q) % spec.Q for a, b in zip(gi, fi)]

    def judge(n, sk, hn, msg, sig, x, backends=(ni.NTTIterative,)):
        cls, stream = XOF[x]
        if not isinstance(sig, (bytes, bytearray)) or len(sig) != spec.SIGLEN[n]:
            return "signature of %s bytes for degree %d" % (len(sig) if sig else sig, n)
        if sig[0] != 0x20 + spec.LOGN[n]:
            return "header byte %02x" % sig[0]
        s1 = spec.decompress(sig[41:], n)
        if s1 is None:
            return "body is not an encoding"
        c = spec.ntt(spec.h2p(n, sig[1:41] + msg, stream))
        # s0 = c - s1*h in the transform domain
        t = [(a - b * d) % spec.Q for a, b, d in zip(c, spec.ntt(s1), hn)]
        s0 = ni.NTTIterative(spec.Q).intt(t)
        if sum(spec.center(v) ** 2 for v in s0) + sum(v * v for v in s1) > spec.BOUND[n]:
            return "emitted signature exceeds the norm bound or does not match the key"
        for b in backends:
            ok, e = pyref.quiet(falcon.PublicKey(n, list(sk.h)).verify, msg, sig, xof=cls, ntt=b)
            if ok is not True:
                return "own verifier says %s (%r)" % (ok, e)
        return None

    def sign(sk, msg, x, src):
        kw = {"randombytes": src} if src else {}
        return pyref.quiet(pyref.guarded, 60, sk.sign, msg, xof=XOF[x][0], **kw)

    def one(job):
        n, k, cases = job
        f, g, F, G = key(n, k)
        sk = falcon.SecretKey(n, [f, g, F, G])
        hn = public(f, g)
        if spec.ntt(sk.h) != hn:
            yield "n%d:k%d:public" % (n, k), "public key is not g/f", 1
        for (kind, x, ln, rep) in cases:
            msg = hashlib.shake_256(b"msg%d" % ln).digest(ln)
            label = "n%d:k%d:%s:%s:len%d:r%d" % (n, k, kind, x, ln, rep)
            sig, e = sign(sk, msg, x, source(kind, label))
            if e is not None:
                yield label, "signing raised %r" % e, 1
                continue
            why = judge(n, sk, hn, msg, sig, x, (ni.NTTIterative, nr.NTTRecursive) if rep == 0 else (ni.NTTIterative,))
            if not why and kind in ("shake", "drbg", "hash", "chacha") and rep == 0:
                again, e2 = sign(sk, msg, x, source(kind, label))
                if e2 is not None or again != sig:
                    why = "the same randomness gives a different signature"
                elif sig[1:41] != source(kind, label)(40):
                    why = "salt is not the first 40 bytes of the randomness"
            yield label, why, sig[0] and len(sig[41:].rstrip(b"\0"))

    KINDS = ("shake", "drbg", "chacha", "hash", "const", "urandom")
    js = []
    for n in spec.BOUND:
        reps = {2: 40, 4: 40, 8: 30, 16: 15, 32: 6, 64: 4, 128: 2}.get(n, 1)
        keys = 12 if n <= 64 else (4 if n < 512 else 1)
        if not q:
            reps, keys = reps * 8, 12
        for k in range(keys):
            if n >= 256 and q:
                cs = [[("shake", "keccak", 33, 0)], [("drbg", "shake", 0, 0)]] + ([[("urandom", "blake2s", 5, 1)]] if n == 512 else [])
            else:
                allc = [(kind, x, ln, r) for kind in KINDS for x in XOF for ln in (0, 33) for r in range(1)]
                allc += [("hash", x, 7, r) for x in ("keccak", "shake") for r in range(1, reps)]
                m = 1 if n <= 32 else 4 if n <= 128 else 9
                cs = [allc[i::m] for i in range(m)]
            js += [(n, k, c) for c in cs]
    section(run, "matrix", sorted(js, key=lambda j: -j[0]), one)

    def kinds(job):
        """A byte array is signed like the same byte string, and neither it nor the key changes."""
        n, x = job
        f, g, F, G = key(n, 2)
        sk = falcon.SecretKey(n, [f, g, F, G])
        hn = public(f, g)
        for ln in (0, 1, 40, 135, 136, 137, 500):
            msg = hashlib.shake_256(b"kind%d" % ln).digest(ln)
            arr = bytearray(msg)
            a, e = sign(sk, arr, x, source("hash", "kind%d" % ln))
            b, e2 = sign(sk, msg, x, source("hash", "kind%d" % ln))
            why = None
            if e or e2:
                why = "signing raised %r" % (e or e2)
            elif a != b:
                why = "a byte array is signed otherwise than the same byte string"
            elif arr != msg or [list(sk.f), list(sk.g), list(sk.F), list(sk.G)] != [list(f), list(g), list(F), list(G)]:
                why = "signing changed the message or the key"
            yield "n%d:%s:%d" % (n, x, ln), why or judge(n, sk, hn, msg, a, x), 1
    section(run, "kinds of byte strings", [(n, x) for n in ((8, 64) if q else (2, 8, 64, 512)) for x in XOF], kinds)

    # message lengths: every length around the hash blocks, up to the documented capacity
    def lengths(n):
        out = list(range(0, 300)) + [511, 512, 513, 983, 984, 991, 992, 1023, 1024, 2047, 2048, 4055, 4056]
        return out

    def bylen(job):
        n, x, lens = job
        f, g, F, G = key(n, 1)
        sk = falcon.SecretKey(n, [f, g, F, G])
        hn = public(f, g)
        for ln in lens:
            msg = hashlib.shake_256(b"len%d" % ln).digest(ln)
            sig, e = sign(sk, msg, x, source("hash", "len%d" % ln))
            cap = {"keccak": 4056, "blake2s": 992}.get(x, 1 << 40)
            if e is not None:
                yield "n%d:%s:len%d" % (n, x, ln), None if ln > cap and isinstance(e, ValueError) else "signing raised %r" % e, 0
                continue
            yield "n%d:%s:len%d" % (n, x, ln), judge(n, sk, hn, msg, sig, x), 1
    L = lengths(8)
    js = [(8, x, (L + [4057, 5000])[i::6]) for x in XOF for i in range(6)]
    if not q:
        js += [(512, x, list(range(0, 280, 3))[i::8]) for x in XOF for i in range(8)]
    section(run, "message-lengths", js, bylen)

    def history(job):
        """Signing several messages with one key object and one stream: each signature stands alone, the key is unchanged."""
        n, seq = job
        f, g, F, G = key(n, 2)
        sk = falcon.SecretKey(n, [list(f), list(g), list(F), list(G)])
        hn = public(f, g)
        src = source("shake", "hist")
        salts = set()
        for i, (ln, x) in enumerate(seq):
            msg = bytes([i]) * ln
            sig, e = sign(sk, msg, x, src)
            why = "signing raised %r" % e if e is not None else judge(n, sk, hn, msg, sig, x)
            if not why and sig[1:41] in salts:
                why = "salt reused"
            if not why and (sk.f, sk.g, sk.F, sk.G) != (f, g, F, G):
                why = "signing changed the key"
            if not why:
                salts.add(sig[1:41])
            yield "n%d:history:%s:%d" % (n, seq, i), why, 1
            if why:
                break
    alpha = [(0, "keccak"), (33, "shake"), (200, "blake2s")]
    seqs = [s for d in (3, 4 if not q else 3) for s in itertools.product(alpha, repeat=d)]
    section(run, "histories", [(n, s) for n in (4, 8) for s in dict.fromkeys(seqs)], history)

    def preimage(job):
        """s0 + s1*h = point, for every basis point and extreme values."""
        n, k, pts = job
        f, g, F, G = key(n, k)
        sk = falcon.SecretKey(n, [f, g, F, G])
        hn = public(f, g)
        T = ni.NTTIterative(spec.Q)
        for (pos, v, base) in pts:
            c = [base] * n
            c[pos] = v
            for mode in ("seed", "prng"):
                if mode == "seed":
                    s, e = pyref.quiet(pyref.guarded, 60, sk.sample_preimage, list(c), seed=b"seed%d%d" % (pos, v))
                else:
                    s, e = pyref.quiet(pyref.guarded, 60, sk.sample_preimage_with_prng, list(c), source("hash", "p%d.%d" % (pos, v)))
                key_ = "n%d:k%d:%s:point%d@%d+%d" % (n, k, mode, v, pos, base)
                if e is not None:
                    yield key_, "raised %r" % e, 1
                    continue
                t = [(a + b * d) % spec.Q for a, b, d in zip(spec.ntt(s[0]), spec.ntt(s[1]), hn)]
                why = None
                if T.intt(t) != [x % spec.Q for x in c]:
                    why = "sampled pair does not map to the requested point"
                elif sum(x * x for x in s[0] + s[1]) > 4 * spec.BOUND[n]:
                    why = "sampled pair is not short"
                yield key_, why, 1
    js = []
    for n in (2, 4, 8, 16, 32, 64) + (() if q else (128, 256, 512, 1024)):
        pts = [(p, v, b) for p in range(n if n <= 64 else 4) for v in (0, 1, 6144, 6145, 12288) for b in (0, 12288)]
        if q:
            pts = pts[::max(1, n // 8)]
        for k in range(1 if q else 3):
            m = max(1, n // 8)
            js += [(n, k, pts[i::m]) for i in range(m)]
    section(run, "preimage", js, preimage)

    def sequences(job):
        """Retries: bounds lowered so that many attempts are refused; what is emitted respects the bound in force."""
        n, frac, cut = job
        f, g, F, G = key(n, 3)
        sk = falcon.SecretKey(n, [f, g, F, G])
        if not hasattr(sk, "signature_bound") or not hasattr(sk, "sig_bytelen"):
            return
        hn = public(f, g)
        B, L = int(spec.BOUND[n] * frac), spec.SIGLEN[n] - cut
        sk.signature_bound, sk.sig_bytelen = B, L
        for r in range(10):
            msg = b"r%d" % r
            sig, e = sign(sk, msg, "shake", source("hash", "s%d%f%d%d" % (n, frac, cut, r)))
            why = None
            if e is not None:
                why = "signing raised %r" % e
            elif len(sig) != L:
                why = "signature length %d where %d is in force" % (len(sig), L)
            else:
                s1 = spec.decompress(sig[41:], n)
                if s1 is None:
                    why = "body is not an encoding"
                else:
                    c = spec.ntt(spec.h2p(n, sig[1:41] + msg, spec.shake_stream))
                    s0 = ni.NTTIterative(spec.Q).intt([(a - b * d) % spec.Q for a, b, d in zip(c, spec.ntt(s1), hn)])
                    if sum(spec.center(v) ** 2 for v in s0) + sum(v * v for v in s1) > B:
                        why = "emitted signature exceeds the bound in force"
            yield "n%d:bound*%.2f:len-%d:%d" % (n, frac, cut, r), why, 1
    section(run, "retries", [(n, fr, cut) for n in (8, 16, 32) for fr in (1, 0.9, 0.8, 0.75) for cut in (0, 1, 2)], sequences)
    def limits(job):
        """The first attempt is kept when the bound is exactly its norm and the field exactly its length, and refused when either is one smaller."""
        n, k, r = job
        f, g, F, G = key(n, k)
        hn = public(f, g)
        msg = b"limit %d" % r

        class Enough(Exception):
            pass

        def emit(B, L):
            sk = falcon.SecretKey(n, [f, g, F, G])
            if not hasattr(sk, "signature_bound") or not hasattr(sk, "sig_bytelen"):
                return None
            sk.signature_bound, sk.sig_bytelen = B, L
            calls = [0]

            def capped(fn):
                def inner(*a, **kw):
                    calls[0] += 1
                    if calls[0] > 40:
                        raise Enough()
                    return fn(*a, **kw)
                return inner
            for name in ("sample_preimage", "sample_preimage_with_prng"):     # no shorter attempt may ever come: forty refusals are an answer
                if hasattr(sk, name):
                    setattr(sk, name, capped(getattr(sk, name)))
            sig, e = sign(sk, msg, "shake", source("hash", "l%d%d%d" % (n, k, r)))
            return e, sig
        big = 3 * n + 100
        o = emit(1 << 60, big)
        if o is None:
            return
        lab = "n%d:k%d:%d" % (n, k, r)
        s1 = None if o[0] is not None else spec.decompress(o[1][41:], n)
        if s1 is None:
            yield lab, "signing under a wide bound fails: %r" % (o[0],), 1
            return
        salt = o[1][1:41]
        c = spec.ntt(spec.h2p(n, salt + msg, spec.shake_stream))
        s0 = ni.NTTIterative(spec.Q).intt([(a - b * d) % spec.Q for a, b, d in zip(c, spec.ntt(s1), hn)])
        N = sum(spec.center(v) ** 2 for v in s0) + sum(v * v for v in s1)
        L = 41 + (sum(9 + (abs(v) >> 7) for v in s1) + 7) // 8
        for what, B, ln, same in (("bound = norm", N, big, 1), ("bound = norm - 1", N - 1, big, 0), ("length exact", 1 << 60, L, 1), ("length - 1", 1 << 60, L - 1, 0), ("both exact", N, L, 1)):
            e, sig = emit(B, ln)
            if isinstance(e, (Enough, TimeoutError)) and not same:
                why = None
            elif e is not None:
                why = "signing raised %r" % e
            else:
                got = spec.decompress(sig[41:], n)
                why = None if (got == s1) == bool(same) and len(sig) == ln else "the first attempt of %s was %s" % ((N, L), "not kept" if same else "kept")
            if e is None and sig[1:41] != salt:
                why = "the nonce depends on the attempts"
            yield lab + ":" + what, why, 1
    section(run, "exact limits", [(n, k, r) for n in ((8, 16, 32, 64) if q else (4, 8, 16, 32, 64, 128, 256, 512, 1024)) for k in range(2) for r in range(4 if q else 12)], limits)
    run.sample({"n": 8, "randomness": "AES-DRBG", "hash": "keccak", "len": 33, "verdict": "accepted by code and specification"})
    run.note(rule="a case is one signing call (or one sampled preimage) judged by the specification and the code's verifier; non-trivial when a signature was produced")
