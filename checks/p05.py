"""P05: Python recovery-mode verifiers recover exactly the address of the key that signed, and nothing from anything else."""
import hashlib, itertools
from vf import pyref, spec
from vf.cases import section
from checks.p03 import squares

LEVEL = "exploration"


def recover_spec(n, mode, msg, sig, stream):
    """Address, or None when the signature is invalid."""
    if sig[:1] != bytes([0x30 + spec.LOGN[n]]) or len(sig) < 41 + 3 * n:
        return None
    body, inv = sig[41:-3 * n], sig[-3 * n:]
    if len(body) > 2 * spec.SIGLEN[n] - 41:
        return None
    s = spec.decompress(body, 2 * n)
    if s is None:
        return None
    s0, s1 = s[:n], s[n:]
    inv = [int.from_bytes(inv[i:i + 3], "big") for i in range(0, 3 * n, 3)]
    if any(x >= spec.Q for x in inv):
        return None
    if any(a * b % spec.Q != 1 for a, b in zip(inv, spec.ntt(s1))):
        return None
    if sum(x * x for x in s) > spec.BOUND[n]:
        return None
    c = spec.h2p(n, sig[1:41] + msg, stream)
    hn = [a * b % spec.Q for a, b in zip(spec.ntt([x - y for x, y in zip(c, s0)]), inv)]
    return spec.address(hn if mode == "epervier" else intt(hn))


def intt(v):
    from polyntt.ntt_iterative import NTTIterative
    return NTTIterative(spec.Q).intt(v)


def main(run):
    falcon, prng, shake, rec, epe, ni, nr = pyref.load(run, "falcon", "keccak_prng", "shake", "falcon_recovery", "falcon_epervier", "polyntt.ntt_iterative", "polyntt.ntt_recursive")
    q = run.quick
    pyref.fast_keccak(run)
    XOF = {"keccak": (prng.KeccakPRNG, spec.keccak_stream), "shake": (shake.SHAKE, spec.shake_stream)}
    SK = {"recovery": rec.RecoveryModeSecretKey, "epervier": epe.EpervierSecretKey}
    PK = {"recovery": rec.RecoveryModePublicKey, "epervier": epe.EpervierPublicKey}
    assert intt(spec.ntt(list(range(16)))) == list(range(16))

    def source(label):
        st = {"c": 0}

        def f(k):
            st["c"] += 1
            return hashlib.shake_256(b"p05|%d|%s|%d" % (run.seed, label.encode(), st["c"])).digest(k)
        return f

    def addr(n, k, mode):
        f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
        hn = [a * pow(b, -1, spec.Q) % spec.Q for a, b in zip(spec.ntt(g), spec.ntt(f))]
        return spec.address(hn if mode == "epervier" else intt(hn))

    def judge(n, mode, pkv, msg, sig, x):
        cls, stream = XOF[x]
        w = recover_spec(n, mode, msg, sig, stream)
        pk = PK[mode](n, pkv)
        got, e = pyref.quiet(pk.recover, msg, sig, xof=cls)
        c = 2 if w is not None else int(len(sig) > 41 + 3 * n and spec.decompress(sig[41:-3 * n], 2 * n) is not None)
        if e is not None:
            return "recover raised %r" % e, c
        if (w is None and got is not False) or (w is not None and (got is False or got != w)):
            return "recovered %s, specification says %s" % (got, w), c
        ok, e = pyref.quiet(pk.verify, msg, sig, xof=cls)
        if e is not None or ok is not (w is not None and w == pkv):
            return "verify says %r (%r) for key %s, recovered key %s" % (ok, e, pkv, w), c
        return None, c

    def histories(job):
        """Every sequence of calls on two live address objects: an answer depends on no earlier call."""
        n, mode, first, depth = job
        made = []
        for k, x in ((0, "keccak"), (1, "shake")):
            f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
            msg = hashlib.sha256(b"history%d" % k).digest()[:20 + k]
            sig, e = pyref.quiet(pyref.guarded, 60, SK[mode](n, [f, g, F, G]).sign, msg, randombytes=source("history%s%d" % (mode, k)), xof=XOF[x][0])
            if e is not None:
                yield "n%d:%s:sign" % (n, mode), "signing raised %r" % e, 0
                return
            made.append((msg, sig))
        (ma, sa), (mb, sb) = made
        ads = addr(n, 0, mode), addr(n, 1, mode)
        flip = lambda s, i: s[:i] + bytes([s[i] ^ 1]) + s[i + 1:]
        calls = [(0, ma, sa, "keccak"), (1, ma, sa, "keccak"), (0, mb, sa, "keccak"), (0, ma, flip(sa, 20), "keccak"), (0, ma, flip(sa, len(sa) - 1), "keccak"), (0, ma, sa, "shake"), (1, mb, sb, "shake"), (0, mb, sb, "shake"), (0, ma, sa[:30], "keccak")]
        wants = [recover_spec(n, mode, m, s, XOF[x][1]) for _, m, s, x in calls]
        backs = (ni.NTTIterative, nr.NTTRecursive)
        for rest in itertools.product(range(len(calls)), repeat=depth - 1):
            pks, why = [PK[mode](n, a) for a in ads], None
            for i, c in enumerate((first,) + rest):
                k, m, s, x = calls[c]
                w = wants[c]
                ok, e = pyref.quiet(pks[k].verify, m, s, xof=XOF[x][0], ntt=backs[i & 1])
                got, e2 = pyref.quiet(pks[1 - k].recover, m, s, xof=XOF[x][0], ntt=backs[i & 1])
                if e or e2 or got != (False if w is None else w) or got is True or ok is not (w == ads[k]):
                    why = "call %d of the sequence verifies %r and recovers %r (%r), the specification says %s for key %s" % (i, ok, got, e or e2, w, ads[k])
                    break
            if why is None and [pk.pk for pk in pks] != list(ads):
                why = "an address was changed by verifying"
            yield "n%d:%s:%s" % (n, mode, "-".join(map(str, (first,) + rest))), why, 2
    section(run, "call histories", [(n, mode, c, d) for n, d in (((8, 3), (64, 2)) if q else ((8, 4), (64, 3))) for mode in SK for c in range(9)], histories)

    def kinds(job):
        """Byte strings and byte arrays, and both transforms, as arguments of signing and recovery."""
        n, mode, x = job
        f, g, F, G = pyref.keys(run, n)[(3 + run.seed) % 12]
        sk = SK[mode](n, [f, g, F, G])
        a = addr(n, 3, mode)
        cls, stream = XOF[x]
        for ln in (0, 1, 33, 136):
            msg = hashlib.shake_256(b"kind%d" % ln).digest(ln)
            sigs = [pyref.quiet(pyref.guarded, 60, sk.sign, k(msg), randombytes=source("kind%d" % ln), xof=cls) for k in (bytes, bytearray)]
            if sigs[0][1] or sigs[1][1] or sigs[0][0] != sigs[1][0]:
                yield "n%d:%s:%s:%d" % (n, mode, x, ln), "a byte array and the same byte string are signed differently (%r %r)" % (sigs[0][1], sigs[1][1]), 1
                continue
            sig = sigs[0][0]
            pk = PK[mode](n, a)
            for tag, m, s in (("honest", msg, sig), ("message", msg + b"x", sig), ("salt", msg, sig[:7] + bytes([sig[7] ^ 1]) + sig[8:]), ("inverse", msg, sig[:-1] + bytes([sig[-1] ^ 1])), ("cut", msg, sig[:-1]), ("empty", msg, b"")):
                w = recover_spec(n, mode, m, s, stream)
                for km, ks in itertools.product((bytes, bytearray), repeat=2):
                    for back in (ni.NTTIterative, nr.NTTRecursive):
                        am, as_ = km(m), ks(s)
                        got, e = pyref.quiet(pk.recover, am, as_, xof=cls, ntt=back)
                        ok, e2 = pyref.quiet(pk.verify, am, as_, xof=cls, ntt=back)
                        why = None
                        if e or e2:
                            why = "raised %r" % (e or e2)
                        elif got != (False if w is None else w) or ok is not (w == a):
                            why = "recovers %s and verifies %s, the specification says %s" % (got, ok, w)
                        elif am != m or as_ != s:
                            why = "the arguments were changed"
                        yield "n%d:%s:%s:%d:%s:%s:%s:%s" % (n, mode, x, ln, tag, km.__name__, ks.__name__, back.__name__), why, 2 if w is not None else 1
    section(run, "kinds of byte strings", [(n, mode, x) for n in ((8, 64) if q else (2, 8, 64, 512)) for mode in SK for x in XOF], kinds)

    def honest(job):
        """Every honest signature recovers the signer's address; the address is the one the specification derives from the key."""
        n, mode, k, cs = job
        f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
        sk = SK[mode](n, [f, g, F, G])
        a = addr(n, k, mode)
        yield "n%d:%s:k%d:address" % (n, mode, k), None if sk.pk == a else "address of the key is wrong", 1
        for x, ln, r in cs:
            lab = "n%d:%s:k%d:%s:len%d:r%d" % (n, mode, k, x, ln, r)
            msg = hashlib.shake_256(b"%d" % ln).digest(ln)
            kw = {} if r == 9 else {"randombytes": source(lab)}
            sig, e = pyref.quiet(pyref.guarded, 60, sk.sign, msg, xof=XOF[x][0], **kw)
            if e is not None:
                yield lab, "signing raised %r" % e, 1
                continue
            if len(sig) != 2 * spec.SIGLEN[n] - 0 + 3 * n:
                yield lab, "signature of %d bytes" % len(sig), 1
                continue
            if recover_spec(n, mode, msg, sig, XOF[x][1]) != a:
                yield lab, "emitted signature is not valid for the signer's address", 1
                continue
            why, c = judge(n, mode, a, msg, sig, x)
            for other in (0, a ^ 1, a + (1 << 160), -1):
                why = why or judge(n, mode, other, msg, sig, x)[0]
            yield lab, why, c
    js = []
    for n in spec.BOUND:
        for mode in SK:
            ks = 4 if n <= 32 else 1
            cs = [(x, ln, r) for x in XOF for ln in (0, 1, 33, 300) for r in ((0, 1, 9) if n <= 64 else (0,))]
            if q and n >= 256:
                cs = cs[:1] if n > 512 else [cs[0], cs[-1]]
            m = 1 if n < 128 else len(cs)
            js += [(n, mode, k, cs[i::m]) for k in range(ks) for i in range(m)]
    section(run, "honest", sorted(js, key=lambda j: -j[0]), honest)

    def limits(job):
        """The first attempt is kept when the bound is exactly its norm, and refused when the bound is one smaller."""
        n, mode, k, r = job
        f, g, F, G = pyref.keys(run, n)[(k + run.seed) % 12]
        lab = "n%d:%s:k%d:%d" % (n, mode, k, r)

        def emit(B):
            sk = SK[mode](n, [f, g, F, G])
            if not hasattr(sk, "signature_bound"):
                return None
            sk.signature_bound = B
            return pyref.quiet(pyref.guarded, 60, sk.sign, b"limit", randombytes=source("limit" + lab))
        o = emit(1 << 60)
        if o is None:
            return
        s = spec.decompress(o[0][41:-3 * n], 2 * n) if o[1] is None else None
        if s is None:
            yield lab, "signing under a wide bound fails: %r" % (o[1],), 1
            return
        N = sum(v * v for v in s)
        for B, same in ((N, 1), (N + 1, 1), (N - 1, 0)):
            sig, e = emit(B)
            got = spec.decompress(sig[41:-3 * n], 2 * n) if e is None else None
            yield lab + ":bound%+d" % (B - N), "signing raised %r" % e if e else None if (got == s) == bool(same) else "the first attempt of norm %d was %s" % (N, "not kept" if same else "kept"), 1
    section(run, "exact limits", [(n, mode, k, r) for n in ((8, 16, 64) if q else (4, 8, 16, 32, 64, 128, 512)) for mode in SK for k in range(2) for r in range(3 if q else 10)], limits)

    base = {}

    def sample(n, mode, x):
        if (n, mode, x) not in base:
            f, g, F, G = pyref.keys(run, n)[run.seed % 12]
            sk = SK[mode](n, [f, g, F, G])
            msg = b"recover me %d" % n
            sig, e = pyref.quiet(pyref.guarded, 60, sk.sign, msg, randombytes=source("b%d%s%s" % (n, mode, x)), xof=XOF[x][0])
            if e is not None:
                run.fail("sign:%d:%s" % (n, mode), "signing failed: %r" % e)
                raise pyref.LoadFailed("sign")
            base[n, mode, x] = (addr(n, 0, mode), msg, sig)
        return base[n, mode, x]
    NS = (2, 8, 32, 128, 512, 1024) if q else (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)
    for n in NS:
        for mode in SK:
            for x in XOF:
                sample(n, mode, x)

    def alter(job):
        n, mode, x, kind, lo, hi, st = job
        a, msg, sig = sample(n, mode, x)
        N = 3 * n
        for i in range(lo, hi, st):
            m, s = msg, sig
            if kind == "bit":
                b = bytearray(sig)
                b[i // 8] ^= 1 << (i % 8)
                s = bytes(b)
            elif kind == "inv":     # every alternative 24-bit representation and some wrong values of one inverse
                for v in (1, 2, 100, 1365):
                    b = bytearray(sig)
                    o = len(sig) - N + 3 * i
                    w = int.from_bytes(sig[o:o + 3], "big") + v * spec.Q
                    if w >= 1 << 24:
                        continue
                    b[o:o + 3] = w.to_bytes(3, "big")
                    why, c = judge(n, mode, a, m, bytes(b), x)
                    yield "n%d:%s:%s:inv%d+%dq" % (n, mode, x, i, v), why, c
                continue
            elif kind == "head":
                s = bytes([i]) + sig[1:]
            elif kind == "length":
                s = sig[:i] if i <= len(sig) else sig + bytes(i - len(sig))
            elif kind == "insert":    # change of length in front of the inverse
                t = sig[:-N].rstrip(b"\0")
                s = t + bytes(i) + sig[-N:]
            elif kind == "tail":
                s = sig[:-N - 1 - i] + b"\x01" + bytes(i) + sig[-N:]
            elif kind == "msgbit":
                b = bytearray(msg)
                b[i // 8] ^= 1 << (i % 8)
                m = bytes(b)
            why, c = judge(n, mode, a, m, s, x)
            if why is None and kind in ("bit", "msgbit") and recover_spec(n, mode, m, s, XOF[x][1]) == a:
                why = "altered signature still recovers the signer"
            yield "n%d:%s:%s:%s:%d" % (n, mode, x, kind, i), why, c
    js = []
    for n in NS:
        for mode in SK:
            for x in XOF:
                _, msg, sig = sample(n, mode, x)
                if q and n >= 512 and x == "shake":
                    continue
                L = 8 * len(sig)
                st = 61 if q and n == 512 else 257 if q and n == 1024 else 17 if q and n == 128 else 7 if n >= 512 else 3 if n >= 128 else 1
                ch = 200 * st
                js += [(n, mode, x, "bit", (o + run.seed) % st + o, min(o + ch, L), st) for o in range(0, L, ch)]
                js += [(n, mode, x, "head", 0, 256, 1), (n, mode, x, "msgbit", 0, 8 * len(msg), 1 if n < 512 else 5), (n, mode, x, "inv", 0, n, max(1, n // 32)),
                       (n, mode, x, "tail", 0, 6, 1), (n, mode, x, "insert", 0, 30, 1 if n < 512 else 4)]
                ls = max(1, len(sig) // (120 if n < 1024 or not q else 20))
                js += [(n, mode, x, "length", 0, len(sig) + 20, ls)]
    section(run, "alterations", sorted(js, key=lambda j: -j[0]), alter)

    def forged(job):
        """Arbitrary short pairs with invertible s1 recover the key the specification derives, exactly up to the norm bound; zero divisors never recover."""
        n, mode, x, d = job
        for a in (1, -1, 2, 127, -128, 2047, 2048, 3000, -4000, 5000, 6144):
            if a * a > spec.BOUND[n]:
                continue
            for pos in sorted({0, n - 1}):
                s1 = [0] * n
                s1[pos] = a
                sq = squares(spec.BOUND[n] + d - a * a, n, 6144 if n == 1024 else 6000)
                if sq is None:
                    continue
                s0 = [v * (-1) ** (i + pos) for i, v in enumerate(sq)]
                enc = spec.compress(s0 + s1, 2 * spec.SIGLEN[n] - 41)
                if enc is None:
                    continue
                inv = [pow(v, -1, spec.Q) for v in spec.ntt(s1)]
                sig = bytes([0x30 + spec.LOGN[n]]) + bytes([pos & 255]) * 40 + enc + b"".join(v.to_bytes(3, "big") for v in inv)
                w = recover_spec(n, mode, b"f", sig, XOF[x][1])
                why, c = judge(n, mode, w or 0, b"f", sig, x)
                if (w is not None) != (d <= 0):
                    why = why or "oracle"
                yield "n%d:%s:%s:%d@%d:bound%+d" % (n, mode, x, a, pos, d), why, c
        # s1 = 0, and s1 with one vanishing evaluation point; claimed inverses 0 or 1
        r = next((a, b) for a in range(1, 200) for b in range(-200, 200) if 0 in spec.ntt([a, b] + [0] * (n - 2)))if n <= 64 else (0, 0)
        for s1 in ([0] * n, [r[0], r[1]] + [0] * (n - 2)):
            t = spec.ntt(s1)
            for z in (0, 1, 12288):
                inv = [pow(v, -1, spec.Q) if v else z for v in t]
                sig = bytes([0x30 + spec.LOGN[n]]) + bytes(40) + spec.compress([0] * n + s1, 2 * spec.SIGLEN[n] - 41) + b"".join(v.to_bytes(3, "big") for v in inv)
                for pkv in (0, 1, addr(n, 0, mode)):
                    why, c = judge(n, mode, pkv, b"z", sig, x)
                    yield "n%d:%s:%s:zero%s:%d:%d" % (n, mode, x, s1[:2], z, pkv), why, c
    section(run, "forged", [(n, mode, x, d) for n in ((8, 64, 512, 1024) if q else (4, 8, 16, 32, 64, 256, 512, 1024)) for mode in SK for x in (XOF if not q or n < 1024 else ("keccak",)) for d in (-1, 0, 1)], forged)
    run.sample({"mode": "epervier", "n": 8, "case": "inverse[3] + q", "verdict": "rejected"})
    run.note(rule="a case is one (message, signature) pair: recovered address and verdict compared with the specification; non-trivial when the body decodes")
