"""P01: the Python extendable-output functions are the specified streams for every history of absorb/finalise/read calls."""
import ctypes as C, hashlib, itertools, os, struct
import numpy as np
from Crypto.Hash import keccak as cryptokeccak
from vf import cbuild, pyref, spec
from vf.core import ROOT

LEVEL = "model_checking"
DATA = bytes((i * 131 + (i >> 8) * 7 + 5) & 255 for i in range(20000))


def fastf(run):
    so = cbuild.Lib(run).build("keccakf", srcs=[], harness=("keccakf.c",))
    f = C.CDLL(so).keccakf
    return lambda arr: f(arr.ctypes.data_as(C.c_void_p))


def sponge(rate, ds, data, n, f):
    """Reference sponge over the compact permutation."""
    st = np.zeros(25, dtype=np.uint64)
    by = st.view(np.uint8)
    b = bytearray(data) + bytes([ds])
    b += bytes(-len(b) % rate)
    b[-1] ^= 0x80
    for o in range(0, len(b), rate):
        by[:rate] ^= np.frombuffer(bytes(b[o:o + rate]), dtype=np.uint8)
        f(st)
    out = b""
    while len(out) < n:
        out += by[:rate].tobytes()
        f(st)
    return out[:n]


def pieces(sizes, depth):
    for d in range(depth + 1):
        yield from itertools.product(sizes, repeat=d)


class Model:
    """Abstract machine: (bytes absorbed, finalised?, bytes read).  Collects visited states and transitions."""

    def __init__(self):
        self.states, self.trans, self.traces = set(), set(), 0

    def walk(self, absorbs, reads):
        s = (0, 0, 0)
        self.states.add(s)
        for a in absorbs:
            t = (s[0] + a, 0, 0)
            self.trans.add((s, "a%d" % a))
            self.states.add(t)
            s = t
        t = (s[0], 1, 0)
        self.trans.add((s, "f"))
        self.states.add(t)
        s = t
        for r in reads:
            t = (s[0], 1, s[2] + r)
            self.trans.add((s, "r%d" % r))
            self.states.add(t)
            s = t
        self.traces += 1


def drive(make, absorbs, reads, tail=True):
    x = make()
    o = 0
    for a in absorbs:
        x.update(DATA[o:o + a])
        o += a
    x.flip()
    return DATA[:o], [bytes(x.read(r)) for r in reads]


def explore(run, name, make, stream, cases):
    """cases: list of chunks of (absorbs, reads)."""
    def work(chunk):
        m, bad = Model(), []
        cache = {}
        for absorbs, reads in chunk:
            m.walk(absorbs, reads)
            got, err = pyref.quiet(drive, make, absorbs, reads)
            if err is not None:
                bad.append((absorbs, reads, "raised %r" % err))
                continue
            data, out = got
            n = sum(reads)
            k = len(data)
            if k not in cache or len(cache[k]) < n:
                cache[k] = stream(data, max(n, 512))
            o = 0
            for r, b in zip(reads, out):
                if b != cache[k][o:o + r]:
                    bad.append((absorbs, reads, "read of %d bytes at stream position %d is wrong" % (r, o)))
                    break
                o += r
        return m, bad
    S, T = set(), set()
    for res in run.pmap(work, cases):
        if res is None:
            continue
        m, bad = res
        S |= m.states
        T |= m.trans
        run.count("traces_validated_against_impl", m.traces)
        for absorbs, reads, why in bad[:3]:
            run.fail("%s:absorb%s:read%s" % (name, list(absorbs), list(reads)), "%s: pieces %s then reads %s: %s" % (name, absorbs, reads, why), absorbs=absorbs, reads=reads)
    run.count("states", len(S))
    run.count("transitions", len(T))


def split(seq, k=16):
    seq = list(seq)
    return [seq[i::k] for i in range(k) if seq[i::k]]


def main(run):
    keccak, shake, kp, bp, kx = pyref.load(run, "keccak", "shake", "keccak_prng", "blake2s_prng", "keccaxof")
    f = fastf(run)
    q = run.quick

    def perm(run):
        """The permutation itself, on every one-bit state and a chain, before it is replaced to make histories cheap."""
        def work(bits):
            bad = None
            for b in bits:
                K = keccak.Keccak()
                a = np.zeros(25, dtype=np.uint64)
                if b >= 0:
                    a[b // 64] = np.uint64(1 << (b % 64))
                else:
                    a[:] = np.frombuffer(hashlib.shake_256(str(b).encode()).digest(200), dtype=np.uint64)
                K.state = a.copy()
                K.F1600()
                f(a)
                if not np.array_equal(np.asarray(K.state, dtype=np.uint64), a):
                    bad = bad or b
            return len(bits), bad
        step = 1
        for out in run.pmap(work, split(list(range(0, 1600, step)) + list(range(-40, 0)))):
            if out:
                run.count("traces_validated_against_impl", out[0])
                if out[1] is not None:
                    run.fail("permutation:%s" % out[1], "Keccak-f differs from the specification on state %s" % out[1])
    run.section("permutation", perm)

    def oracle(run):
        for n in (0, 1, 135, 136, 137, 300):
            assert sponge(136, 0x1F, DATA[:n], 400, f) == hashlib.shake_256(DATA[:n]).digest(400)
            assert sponge(136, 0x01, DATA[:n], 32, f) == spec.keccak256(DATA[:n])
            assert sponge(136, 0x06, DATA[:n], 32, f) == hashlib.sha3_256(DATA[:n]).digest()
    run.section("oracle", oracle)

    # short unpatched histories first
    small = [(a, r) for a in pieces((1, 136, 137), 2) for r in ((1, 2), (136, 1), (137,), (0, 136, 136))]
    run.section("shake-plain", explore, "shake", shake.SHAKE.new, spec.shake_stream, split(small if not q else small[::2]))

    patched = False
    K = getattr(keccak, "Keccak", None)
    if K is not None and hasattr(K, "F1600"):
        orig = K.F1600

        def fast(self):
            st = np.ascontiguousarray(self.state, dtype=np.uint64)
            f(st)
            if st is self.state:
                return
            self.state = st
        K.F1600 = fast
        h = shake.SHAKE.new()
        h.update(DATA[:500])
        h.flip()
        patched = pyref.quiet(h.read, 300)[0] == spec.shake_stream(DATA[:500], 300)
        if not patched:
            K.F1600 = orig
    run.note(permutation_replaced=patched)

    A = (0, 1, 2, 7, 8, 135, 136, 137, 271, 272, 273)
    R = (0, 1, 2, 135, 136, 137, 272)
    if patched:
        cs = [(a, r) for a in pieces(A, 2) for r in pieces(R, 2)]
        cs += [(a, (1, 300)) for a in itertools.product((1, 135, 136, 137, 272), repeat=3)] + [((40, 33), r) for r in pieces(R, 3 if q else 4)]
        cs += [((p, k), (200,)) for p in range(0, 137) for k in (range(0, 275, 9) if q else range(0, 275))]
        cs += [((50,), (p, k)) for p in range(0, 137) for k in (range(0, 275, 9) if q else range(0, 275))]
    else:
        cs = [(a, r) for a in pieces((1, 135, 136, 137), 2) for r in pieces((1, 135, 136, 137), 2)]
    run.section("shake", explore, "shake", shake.SHAKE.new, spec.shake_stream, split(cs, 32))

    def rates(run):
        """Every rate and domain byte of the generic sponge object."""
        def work(rs):
            bad, n = None, 0
            for rate in rs:
                for ds in (0x01, 0x06, 0x1F, 0x80) if not q else (0x01, 0x1F):
                    for ln in (0, 1, rate - 1, rate, rate + 1, 2 * rate - 1):
                        h = keccak.KeccakHash(rate=rate, dsbyte=ds)
                        h.absorb(DATA[:ln // 2])
                        h.absorb(DATA[ln // 2:ln])
                        h.pad()
                        n += 1
                        if h.squeeze(rate - 1) + h.squeeze(rate + 3) != sponge(rate, ds, DATA[:ln], 2 * rate + 2, f):
                            bad = bad or (rate, ds, ln)
            return n, bad
        for out in run.pmap(work, split(range(8, 200, 8 if q or not patched else 1))):
            if out:
                run.count("traces_validated_against_impl", out[0])
                if out[1]:
                    run.fail("sponge:rate%d:ds%d:len%d" % out[1], "sponge with rate %d, domain byte %d differs on a %d-byte message" % out[1])
    run.section("sponge-rates", rates)

    A = (0, 1, 2, 31, 32, 33, 135, 136, 137)
    R = (0, 1, 2, 3, 31, 32, 33, 64, 65)
    for name, cls, st, cap in (("keccak", kp.KeccakPRNG, spec.keccak_stream, 4096), ("blake2s", bp.Blake2sPRNG, spec.blake_stream, 1024)):
        cs = [(a, r) for a in pieces(A, 2) for r in pieces(R, 2)] + [((40, 33), r) for r in pieces(R, 4 if q else 5)]
        cs += [(a, (1, 33, 2)) for a in itertools.product(A, repeat=3)]
        cs += [((k,), (70,)) for k in range(0, cap + 1)] + [((40, k - 40), (2,) * 20) for k in range(40, cap + 1, 1 if not q else 7)]
        cs += [((5,), (2,) * 700), ((5,), (1,) * 700), ((5,), (3,) * 400), ((5,), (9000,)), ((5,), (33,) * 260)]
        run.section(name, explore, name, cls.new, st, split(cs, 32))

    def far(run):
        """Streams of two megabytes, and the blocks around every width of the counter: it is found as the one integer attribute that grows by one with each block."""
        def work(job):
            name, c = job
            cls, st, hf = {"keccak": (kp.KeccakPRNG, spec.keccak_stream, spec.keccak256), "blake2s": (bp.Blake2sPRNG, spec.blake_stream, lambda b: hashlib.blake2s(b).digest())}[name]
            x = cls.new()
            x.update(b"far")
            x.flip()
            if c is None:
                n, bad = 65600 * 32, []
                want = st(b"far", n)
                got, e = pyref.quiet(lambda: b"".join(bytes(x.read(k)) for k in (1, 8191 * 32 - 1, 31, 33, n - 8193 * 32)))
                return name, c, 1, None if got == want else "the stream differs at byte %d (%r)" % (next((i for i in range(min(len(got or b""), n)) if got[i] != want[i]), -1), e)
            snaps = []
            for _ in range(3):
                x.read(32)
                snaps.append({k: v for k, v in vars(x).items() if type(v) is int})
            names = [k for k in snaps[0] if snaps[1].get(k) == snaps[0][k] + 1 and snaps[2].get(k) == snaps[0][k] + 2]
            if len(names) != 1:
                return name, c, 0, None
            off = snaps[2][names[0]] - 3
            setattr(x, names[0], c + off)
            seed = hf(b"far")
            want = b"".join(hf(seed + ((c + i) % 2 ** 64).to_bytes(8, "big")) for i in range(4))
            got, e = pyref.quiet(lambda: bytes(x.read(1)) + bytes(x.read(63)) + bytes(x.read(64)))
            return name, c, 1, None if got == want else "block %d is wrong (%r)" % (c, e)
        for out in run.pmap(work, [(n, c) for n in ("keccak", "blake2s") for c in [None] + [2 ** k - 2 for k in (7, 8, 15, 16, 24, 31, 32, 33, 48, 63)] + [2 ** 64 - 4]]):
            if out:
                run.count("traces_validated_against_impl", out[2])
                if out[3]:
                    run.fail("%s:far:%s" % out[:2], "%s: %s" % (out[0], out[3]))
    run.section("far blocks", far)

    def capacity(run):
        """Beyond capacity: the stream of the whole message, or a refusal; never the stream of something shorter."""
        for name, cls, st, cap in (("keccak", kp.KeccakPRNG, spec.keccak_stream, 4096), ("blake2s", bp.Blake2sPRNG, spec.blake_stream, 1024)):
            for parts in ((cap + 1,), (cap, 1), (cap - 1, 2), (40, cap - 39), (cap, cap), (1, cap), (2 * cap + 3,), (40, 8192)):
                run.count("traces_validated_against_impl")
                got, err = pyref.quiet(drive, cls.new, parts, (64,))
                if err is None and got[1][0] != st(got[0], 64):
                    run.fail("%s:capacity:%s" % (name, list(parts)), "%s: input pieces %s beyond the capacity were neither absorbed nor refused" % (name, parts))
    run.section("capacity", capacity)

    def misuse(run):
        """Calls out of order are refused and leave the stream as it was; two objects do not influence each other."""
        for name, cls, st in (("keccak", kp.KeccakPRNG, spec.keccak_stream), ("blake2s", bp.Blake2sPRNG, spec.blake_stream)):
            for script in itertools.product("aFr", repeat=5):
                x, y = cls.new(), cls.new()
                y.update(b"other")
                data, fin, pos, ok = b"", False, 0, True
                for op in script:
                    run.count("transitions")
                    if op == "a":
                        _, e = pyref.quiet(x.update, b"abc")
                        ok = (e is not None) == fin
                        data += b"" if fin else b"abc"
                    elif op == "F":
                        _, e = pyref.quiet(x.flip)
                        ok = (e is not None) == fin
                        fin = True
                    else:
                        v, e = pyref.quiet(x.read, 5)
                        ok = (e is not None) if not fin else (e is None and v == st(data, pos + 5)[pos:])
                        pos += 5 if fin else 0
                    if not ok:
                        run.fail("%s:order:%s" % (name, "".join(script)), "%s: call sequence %s misbehaves at %s" % (name, "".join(script), op))
                        break
                y.flip()
                if ok and y.read(10) != st(b"other", 10):
                    run.fail("%s:shared:%s" % (name, "".join(script)), "%s: a second object is disturbed by %s" % (name, "".join(script)))
                run.count("traces_validated_against_impl")
    run.section("call-order", misuse)

    def chain_stream(data, n):
        d, st = spec.keccak256(data), b""
        while len(st) < n:
            st += d
            d = spec.keccak256(d)
        return st[:n]
    FIVE = (("keccak", kp.KeccakPRNG, spec.keccak_stream), ("blake2s", bp.Blake2sPRNG, spec.blake_stream), ("shake", shake.SHAKE, spec.shake_stream), ("keccaxof", kx.KeccaXOF, chain_stream))

    def together(run):
        """Two objects in every interleaving of their histories, the second made from the class, from the first object, or as its deep copy; every kind of byte string as input."""
        import copy
        A, B = b"one" * 50, b"another" * 30

        def step(x, op, data, rd):
            if op == 0:
                x.update(data[:70])
            elif op == 1:
                x.update(data[70:])
            elif op == 2:
                x.flip()
            else:
                rd.append(bytes(x.read(2)))
        for name, cls, st in FIVE:
            for sel in itertools.combinations(range(10), 5):
                for origin in ("class", "object"):
                    x = cls.new()
                    ra, rb, i, j, y = [], [], 0, 0, None
                    try:
                        for t in range(10):
                            if t in sel:
                                step(x, i, A, ra)
                                i += 1
                            else:
                                if y is None:
                                    y = (cls if origin == "class" else x).new()
                                step(y, j, B, rb)
                                j += 1
                        ok = b"".join(ra) == st(A, 4) and b"".join(rb) == st(B, 4)
                    except Exception as e:
                        ok = repr(e)
                    run.count("traces_validated_against_impl")
                    if ok is not True:
                        run.fail("%s:together:%s:%s" % (name, origin, "".join(map(str, sel))), "%s: two objects (second from the %s) used in the order %s: %s" % (name, origin, sel, "another stream" if ok is False else ok))
            for cut in range(5):
                x = cls.new()
                ra, rb = [], []
                for t in range(cut):
                    step(x, t, A, ra)
                y, e = pyref.quiet(copy.deepcopy, x)
                rb += ra
                if e is None:
                    data = A if cut >= 2 else (A[:70] + B[70:] if cut == 1 else B)
                    for t in range(cut, 5):
                        e = e or pyref.quiet(step, y, t, data, rb)[1]
                    for t in range(cut, 5):
                        e = e or pyref.quiet(step, x, t, A, ra)[1]
                    run.count("traces_validated_against_impl")
                    if e or b"".join(ra) != st(A, 4) or b"".join(rb) != st(data, 4):
                        run.fail("%s:copy:%d" % (name, cut), "%s: an object and its copy made after %d steps disturb each other (%r)" % (name, cut, e))
            for kinds in itertools.product((bytes, bytearray, memoryview), repeat=2):
                for lens in ((0, 5), (5, 0), (3, 200), (136, 136), (137, 1), (40, 33)):
                    d = [bytes(DATA[:lens[0]]), bytes(DATA[lens[0]:sum(lens)])]
                    x, e = cls.new(), None
                    for k, part in zip(kinds, d):
                        back = bytearray(part)
                        arg = back if k is bytearray else k(back)
                        e = e or pyref.quiet(x.update, arg)[1]
                        if bytes(back) != part:
                            e = e or "the caller's array was changed"
                        back[:] = bytes(len(back))
                    e = e or pyref.quiet(x.flip)[1]
                    got, e2 = pyref.quiet(lambda: b"".join(bytes(x.read(2)) for _ in range(40)))
                    run.count("traces_validated_against_impl")
                    if e or e2 or got != st(b"".join(d), 80):
                        run.fail("%s:input:%s:%s" % (name, "-".join(k.__name__ for k in kinds), list(lens)), "%s: pieces %s given as %s: %r" % (name, lens, [k.__name__ for k in kinds], e or e2 or "another stream"))
        for l in (0, 1, 40, 135, 136, 137, 272, 300):
            for m in (0, 1, 135, 136):
                for k in (bytes, bytearray):
                    x, e = pyref.quiet(shake.SHAKE.new, k(DATA[:l]))
                    got, e = (None, e) if e else pyref.quiet(lambda: (x.update(DATA[l:l + m]), x.flip(), bytes(x.read(50)))[2])
                    run.count("traces_validated_against_impl")
                    if e or got != spec.shake_stream(DATA[:l + m], 50):
                        run.fail("shake:new:%d:%d:%s" % (l, m, k.__name__), "SHAKE started with %d bytes, then %d more: %r" % (l, m, e or "another stream"))
    run.section("objects together", together)

    def keccaxof(run):
        """The hash-chain XOF, read two bytes at a time as hash-to-point does, and in pieces."""
        for parts in pieces((0, 1, 40, 135, 136, 137), 3):
            x = kx.KeccaXOF.new()
            o = 0
            for p in parts:
                x.update(DATA[o:o + p])
                o += p
            x.flip()
            d, st = spec.keccak256(DATA[:o]), b""
            while len(st) < 200:
                st += d
                d = spec.keccak256(d)
            got, e = pyref.quiet(lambda: b"".join(x.read(2) for _ in range(100)))
            run.count("traces_validated_against_impl")
            if got != st[:200]:
                run.fail("keccaxof:%s" % list(parts), "hash-chain XOF differs for pieces %s (%r)" % (parts, e))
            for reads in pieces((0, 1, 2, 3, 31, 32, 33, 64), 2 if q else 3):
                x = kx.KeccaXOF.new()
                x.update(DATA[:o])
                x.flip()
                got, e = pyref.quiet(lambda: [bytes(x.read(k)) for k in reads])
                run.count("traces_validated_against_impl")
                if e or b"".join(got) != chain_stream(DATA[:o], sum(reads)) or [len(g) for g in got] != list(reads):
                    run.fail("keccaxof:%d:read%s" % (o, list(reads)), "hash-chain XOF after %d bytes, reads %s: %r" % (o, reads, e or "another stream"))
            if pyref.quiet(x.update, b"z")[1] is None:
                run.fail("keccaxof:late-update", "hash-chain XOF accepts input after output")
    run.section("hash-chain", keccaxof)

    def blake(run):
        """Cairo BLAKE2s over field elements equals BLAKE2s of the encoded words."""
        import sys
        sys.path.insert(0, os.path.join(pyref.PYREF, "blake2s"))
        import importlib.util
        sp = importlib.util.spec_from_file_location("cairo_blake2s", os.path.join(pyref.PYREF, "blake2s", "blake2s.py"))
        b2 = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(b2)
        P = 2 ** 251 + 17 * 2 ** 192 + 1
        vals = [0, 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, P - 1, P, P + 5, 2 ** 251, 2 ** 256 - 1]
        seqs = [s for k in (0, 1, 2) for s in itertools.product(vals, repeat=k)] + [tuple(vals[(i * 7 + k) % 12] for i in range(k)) for k in range(3, 40)] + \
               [(v,) * k for v in (1, P - 1) for k in (7, 8, 9, 15, 16, 17, 24)]
        for s in seqs:
            for enc in (True, False):
                for le in (True, False):
                    by = b""
                    for x in s:
                        v = x % P
                        short = enc and v < 2 ** 63
                        if enc and not short:
                            v += 2 ** 255
                        w = v.to_bytes(8 if short else 32, "little")
                        words = [w[i:i + 4] for i in range(0, len(w), 4)]
                        by += b"".join(words if le else words[::-1])
                    want = int.from_bytes(hashlib.blake2s(by).digest(), "little") % P
                    got, e = pyref.quiet(b2.calculate_blake2s_hash_from_felt252s, list(s), enc, le)
                    run.count("traces_validated_against_impl")
                    if got != want:
                        run.fail("cairo:%d:%s:%s:%s" % (len(s), enc, le, list(s)[:3]), "field-element BLAKE2s differs for %s encode=%s little=%s (%r)" % (s, enc, le, e))
    run.section("cairo-blake2s", blake)
    run.sample({"history": "absorb 40,33 then reads 2,31,33", "expected": "SHAKE256/Keccak counter stream"})
    run.note(bounds="every history of up to two absorbs and two reads over the block-boundary sizes, deeper on one side; every absorb/read size at every block position (thorough)")
