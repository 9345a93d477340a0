"""On-chain SHAKE256, Keccak generator and hash-to-point equal their definitions."""
import ctypes, hashlib, struct
import numpy as np
from vf import cases, cbuild, chain, sol, spec
from vf.chain import Q, N

LEVEL = "exploration"
WRAP = '''
 function parts(bytes memory a, bytes memory b, uint256 n1, uint256 n2) public pure returns (bytes memory x, bytes memory y) {
  CtxShake memory c = shakeInit();
  c = shakeUpdate(c, a);
  c = shakeUpdate(c, b);
  c = shakePad(c);
  (c, x) = shakeSqueeze(c, n1);
  (c, y) = shakeSqueeze(c, n2);
 }
 function digest(bytes memory a, uint256 n1) public pure returns (bytes memory x) {
  CtxShake memory c = shakeInit();
  c = shakeUpdate(c, a);
  x = shakeDigest(c, n1);
 }
 function plain(bytes memory a, uint256 n1) public pure returns (bytes memory x) {
  CtxShake memory c;
  c = shakeUpdate(c, a);
  x = shakeDigest(c, n1);
 }
 function two(bytes memory a, bytes memory b, uint256 n1) public pure returns (bytes memory x, bytes memory y) {
  CtxShake memory c = shakeInit();
  CtxShake memory d = shakeInit();
  c = shakeUpdate(c, a);
  d = shakeUpdate(d, b);
  x = shakeDigest(c, n1);
  y = shakeDigest(d, n1);
 }
'''


def text(n):
    return spec.shake_stream(b"text %d" % n, n) if n else b""


def sponge(run):
    c = sol.wrapper(run, "ShakeParts", ["src/ZKNOX_shake.sol"], WRAP)
    top = 300 if run.quick else 700

    def lens(ns):
        for n in ns:
            m = text(n)
            for nm in ("digest", "plain"):
                got = chain.ask(c, nm, m, 64)
                yield "%s/in%d" % (nm, n), None if got == hashlib.shake_256(m).digest(64) else "%s of %d bytes is wrong" % (nm, n), True
            got = chain.ask(c, "digest", b"abc", n)
            yield "out%d" % n, None if got == hashlib.shake_256(b"abc").digest(n) else "digest of %d bytes output is wrong" % n, True
    cases.section(run, "digest of every length", cases.split(range(top), 16), lens)
    B = [0, 1, 8, 135, 136, 137, 272] if run.quick else [0, 1, 2, 7, 8, 9, 134, 135, 136, 137, 138, 271, 272, 273]

    def split(ab):
        for a, b in ab:
            for x in B:
                for y in B:
                    m = text(a + b)
                    try:
                        got = b"".join(c.call("parts", m[:a], m[a:], x, y))
                    except sol.Revert as e:
                        got = e
                    yield "%d+%d/%d+%d" % (a, b, x, y), None if got == hashlib.shake_256(m).digest(x + y) else "absorb %d then %d, squeeze %d then %d: wrong" % (a, b, x, y), a and b and x and y
    cases.section(run, "every split of input and output", cases.split([(a, b) for a in B for b in B], 16), split)

    def pos(ps):
        for a in ps:
            for b in (1, 5, 136 - a % 136, 137):
                m = text(a + b)
                got = b"".join(c.call("parts", m[:a], m[a:], a, 140 - a % 137))
                yield "%d+%d" % (a, b), None if got == hashlib.shake_256(m).digest(a + 140 - a % 137) else "absorb %d then %d: wrong" % (a, b), True
    cases.section(run, "every place in the block", cases.split(range(280), 16), pos)

    def indep(ps):
        for a in ps:
            x, y = c.call("two", text(a), text(a + 3), 200)
            yield "%d" % a, None if x == hashlib.shake_256(text(a)).digest(200) and y == hashlib.shake_256(text(a + 3)).digest(200) else "two contexts used together: wrong", True
    cases.section(run, "two contexts", cases.split(range(0, 280, 5), 8), indep)


def permutation(run):
    c = sol.Contract(run, "src/ZKNOX_shake.sol")
    ref = ctypes.CDLL(cbuild.Lib(run).build("keccakf", srcs=[], harness=("keccakf.c",))).keccakf

    def f(st):
        b = (ctypes.c_uint64 * 25)(*st)
        ref(b)
        return list(b)

    def job(bits):
        for b in bits:
            for base in (0, 2**64 - 1):
                st = [base] * 25
                st[b // 64] ^= 1 << b % 64
                got = chain.ask(c, "f1600", list(st))
                yield "%d/%x" % (b, base & 1), None if got == f(st) else "permutation of a state with bit %d set apart is wrong" % b, True
    cases.section(run, "permutation on every single-bit state", cases.split(range(1600), 16), job)

    def rol(ss):
        for s in ss:
            for x in [1 << k for k in range(64)] + [2**64 - 1, 0x0123456789abcdef, 0]:
                want = ((x << s) | (x >> (64 - s))) & (2**64 - 1)
                got = chain.ask(c, "rol64", x, s)
                yield "%d/%x" % (s, x), None if got == want else "rol64(%#x, %d) = %s" % (x, s, got), s
    cases.section(run, "rotation", [list(range(64))], rol)


def tetration(salt, msg):
    t, out = spec.keccak256(msg + salt), []
    while True:
        for w in struct.unpack(">16H", t):
            if len(out) == N:
                return out
            if w < 5 * Q:
                out.append(w % Q)
        t = spec.keccak256(t)


def points(run):
    c = sol.Contract(run, "src/ZKNOX_HashToPoint.sol")
    fns = {"hashToPointNIST": lambda s, m: chain.hash_point("shake", s, m), "hashToPointEVM": lambda s, m: chain.hash_point("keccak", s, m)}
    if "hashToPointTETRATION" in c.names:
        fns["hashToPointTETRATION"] = tetration
    top = 200 if run.quick else 700

    def job(ns):
        for n in ns:
            for sl in (0, 40, n % 90):
                s, m = text(sl)[::-1], text(n)
                for nm, o in fns.items():
                    got = chain.ask(c, nm, s, m)
                    yield "%s/%d/%d" % (nm, sl, n), None if got == o(s, m) else "%s(salt of %d bytes, message of %d bytes) is wrong" % (nm, sl, n), True
    cases.section(run, "hash to point, every length", cases.split(range(top), 16), job)

    # messages whose stream has the words next to the rejection threshold (and its multiples of q) among those used
    want = [5 * Q - 1, 5 * Q, 5 * Q + 1, 65535, 0, Q - 1, Q, Q + 1, 4 * Q, 4 * Q - 1, 61440, 61696, 0xf000, 0xefff]
    salt = bytes(40)

    def find(nm):
        kind = {"hashToPointNIST": "shake", "hashToPointEVM": "keccak"}[nm]
        out = {}
        k = 0
        while len(out) < len(want) and k < 20000:
            m = b"w%d" % k
            st = spec.STREAMS[kind](salt + m, 1090)
            ws = struct.unpack(">545H", st)
            for w in want:
                if w not in out and w in ws[:512]:
                    out[w] = m
            k += 1
        return [(nm, w, m) for w, m in sorted(out.items())]
    todo = find("hashToPointNIST") + find("hashToPointEVM")

    def edge(ts):
        for nm, w, m in ts:
            got = chain.ask(c, nm, salt, m)
            yield "%s/%d" % (nm, w), None if got == fns[nm](salt, m) else "%s on a stream holding the word %d is wrong" % (nm, w), True
    cases.section(run, "words at the rejection threshold", cases.split(todo, 8), edge)

    # messages rejecting most often: the longest streams among many messages
    cand = sorted(range(3000 if run.quick else 40000), key=lambda k: -int((np.frombuffer(spec.keccak_stream(salt + b"r%d" % k, 1024), dtype=">u2") >= 5 * Q).sum()))[:40]
    cand2 = sorted(range(3000 if run.quick else 40000), key=lambda k: -int((np.frombuffer(spec.shake_stream(salt + b"r%d" % k, 1024), dtype=">u2") >= 5 * Q).sum()))[:40]

    def long(ks):
        for k in ks:
            m = b"r%d" % k
            for nm, o in fns.items():
                got = chain.ask(c, nm, salt, m)
                yield "%s/%d" % (nm, k), None if got == o(salt, m) else "%s on a stream with many rejected words is wrong" % nm, True
    cases.section(run, "many rejections", cases.split(cand + cand2, 8), long)

    def hexs(bs):
        for b in bs:
            x = 1 << b
            got = chain.ask(c, "splitToHex", x)
            yield "%d" % b, None if got == list(struct.unpack(">16H", x.to_bytes(32, "big"))) else "splitToHex of bit %d: %s" % (b, got), True
    cases.section(run, "word splitting", [list(range(256))], hexs)


def main(run):
    sponge(run)
    permutation(run)
    points(run)
    from checks.s01 import shipped_tests
    shipped_tests(run, "shipped contract tests", [("test/shake.t.sol", "ZKNOX_ShakeTest"), ("test/HashToPointEVMVectors.t.sol", "HashToPointEVMTest"), ("test/HashToPointNISTVectors.t.sol", "HashToPointNISTTest")])
