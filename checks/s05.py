"""On-chain encodings: packing, signature and key decompression, NIST vector splitting, signature packing."""
import numpy as np
from vf import cases, chain, sol, spec
from vf.chain import Q, N

LEVEL = "exploration"


def rng(tag, n):
    return np.frombuffer(spec.shake_stream(tag, 2 * n), dtype=">u2").astype(np.int64)


def words(run):
    c = sol.wrapper(run, "Words", ["src/ZKNOX_falcon_utils.sol", "src/ZKNOX_common.sol"], '''
 function com(uint256[] memory a) public pure returns (uint256[] memory) { return _ZKNOX_NTT_Compact(a); }
 function exp(uint256[] memory a) public pure returns (uint256[] memory) { return _ZKNOX_NTT_Expand(a); }
 function swp(uint256[] memory a) public pure returns (uint256[] memory) { return Swap(a); }
 function sig(bytes memory s, uint256[32] memory a) public pure returns (bytes memory) { return _packSignature(s, a); }
 function arr(uint256[32] memory a) public pure returns (bytes memory) { return _packUint256Array(a); }
 function cpy(uint256[32] memory a) public pure returns (uint256[] memory) { return ZKNOX_memcpy32(a); }
''')

    def job(ks):
        for k in ks:
            v = [(k * N + i * 129) % 65536 for i in range(N)]         # over all k every lane takes many values; with k running to 128 all 65536 occur
            got = chain.ask(c, "com", v)
            yield "compact/%d" % k, None if got == chain.compact(v) else "compacting vector %d is wrong" % k, True
            got = chain.ask(c, "exp", chain.compact(v))
            yield "expand/%d" % k, None if got == v else "expanding vector %d is wrong" % k, True
            got = chain.ask(c, "swp", v)
            yield "swap/%d" % k, None if got == v[::-1] else "reversing vector %d is wrong" % k, True
            w = chain.compact(v)
            b = b"".join(x.to_bytes(32, "big") for x in w)
            s = bytes((k + i) % 256 for i in range(40))
            got = chain.ask(c, "sig", s, w)
            yield "sig/%d" % k, None if got == s + b else "packed signature %d is wrong" % k, True
            got = chain.ask(c, "arr", w)
            yield "arr/%d" % k, None if got == b else "packed array %d is wrong" % k, True
            got = chain.ask(c, "cpy", w)
            yield "cpy/%d" % k, None if got == w else "copied array %d is wrong" % k, True
    cases.section(run, "words", cases.split(range(128), 8), job)

    def lane(ls):
        for l in ls:
            for x in (0, 1, 255, 256, Q - 1, 32768, 65535):
                v = [0] * N
                v[l] = x
                got, back = chain.ask(c, "com", v), chain.ask(c, "exp", chain.compact(v))
                yield "%d/%d" % (l, x), None if got == chain.compact(v) and back == v else "lane %d holding %d is packed wrong" % (l, x), x
    cases.section(run, "every lane", cases.split(range(N), 16), lane)


def signatures(run):
    c = sol.Contract(run, "src/ZKNOX_falcon_encodings.sol")

    def check(buf, off, key, what):
        got = chain.ask(c, "_decompress_sig", bytes(buf), off)
        # the decoder reads from off on as far as the 512 values need
        want = want_sig(bytes(buf[off:]))
        if want is None:
            why = None if got == "revert" else "%s: decoded although it is no encoding" % what
        else:
            why = None if got == [x % Q for x in want] else "%s: %s" % (what, "refused" if got == "revert" else "decoded wrongly")
        return key, why, want is not None

    def want_sig(b):
        s = "".join(format(x, "08b") for x in b)
        v, i = [], 0
        for _ in range(N):
            neg, low = s[i:i + 1] == "1", s[i + 1:i + 8]
            if len(low) < 7:
                return None
            j = s.find("1", i + 8)
            if j < 0 or j - i - 8 > 15:
                return None
            a = int(low, 2) + ((j - i - 8) << 7)
            if neg and a == 0:
                return None
            v.append(-a if neg else a)
            i = j + 1
        end = -(-i // 8)
        return v if "1" not in s[i:8 * end] and end < 666 else None

    base = [int(x) % 401 - 200 for x in rng(b"values", N)]
    enc = spec.compress(base, 1000).rstrip(b"\0")

    def vecs(ks):
        for k in ks:
            v = list(base)
            # value k - 2047 at a place moving through the vector
            for p in ((k * 5) % N, 0, 511):
                v[p] = k - 2047
                b = spec.compress(v, 1000)
                n = 8 * len(b)
                used = b.rstrip(b"\0")
                yield check(used, 0, "value%d/%d" % (k - 2047, p), "value %d at place %d" % (k - 2047, p))
                v[p] = base[p]
    cases.section(run, "every value", cases.split(range(4095), 32), vecs)

    def over(ks):
        """Fields longer than any value may be: the magnitude does not fit eleven bits."""
        for k in ks:
            for p in (0, (k * 37) % N, 511):
                for low in (0, 1, 127):
                    for neg in "01":
                        s = "".join((neg if i == p else "1" if x < 0 else "0") + format(low if i == p else abs(x) & 127, "07b") + "0" * (k if i == p else abs(x) >> 7) + "1" for i, x in enumerate(base))
                        s += "0" * (-len(s) % 8)
                        yield check(bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)), 0, "over%d/%d/%d/%s" % (k, p, low, neg), "a field of %d zeros at place %d" % (k, p))
    cases.section(run, "every field length", cases.split(list(range(48)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 513], 16), over)

    def flips(bs):
        for b in bs:
            m = bytearray(enc)
            m[b // 8] ^= 1 << b % 8
            yield check(m, 0, "flip%d" % b, "bit %d flipped" % b)
    cases.section(run, "every bit flipped", cases.split(range(8 * len(enc)), 32), flips)

    def zero(ps):
        for p in ps:
            v = list(base)
            v[p] = 0
            s = ""
            for i, x in enumerate(v):
                s += ("1" if x < 0 or i == p else "0") + format(abs(x) & 127, "07b") + "0" * (abs(x) >> 7) + "1"
            s += "0" * (-len(s) % 8)
            yield check(bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)), 0, "minus0/%d" % p, "-0 at place %d" % p)
    cases.section(run, "minus zero at every place", cases.split(range(N), 16), zero)

    def cut(ns):
        for n in ns:
            yield check(enc[:n], 0, "cut%d" % n, "first %d bytes" % n)
            yield check(enc + bytes(n % 40), 0, "zeros%d" % (n % 40), "followed by zero bytes")
            yield check(bytes(n % 50) + enc, n % 50, "offset%d" % (n % 50), "read from offset %d" % (n % 50))
    cases.section(run, "every truncation and offset", cases.split(range(len(enc) + 1), 16), cut)

    # the two first bytes and the last two bytes take every value
    def heads(hs):
        for h in hs:
            yield check(bytes([h >> 8, h & 255]) + enc[2:], 0, "head%04x" % h, "first two bytes %04x" % h)
            if not run.quick:
                yield check(enc[:-2] + bytes([h >> 8, h & 255]), 0, "tail%04x" % h, "last two bytes %04x" % h)
            elif h < 256:
                yield check(enc[:-1] + bytes([h]), 0, "tail%02x" % h, "last byte %02x" % h)
    cases.section(run, "every first and last byte", cases.split(range(0, 65536, 1 if not run.quick else 7) if not run.quick else list(range(256)) + list(range(256, 65536, 13)), 32), heads)

    def longs(ns):
        for n in ns:
            # n places hold 2047 (24 bits each): the encoding runs past the size limit
            v = [2047 if i < n else 1 for i in range(N)]
            b = spec.compress(v, 2000).rstrip(b"\0")
            yield check(b, 0, "long%d" % n, "encoding of %d bytes" % len(b))
    cases.section(run, "lengths around the limit", cases.split(range(0, 120), 8), longs)


def keys(run):
    c = sol.Contract(run, "src/ZKNOX_falcon_utils.sol")
    base = [int(x) % Q for x in rng(b"key", N)]

    def pack(v):
        s = "".join(format(x, "014b") for x in v)
        return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))

    def job(ps):
        for p in ps:
            for x in (0, 1, Q - 1, Q, Q + 1, 16383, 8192):
                v = list(base)
                v[p] = x
                got = chain.ask(c, "_ZKNOX_NTT_Decompress", b"\x09" + pack(v), 1)
                want = v if x < Q else "revert"
                yield "%d/%d" % (p, x), None if got == want else "key with coefficient %d = %d: %s" % (p, x, "refused" if got == "revert" else "accepted or wrong"), x < Q
    cases.section(run, "every key coefficient", cases.split(range(N), 16), job)

    def vals(xs):
        for x in xs:
            p = (x * 7) % N
            v = list(base)
            v[p] = x
            got = chain.ask(c, "_ZKNOX_NTT_Decompress", pack(v), 0)
            yield "%d" % x, None if got == (v if x < Q else "revert") else "key coefficient %d is decoded wrongly" % x, x < Q
    cases.section(run, "every key value", cases.split(range(16384), 16), vals)

    def cuts(ns):
        b = pack(base)
        for n in ns:
            got = chain.ask(c, "_ZKNOX_NTT_Decompress", b[:n], 0)
            yield "cut%d" % n, None if (got == base if n == len(b) else got == "revert") else "key of %d bytes: %s" % (n, got if got == "revert" else "accepted"), n == len(b)
            got = chain.ask(c, "_ZKNOX_NTT_Decompress", bytes(n % 60) + b, n % 60)
            yield "off%d" % n, None if got == base else "key at offset %d is decoded wrongly" % (n % 60), True
    cases.section(run, "every key length", cases.split(range(897), 16), cuts)


def kat(run):
    """decompress_KAT splits a NIST vector: salt, message of every length, signature and key."""
    c = sol.Contract(run, "src/ZKNOX_falcon_encodings.sol")
    base = [int(x) % 401 - 200 for x in rng(b"values", N)]
    enc = spec.compress(base, 1000).rstrip(b"\0")
    h = [int(x) % Q for x in rng(b"key", N)]
    s = "".join(format(x, "014b") for x in h)
    pk = b"\x09" + bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))

    def job(ns):
        for n in ns:
            salt, msg = spec.shake_stream(b"s%d" % n, 40), spec.shake_stream(b"m%d" % n, n) if n else b""
            sm = (len(enc) + 1).to_bytes(2, "big") + salt + msg + b"\x29" + enc
            try:
                got = c.call("decompress_KAT", pk, sm, n)
            except sol.Revert as e:
                got = e
            yield "len%d" % n, None if got == [h, [x % Q for x in base], salt, msg] else "vector with a message of %d bytes is split wrongly" % n, True
        for b in range(256):
            if ns[0] != 0:
                break
            for nm, p, m in (("key", bytes([b]) + pk[1:], sm0()), ("sig", pk, sm0(b))):
                try:
                    c.call("decompress_KAT", p, m, 5)
                    ok = True
                except sol.Revert:
                    ok = False
                want = b == (9 if nm == "key" else 0x29)
                yield "%s header %02x" % (nm, b), None if ok == want else "%s header %02x: %s" % (nm, b, "accepted" if ok else "refused"), want

    def sm0(b=0x29):
        return (len(enc) + 1).to_bytes(2, "big") + bytes(40) + b"hello" + bytes([b]) + enc
    cases.section(run, "NIST vectors", [list(range(k, 200 if run.quick else 3400, 16)) + [n for n in (255, 256, 257, 300, 511, 512, 513, 4096, 65535, 65536, 65537) if n % 16 == k] for k in range(16)], job)


def ranges(run):
    """falcon_checkPolynomialRange in both formats."""
    c = sol.Contract(run, "src/ZKNOX_falcon_core.sol")

    def job(ps):
        for p in ps:
            for x in (0, 1, Q - 1, Q, Q + 1, 65535):
                v = [int(t) % Q for t in rng(b"r", N)]
                v[p] = x
                a, b = chain.ask(c, "falcon_checkPolynomialRange", v, 0), chain.ask(c, "falcon_checkPolynomialRange", chain.compact(v), 1)
                yield "%d/%d" % (p, x), None if a is b is (x < Q) else "coefficient %d = %d: in range? expanded %s, compact %s" % (p, x, a, b), x >= Q
    cases.section(run, "range check", cases.split(range(N), 16), job)


def main(run):
    words(run)
    signatures(run)
    keys(run)
    kat(run)
    ranges(run)
    from checks.s01 import shipped_tests
    shipped_tests(run, "shipped contract tests", [("test/encodings.t.sol", "Encodings_Test")])
