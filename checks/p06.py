"""P06: Python key encodings are canonical and invertible, and agree with the NIST format."""
import itertools
from vf import pyref, spec
from vf.cases import section

LEVEL = "exploration"
FG = {1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 7, 7: 7, 8: 6, 9: 6, 10: 5}


def bits_of(vals, w):
    s = "".join(format(v & ((1 << w) - 1), "0%db" % w) for v in vals)
    s += "0" * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def modq_dec(b, n):
    """Values or None."""
    need = (14 * n + 7) // 8
    if len(b) < need:
        return None
    s = "".join(format(x, "08b") for x in b[:need])
    v = [int(s[14 * i:14 * i + 14], 2) for i in range(n)]
    return v if max(v) < spec.Q and "1" not in s[14 * n:] else None


def trim_dec(b, n, w):
    need = (w * n + 7) // 8
    if len(b) < need:
        return None
    s = "".join(format(x, "08b") for x in b[:need])
    v = [int(s[w * i:w * i + w], 2) for i in range(n)]
    if any(x == 1 << (w - 1) for x in v) or "1" in s[w * n:]:
        return None
    return [x - (1 << w) if x >> (w - 1) else x for x in v]


def main(run):
    falcon, codec, kat = pyref.load(run, "falcon", "falcon_codec", "scripts.generate_kat_rsp")
    q = run.quick

    def agree(fn, args, want, exc=(ValueError, IndexError)):
        """Decoder result: want, or a refusal when want is None."""
        got, e = pyref.quiet(fn, *args)
        if want is None:
            return None if isinstance(e, exc) or got is False else ("accepted as %s" % str(got)[:50] if e is None else "raised %r" % e)
        if e is not None:
            return "refused with %r" % e
        return None if list(got) == list(want) else "decoded to %s, not %s" % (str(got)[:50], str(want)[:50])

    def modq1(job):
        lo, hi = job
        for v in range(lo, hi):
            b = v.to_bytes(2, "big")
            yield "n1:%04x" % v, agree(codec.modq_decode, (b, 1), modq_dec(b, 1)), modq_dec(b, 1) is not None
            if v < 16384 and (v < 200 or v > 12000 or v % 7 == 0):
                got, e = pyref.quiet(codec.modq_encode, [v], 1)
                why = None
                if v < spec.Q and (e is not None or bytes(got) != bits_of([v], 14)):
                    why = "encodes to %s (%r)" % (got, e)
                if v >= spec.Q and e is None:
                    why = "value %d outside the range was encoded" % v
                yield "enc1:%d" % v, why, v < spec.Q
    section(run, "modq-one", [(a, a + 4096) for a in range(0, 65536, 4096)], modq1)

    def modqn(job):
        n, vals, pos = job
        for fill in (0, 1, 12288, 8191):
            for v in vals:
                x = [fill] * n
                x[pos] = v
                b = bits_of(x, 14)
                for pad in range(1 if (14 * n) % 8 == 0 else 2 ** min(4, 8 - (14 * n) % 8)):
                    bb = b[:-1] + bytes([b[-1] | pad])
                    yield "n%d:%d@%d:fill%d:pad%d" % (n, v, pos, fill, pad), agree(codec.modq_decode, (bb, n), modq_dec(bb, n)), v < spec.Q and not pad
                if v < spec.Q:
                    got, e = pyref.quiet(codec.modq_encode, x, n)
                    yield "enc:n%d:%d@%d:fill%d" % (n, v, pos, fill), None if e is None and bytes(got) == b else "encoding differs (%r)" % e, 1
                else:
                    yield "enc:n%d:%d@%d:fill%d" % (n, v, pos, fill), None if pyref.quiet(codec.modq_encode, x, n)[1] is not None else "value outside the range was encoded", 0
        for ln in range(0, len(bits_of([0] * n, 14)) + 3):
            b = bits_of([5] * n, 14)
            b = b[:ln] + bytes(max(0, ln - len(b)))
            yield "n%d:len%d" % (n, ln), agree(codec.modq_decode, (b, n), modq_dec(b, n)), modq_dec(b, n) is not None
    edge = [0, 1, 2, 8191, 8192, 12287, 12288, 12289, 12290, 16383, -1, 16384]
    allv = list(range(0, 16384, 1 if not q else 29)) + edge[:-2]
    js = [(n, [v for v in allv if v >= 0], p) for n in (1, 2, 3, 4, 5) for p in range(n)]
    js += [(n, edge[:-2], p) for n in (8, 64, 512) for p in (range(n) if n < 512 else range(0, n, 73 if q else 7))]
    section(run, "modq-many", js, modqn)

    def outside(job):
        for v in (-1, -12288, 12289, 16384, 65536):
            yield "range:%d" % v, None if pyref.quiet(codec.modq_encode, [v, 0], 2)[1] is not None else "value outside the range was encoded", 1
        for w in range(2, 9):
            m = (1 << (w - 1)) - 1
            for v in range(-300, 300):
                got, e = pyref.quiet(codec.trim_i8_encode, [v, 0], 2, w)
                ok = abs(v) <= m
                why = None
                if ok and (e is not None or bytes(got) != bits_of([v, 0], w)):
                    why = "encoding of %d in %d bits differs (%r)" % (v, w, e)
                if not ok and e is None:
                    why = "%d was encoded in %d bits" % (v, w)
                yield "trim:%d:%d" % (w, v), why, ok
    section(run, "ranges", [0], outside)

    def trim(job):
        n, w, lo, hi = job
        ln = (n * w + 7) // 8
        for v in range(lo, hi):
            b = v.to_bytes(ln, "big")
            want = trim_dec(b, n, w)
            yield "n%d:w%d:%x" % (n, w, v), agree(codec.trim_i8_decode, (b, n, w), want), want is not None
            if want is not None:
                got, e = pyref.quiet(codec.trim_i8_encode, want, n, w)
                yield "back:n%d:w%d:%x" % (n, w, v), None if e is None and bytes(got) == b else "accepted string is not the encoding of its value", 1
    js = []
    for w in (2, 3, 4, 5, 6, 7, 8):
        for n in (1, 2, 3, 4, 5):
            tot = 1 << (8 * ((n * w + 7) // 8))
            if tot <= 1 << 16:
                js += [(n, w, a, min(a + 4096, tot)) for a in range(0, tot, 4096)]
            elif not q and tot <= 1 << 24:
                js += [(n, w, a, a + (1 << 16)) for a in range(0, tot, 1 << 17)]
    section(run, "trim", js, trim)

    def keys(job):
        """Published keys: private key round trip, completion fG - gF = q, public key bytes."""
        n, k = job
        f, g, F, G = pyref.keys(run, n)[k]
        lg = spec.LOGN[n]
        yield "ntru:%d:%d" % (n, k), None if [a - b for a, b in zip(spec.negamul(f, G), spec.negamul(g, F))] == [spec.Q] + [0] * (n - 1) else "published key is not an NTRU basis", 1
        got, e = pyref.quiet(codec.complete_private, list(f), list(g), list(F), n)
        yield "complete:%d:%d" % (n, k), None if e is None and list(got) == list(G) else "completed G differs (%r)" % e, 1
        if max(map(abs, f + g)) < 1 << (FG[lg] - 1) and max(map(abs, F)) < 128:
            b = bytes([0x50 + lg]) + bits_of(f, FG[lg]) + bits_of(g, FG[lg]) + bits_of(F, 8)
            got, e = pyref.quiet(kat.decode_secret_key_nist, b.hex(), n)
            yield "sk:%d:%d" % (n, k), None if e is None and [list(x) for x in got] == [f, g, F, G] else "private key bytes decode to something else (%r)" % e, 1
            enc = b"".join([codec.trim_i8_encode(f, n, codec.MAX_FG_BITS[lg]), codec.trim_i8_encode(g, n, codec.MAX_FG_BITS[lg]), codec.trim_i8_encode(F, n, codec.MAX_FG_BITS_FG[lg])])
            yield "skenc:%d:%d" % (n, k), None if enc == b[1:] else "private key encodes to something else", 1
            # each coefficient replaced by the forbidden value, every truncation, wrong headers
            w = FG[lg]
            for part, (off, wid) in enumerate(((0, w), (n * w, w), (2 * n * w, 8))):
                for i in range(0, n, max(1, n // 8)):
                    s = "".join(format(x, "08b") for x in b[1:])
                    o = off + i * wid
                    s = s[:o] + "1" + "0" * (wid - 1) + s[o + wid:]
                    bb = b[:1] + bytes(int(s[j:j + 8], 2) for j in range(0, len(s), 8))
                    yield "skbad:%d:%d:%d:%d" % (n, k, part, i), None if pyref.quiet(kat.decode_secret_key_nist, bb.hex(), n)[1] is not None else "forbidden coefficient accepted", 1
            for cut in list(range(1, 12)) + [len(b) // 2, len(b) - 1]:
                yield "skcut:%d:%d:%d" % (n, k, cut), None if pyref.quiet(kat.decode_secret_key_nist, b[:-cut].hex(), n)[1] is not None else "truncated private key accepted", 1
            for h in range(256):
                if h != 0x50 + lg:
                    yield "skhead:%d:%d:%02x" % (n, k, h), None if pyref.quiet(kat.decode_secret_key_nist, (bytes([h]) + b[1:]).hex(), n)[1] is not None else "wrong header accepted", 1
        hn = [a * pow(x, -1, spec.Q) % spec.Q for a, x in zip(spec.ntt(g), spec.ntt(f))]
        from polyntt.ntt_iterative import NTTIterative
        h = NTTIterative(spec.Q).intt(hn)
        enc = bits_of(h, 14)
        got, e = pyref.quiet(codec.modq_encode, h, n)
        yield "h:%d:%d" % (n, k), None if e is None and bytes(got) == enc else "public polynomial encodes differently (%r)" % e, 1
        if n == 512:
            got, e = pyref.quiet(kat.encode_public_key, h, n)
            yield "pk:%d:%d" % (n, k), None if e is None and bytes(got) == b"\x09" + enc else "public key bytes differ (%r)" % e, 1
        if n in (512, 1024):
            pk, e = pyref.quiet(falcon.PublicKey.from_bytes, bytes([lg]) + enc)
            yield "from_bytes:%d:%d" % (n, k), None if e is None and pk.n == n and list(pk.pk) == h else "public key not restored (%r)" % e, 1
    section(run, "keys", [(n, k) for n in sorted(spec.BOUND, reverse=True) for k in (range(2) if q and n >= 256 else range(12))], keys)

    # the wide private key format of the vector script: two bytes for every coefficient
    def wide(job):
        for base in job:
            v = [base + i for i in range(2048)]
            got, e = pyref.quiet(kat.encode_secret_key, v[:512], v[512:1024], v[1024:1536], v[1536:], 512)
            yield "wide:%d" % base, None if e is None and bytes(got) == b"".join((x & 0xffff).to_bytes(2, "big") for x in v) else "private coefficients from %d encode differently (%r)" % (base, e), 1
    if hasattr(kat, "encode_secret_key"):
        section(run, "wide private keys", [[b] for b in range(-32768, 32768, 2048)], wide)

    def frombytes(job):
        n, kind, lo, hi, st = job
        lg = spec.LOGN[n]
        h = [(i * i * 7 + 3 * i) % spec.Q for i in range(n)]
        b0 = bytes([lg]) + bits_of(h, 14)
        for i in range(lo, hi, st):
            b = b0
            if kind == "head":
                b = bytes([i]) + b0[1:]
            elif kind == "len":
                b = (b0 * 3)[:i]
            elif kind == "flip":
                t = bytearray(b0)
                t[i // 8] ^= 0x80 >> (i % 8)
                b = bytes(t)
            if kind == "coef":
                for v in (0, 12288, 12289, 12290, 16383):
                    x = list(h)
                    x[i] = v
                    b = bytes([lg]) + bits_of(x, 14)
                    yield check(b, "n%d:coef%d=%d" % (n, i, v))
                continue
            yield check(b, "n%d:%s:%d" % (n, kind, i))

    def check(b, key):
        want = None
        for n in (512, 1024):
            if len(b) == 1 + 14 * n // 8 and b[0] == spec.LOGN[n]:
                want = modq_dec(b[1:], n)
                m = n
        pk, e = pyref.quiet(falcon.PublicKey.from_bytes, b)
        if want is None:
            return key, None if isinstance(e, ValueError) else ("accepted" if e is None else "raised %r" % e), 0
        if e is not None:
            return key, "refused: %r" % e, 1
        return key, None if pk.n == m and list(pk.pk) == want else "decoded to other values", 1
    js = [(n, "head", 0, 256, 1) for n in (512, 1024)] + [(512, "len", a, a + 250, 1) for a in range(0, 2000, 250)]
    for n in (512, 1024):
        L = 8 * (1 + 14 * n // 8)
        st = 1 if not q else 2
        js += [(n, "flip", a + run.seed % st, min(a + 500, L), st) for a in range(0, L, 500)]
        js += [(n, "coef", a, a + 64, 1 if not q else 3) for a in range(0, n, 64)]
    section(run, "from-bytes", js, frombytes)
    run.sample({"bytes": "3001c0.. (coefficient 12289)", "verdict": "refused"})
    run.note(rule="a case is one byte string decoded or one value vector encoded, compared with an independent bit-string codec; non-trivial when the input is valid")
