"""C10: the native AES-256 CTR_DRBG and seed expander are the specified generators for every history of requests."""
import ctypes as C, hashlib, itertools
from Crypto.Cipher import AES
from vf import cbuild
from vf.drbg import Drbg
from vf.cases import section, split

LEVEL = "model_checking"


def main(run):
    q = run.quick
    so = cbuild.Lib(run).build("drbg", harness=())
    L = C.CDLL(so)
    L.randombytes.argtypes = [C.c_void_p, C.c_ulonglong]
    SEEDS = [bytes(48), b"\xff" * 48, bytes(range(48)), hashlib.shake_256(b"c10%d" % run.seed).digest(48)]
    SIZES = (0, 1, 15, 16, 17, 31, 32, 33, 48, 100)

    def read(n):
        b = C.create_string_buffer(b"\xA5" * (n + 32), n + 32)
        L.randombytes(C.addressof(b) + 16, n)
        if b.raw[:16] != b"\xA5" * 16 or b.raw[16 + n:] != b"\xA5" * 16:
            return None
        return b.raw[16:16 + n]

    def histories(job):
        for seed, pers, hist in job:
            r = Drbg(seed, pers or b"")
            keep = bytes(seed)
            sb = C.create_string_buffer(seed, 48)
            L.randombytes_init(sb, C.create_string_buffer(pers, 48) if pers is not None else None, 256)
            why = "seed was modified" if sb.raw != keep else None
            for i, n in enumerate(hist):
                if why:
                    break
                got = read(n)
                if got is None:
                    why = "request %d of %d bytes wrote outside its buffer" % (i, n)
                elif got != r.read(n):
                    why = "request %d of %d bytes differs" % (i, n)
            yield "%s:%s:%s" % (seed[-1:].hex(), pers and pers[-1], hist), why, len(hist) > 1
    hs = [h for d in range(1, 4 if q else 6) for h in itertools.product(SIZES[:7] if d > 3 else SIZES, repeat=d)]
    hs += [(n, 16) for n in range(0, 700 if q else 5000)]
    hs += [(n, 17) for n in (32752, 32767, 32768, 32769, 32785, 65535, 65536, 65537, 65552, 131089, 1 << 20)]
    cs = [(s, p, h) for h in hs for s in (SEEDS if len(h) == 1 else SEEDS[-1:]) for p in ((None, bytes(range(48)), b"\xff" * 48) if len(h) == 1 else (None,))]
    section(run, "histories", split(cs, 16), histories, what="traces_validated_against_impl", nt="multi_request_traces")
    run.count("transitions", sum(len(h) for _, _, h in cs))
    run.count("states", len({(s, p, tuple(h[:i])) for s, p, h in cs for i in range(len(h) + 1)}))

    class St(C.Structure):
        _fields_ = [("Key", C.c_ubyte * 32), ("V", C.c_ubyte * 16), ("n", C.c_int)]

    def wrap(job):
        try:
            st = St.in_dll(L, "DRBG_ctx")
        except ValueError:
            return
        for bits in range(1, 129):
            for back in range(1, 12):
                L.randombytes_init(C.create_string_buffer(SEEDS[2], 48), None, 256)
                r = Drbg(SEEDS[2])
                if bytes(st.Key) != r.k or bytes(st.V) != r.v.to_bytes(16, "big"):
                    return          # state kept differently: nothing to steer
                r.v = (2 ** bits - back) % 2 ** 128
                st.V[:] = r.v.to_bytes(16, "big")
                yield "carry%d-%d" % (bits, back), None if read(64) == r.read(64) and read(5) == r.read(5) else "output after a counter carry differs", 1
    section(run, "carries", [0], wrap, what="traces_validated_against_impl", nt="multi_request_traces")

    def expander(job):
        """NIST seed expander: one AES-CTR stream however it is cut, and exact refusal at the declared length."""
        for maxlen, div, hist in job:
            ctx = C.create_string_buffer(256)
            seed = bytes(range(7, 39))
            rc = L.seedexpander_init(ctx, C.create_string_buffer(seed, 32), C.create_string_buffer(div, 8), C.c_ulong(maxlen))
            key = "%d:%s:%s" % (maxlen, div.hex(), hist)
            if maxlen >= 1 << 32:
                yield key, None if rc != 0 else "length beyond 32 bits accepted", 1
                continue
            c = AES.new(seed, AES.MODE_ECB)
            pre = div + maxlen.to_bytes(4, "big")
            total = sum(hist) + 16
            stream = c.encrypt(b"".join(pre + i.to_bytes(4, "big") for i in range((min(total, maxlen + 16) + 15) // 16)))
            pos, why, left = 0, None, maxlen
            for i, n in enumerate(hist):
                b = C.create_string_buffer(b"\xA5" * (n + 16), n + 16)
                rc = L.seedexpander(ctx, b, C.c_ulong(n))
                if n >= left:
                    if rc == 0 or b.raw != b"\xA5" * (n + 16):
                        why = "request %d beyond the declared length served" % i
                        break
                    continue
                left -= n
                if rc != 0 or b.raw[:n] != stream[pos:pos + n] or b.raw[n:] != b"\xA5" * 16:
                    why = "request %d of %d bytes at stream position %d is wrong" % (i, n, pos)
                    break
                pos += n
            yield key, why, len(hist) > 1
    hs = [h for d in range(1, 4 if q else 5) for h in itertools.product((0, 1, 15, 16, 17, 33), repeat=d)]
    cs = [(5000, b"divers01", h) for h in hs] + [(m, bytes([255] * 8), h) for m in (0, 1, 16, 17, 40, (1 << 32) - 1, 1 << 32) for h in ((1,), (15, 1), (16, 1, 1), (39, 1, 0), (17, 22))]
    cs += [(1 << 20, b"divers03", (n, 33)) for n in (32752, 32767, 32768, 32785, 65535, 65536, 65552, 131089)]
    cs += [((1 << 32) - 1, b"divers02", h) for h in ((4096, 17), (4080, 33), ((1 << 20) - 16, 40), (1 << 20, 1))]
    section(run, "seed-expander", split(cs, 8), expander, what="traces_validated_against_impl", nt="multi_request_traces")

    class Xof(C.Structure):
        _fields_ = [("buffer", C.c_ubyte * 16), ("buffer_pos", C.c_int), ("length_remaining", C.c_ulong), ("key", C.c_ubyte * 32), ("ctr", C.c_ubyte * 16)]

    def expander_wrap(job):
        for bits in range(1, 33):
            for back in range(1, 6):
                ctx = C.create_string_buffer(256)
                seed, div, maxlen = bytes(range(7, 39)), b"divers04", (1 << 32) - 1
                L.seedexpander_init(ctx, C.create_string_buffer(seed, 32), C.create_string_buffer(div, 8), C.c_ulong(maxlen))
                x = Xof.from_buffer(ctx)
                pre = div + maxlen.to_bytes(4, "big")
                if bytes(x.ctr) != pre + bytes(4) or bytes(x.key) != seed or x.length_remaining != maxlen or x.buffer_pos != 16:
                    return          # state kept differently: nothing to steer
                start = (1 << bits) - back
                if start < 0:
                    continue
                x.ctr[:] = pre + start.to_bytes(4, "big")
                want = AES.new(seed, AES.MODE_ECB).encrypt(b"".join(pre + ((start + i) % (1 << 32)).to_bytes(4, "big") for i in range(6)))
                got = b""
                for n in (5, 40, 1, 34):
                    b = C.create_string_buffer(n)
                    if L.seedexpander(ctx, b, C.c_ulong(n)) != 0:
                        break
                    got += b.raw
                yield "block%d-%d" % (bits, back), None if got == want[:80] else "the stream after a counter carry differs", 1
    section(run, "expander-carries", [0], expander_wrap, what="traces_validated_against_impl", nt="multi_request_traces")
    run.sample({"history": [17, 0, 33], "oracle": "SP 800-90A CTR_DRBG over pycryptodome AES"})
