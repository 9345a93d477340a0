"""J01: the JavaScript module is the native 16-bit scheme: same keys, same signatures, same verdicts, on any lengths."""
import ctypes as C, os, subprocess, threading
from vf import chain, gobind, native, spec
from vf.core import REPO, ROOT
from vf.cases import section, split

LEVEL = "exploration"


class Js(gobind.Proc):
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(ROOT, "harness", "js_h.js"), os.path.join(REPO, "falcon", "falcon.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.err, self.timeout = b"", 120
        threading.Thread(target=self._drain, daemon=True).start()


def hx(b):
    return b.hex() or "."


def main(run):
    q = run.quick
    nat = native.both(run)[0]
    SEED = lambda k: native.seed48("j01", run.seed, k)
    nat.l.zknox_crypto_sign_keypair_from_seed.argtypes = [C.c_void_p, C.c_void_p, C.c_char_p, C.c_size_t]

    def keypair(seed):
        pk, sk = C.create_string_buffer(1025), C.create_string_buffer(1281)
        r = nat.l.zknox_crypto_sign_keypair_from_seed(pk, sk, seed, len(seed))
        return (pk.raw, sk.raw) if r == 0 else None

    def reset():
        """The native generator in the state a new process starts in."""
        C.memset(C.addressof((C.c_char * 52).in_dll(nat.l, "DRBG_ctx")), 0, 52)
    pk0, sk0 = keypair(SEED(0))
    nat.seed(SEED("s"))
    M = b"the message"
    SM = nat.sign(1, M, sk0)[1]

    class Face:
        def __init__(self):
            self.p = Js()

        def __call__(self, *a):
            try:
                return self.p.ask(*a)
            except gobind.Died as e:
                why = str(e)
                self.p.close()
                self.p = Js()
                return ["died", why]

        def close(self):
            self.p.close()

    def keys(job):
        face = Face()
        for n in job:
            s = spec.shake_stream(b"j01 %d" % n, n)
            got, want = face("K", hx(s)), keypair(s)
            want = ["ok", want[0].hex(), want[1].hex()] if want else ["err"]
            yield "seed of %d bytes" % n, None if got == want else "key pair differs from the native one: %s" % " ".join(got)[:60], True
        face.close()
    section(run, "keys from seeds", split(list(range(0, 66)) + [100, 1000] if q else range(0, 500), 4), keys)

    # a new process signs a sequence of messages; the native library, started from the same state, must give the same bytes
    def sequences(job):
        for lens in job:
            face = Face()
            reset()
            for i, n in enumerate(lens):
                m = spec.shake_stream(b"j01m %d" % n, n)
                got = face("S", hx(m), hx(sk0))
                r, sm = nat.sign(1, m, sk0)
                why = None if r == 0 and got == ["ok", sm.hex()] else "call %d, message of %d bytes: signature differs from the native one (%s)" % (i, n, " ".join(got)[:40])
                if why is None:
                    g = face("V", hx(sm), hx(pk0))
                    why = None if g == ["ok", hx(m)] else "own signature of %d bytes message answered %s" % (n, " ".join(g)[:60])
                yield "sequence %s call %d" % (lens if len(lens) < 5 else "from %d" % lens[0], i), why, True
            got = face("k")
            r, pk, sk = (lambda a: (nat.l.h_keypair(1, None, a[0], a[1]), a[0].raw, a[1].raw))((C.create_string_buffer(1025), C.create_string_buffer(1281)))
            yield "sequence from %d key pair" % lens[0], None if got == ["ok", pk.hex(), sk.hex()] else "key pair after the sequence differs from the native one", True
            face.close()
    L = list(range(0, 140)) + [255, 256, 1000, 4096, 65536] if q else list(range(0, 2000)) + [4095, 4096, 65536, 1000000]
    section(run, "signatures of every message length", split([L[i::8] for i in range(8)], 8), sequences)

    def verdict(face, sm, pk):
        got = face("V", hx(sm), hx(pk))
        r, m = nat.open(1, sm, pk)
        want = ["ok", hx(m)] if r == 0 else ["no"]
        return None if got == want else "answered %s, the native verifier %s" % (" ".join(got)[:60], "accepts" if r == 0 else "rejects")

    def check(job):
        face = Face()
        for nm, sm, pk in job:
            yield nm, verdict(face, sm, pk), True
        face.close()

    def flip(b, i):
        return b[:i >> 3] + bytes([b[i >> 3] ^ (0x80 >> (i & 7))]) + b[(i >> 3) + 1:]
    rows = [("signed message bit %d" % i, flip(SM, i), pk0) for i in range(0, len(SM) * 8, 17 if q else 1)] + [("key bit %d" % i, SM, flip(pk0, i)) for i in range(0, 1025 * 8, 29 if q else 1)]
    section(run, "every single-bit change", split(rows, 6), check)
    rows = [("first %d bytes" % n, SM[:n], pk0) for n in range(0, len(SM), 7 if q else 1)] + [("%d bytes appended" % n, SM + bytes(n), pk0) for n in range(1, 40)]
    rows += [("declared length %d" % n, bytes([n >> 8, n & 255]) + SM[2:], pk0) for n in list(range(0, 65536, 257 if q else 5)) + list(range(1020, 1030))]
    rows += [("header %d" % h, SM[:53] + bytes([h]) + SM[54:], pk0) for h in range(256)] + [("key header %d" % h, SM, bytes([h]) + pk0[1:]) for h in range(256)]
    section(run, "every length and header", split(rows, 6), check)

    # non-canonical 16-bit values: v + q for every coefficient value
    def canonical(job):
        face = Face()
        c = [int.from_bytes(SM[54 + 2 * i:56 + 2 * i], "big") for i in range(512)]
        bad = 0
        for i in job:
            for v in (c[i] + spec.Q, c[i] + 2 * spec.Q, c[i] + 3 * spec.Q, c[i] + 4 * spec.Q):
                if v < 65536:
                    sm = SM[:54 + 2 * i] + v.to_bytes(2, "big") + SM[56 + 2 * i:]
                    bad += verdict(face, sm, pk0) is not None
        yield "values of q and more", "%d signed messages that hold a coefficient of q or more are answered differently from the native verifier" % bad if bad else None, True
        face.close()
    section(run, "second encodings", [range(0, 512, 8 if q else 1)], canonical)

    # keys built around chosen signatures: large coefficients and the norm bound
    def forged(job):
        face = Face()
        old = 0
        for i, which, v, delta in job:
            m, salt = b"forged %d" % i, spec.shake_stream(b"salt %d %d %d" % (i, v, delta), 40)
            s1, s2 = chain.edge(i, which, v, delta)
            h = chain.key_for(chain.hash_point("shake", salt, m), s1, s2)
            be = lambda a: b"".join((int(x) % spec.Q).to_bytes(2, "big") for x in a)
            sm = (1025).to_bytes(2, "big") + salt + m + b"\x29" + be(s2)
            got = face("V", hx(sm), hx(b"\x09" + be(h)))
            want = ["ok", hx(m)] if delta <= 0 else ["no"]
            why = None if got == want else "norm %+d from the bound: answered %s" % (delta, " ".join(got)[:40])
            if which and v >= 2047 and delta <= 0:      # one known defect of the shipped binary: counted together
                old += got != want
                continue
            yield "s%d[%d] = %d, norm %+d from the bound" % (which + 1, i, v, delta), why or verdict(face, sm, b"\x09" + be(h)), True
        yield "s2 coefficients of 2047 to 6144", "%d valid signatures that hold a coefficient of 2047 to 6144 are rejected" % old if old else None, True
        face.close()
    rows = [(i, w, v, d) for i in ((0, 1, 255, 511) if q else range(0, 512, 7)) for w in (0, 1) for v in (1, -1, 2046, 2047, 2048, -2047, -2048, 4095, 4096, 5800, -5800) for d in (-1, 0, 1)]
    section(run, "norm bound and large coefficients", split(rows, 6), forged)

    # the verdict may not depend on what was opened before
    def histories(job):
        face = Face()
        body = [SM[:53], SM[:53] + b"\x29", SM[:53] + b"\x29\0", SM[:-2], SM[:1053], flip(SM, 45 * 8)]
        body = [(len(b) - 53).to_bytes(2, "big") + b[2:] for b in body]
        names = ["no signature", "a signature of only its header byte", "a signature of two bytes", "a signature without its last coefficient", "a long prefix of the signature", "another message"]
        for nm, b in zip(names, body):
            for first in (SM, body[4], body[5]):
                face("V", hx(first), hx(pk0))
                got = face("V", hx(b), hx(pk0))
                if got != ["no"]:
                    break
            yield "%s opened after an honest signature" % nm, None if got == ["no"] else "accepted: %s" % " ".join(got)[:60], True
        face.close()
    section(run, "histories of opens", [0], histories)

    def fresh(job):
        seen, sigs = set(), set()
        for k in range(3):
            face = Face()
            seen.add(face("k")[1])
            face.close()
            face = Face()
            sigs.add(face("S", hx(M), hx(sk0))[1][4:84])
            face.close()
        yield "key pairs of new processes", "3 new processes drew %d different key pairs" % len(seen) if len(seen) < 3 else None, True
        yield "nonces of new processes", "3 new processes drew %d different nonces" % len(sigs) if len(sigs) < 3 else None, True
    section(run, "fresh randomness in every process", [0], fresh)
    run.note(rule="each case is one call of the shipped falcon.js under node, with guard bytes around every buffer, compared with the native library in the same state; all are non-trivial", exhaustive=True)
