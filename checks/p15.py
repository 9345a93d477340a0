"""P15: Python hash-to-point is the specified rejection sampling for every answer of the hash."""
import hashlib, itertools
from vf import pyref, spec
from vf.cases import section, split

LEVEL = "model_checking"


class Tape:
    """Stand-in for an XOF class: answers come from an enumerated word tape, then accepted zeros forever; calls are recorded."""

    def __init__(self, data):
        self.data, self.pos, self.fed, self.fin, self.bad = data, 0, b"", 0, None

    def new(self, x=b""):
        self.fed += bytes(x)
        return self

    def update(self, b):
        if self.fin:
            self.bad = "input after output started"
        self.fed += bytes(b)

    def flip(self):
        self.fin += 1

    def read(self, k):
        if not self.fin:
            self.bad = "output before the input was closed"
        d = self.data[self.pos:self.pos + k]
        d += bytes(k - len(d))
        self.pos += k
        return d


def main(run):
    falcon, prng, shake, blake, kx = pyref.load(run, "falcon", "keccak_prng", "shake", "blake2s_prng", "keccaxof")
    q = run.quick
    pyref.fast_keccak(run)

    def one(n, words):
        d = hashlib.shake_256(repr((n, words)).encode()).digest(44)
        salt, msg = d[:40], d[40:]
        t = Tape(b"".join(w.to_bytes(2, "big") for w in words))
        got, e = pyref.quiet(falcon.hash_to_point, n, msg, salt, xof=t)
        want = spec.h2p_words(n, list(words) + [0] * n)
        if e is not None:
            return "raised %r" % e
        if t.bad:
            return t.bad
        if t.fed != salt + msg:
            return "hash was fed %d bytes instead of salt then message" % len(t.fed)
        if list(got) != want:
            i = next((i for i in range(min(n, len(got))) if got[i] != want[i]), -1)
            return "coefficient %d is %s, not %s" % (i, got[i] if i >= 0 else len(got), want[i])
        return None

    # state of the machine: (coefficients filled, last word class); words are classes crossed with boundary values
    EDGE = [0, 1, 12288, 12289, 24577, 24578, 36866, 36867, 49155, 49156, 61444, 61445, 61446, 65534, 65535]

    def words(job):
        for w in range(*job):
            for pos in (0, 1, 3):
                yield "word%d@%d" % (w, pos), one(4, [7] * pos + [w, 5, 61445, 9]), w < 61445
    section(run, "every-word", [(a, a + 4096) for a in range(0, 65536, 4096)], words, what="transitions", nt="accepting_transitions")

    def patterns(job):
        n, d, lo, hi = job
        for m in range(lo, hi):
            ws = [(61445 + (i * 977) % 4091) if m >> i & 1 else (i * 4099 + 12288) % 61445 for i in range(d)]
            yield "n%d:pattern%x/%d" % (n, m, d), one(n, ws), m != 0
    d = 12 if q else 16
    js = [(n, d, a, min(a + 2048, 1 << d)) for n in (2, 4, 8) for a in range(0, 1 << d, 2048)]
    section(run, "accept-reject-patterns", js, patterns, what="traces_validated_against_impl", nt="traces_with_rejection")

    def edges(job):
        for ws in job:
            yield "edge%s" % (list(ws),), one(2, ws), any(w >= 61445 for w in ws)
    section(run, "edge-sequences", split(itertools.product(EDGE, repeat=3 if q else 4)), edges, what="traces_validated_against_impl", nt="traces_with_rejection")

    def bursts(job):
        """Long rejection runs at every position of full-size polynomials."""
        n, ps = job
        for p in ps:
            for k in (1, 2, 100):
                ws = [(i * 31) % 61445 for i in range(p)] + [61445 + i for i in range(k)] + [(i * 17 + 1) % 61445 for i in range(n)]
                yield "n%d:burst%d@%d" % (n, k, p), one(n, ws), 1
    section(run, "bursts", [(n, list(range(0, n, max(1, n // (16 if q else 128))))[i::4] + [n - 1]) for n in spec.BOUND for i in range(4)], bursts, what="traces_validated_against_impl", nt="traces_with_rejection")

    def chain(d, k):
        s, o = spec.keccak256(d), b""
        while len(o) < k:
            o += s
            s = spec.keccak256(s)
        return o[:k]
    XOFS = {"keccak": (prng.KeccakPRNG, spec.keccak_stream), "shake": (shake.SHAKE, spec.shake_stream),
            "blake2s": (blake.Blake2sPRNG, lambda d, k: spec.blake_stream(hashlib.blake2s(d[:40]).digest() + d[40:], k)), "chain": (kx.KeccaXOF, chain)}

    def binding(job):
        """Real hashes: every message length around the blocks; salt and message both count; salt|message boundary shifts matter only through the concatenation."""
        name, n, lens = job
        cls, stream = XOFS[name]
        for ln in lens:
            msg = hashlib.shake_256(b"q%d" % ln).digest(ln)
            salt = hashlib.shake_256(b"salt%d" % ln).digest(40)
            got, e = pyref.quiet(falcon.hash_to_point, n, msg, salt, xof=cls)
            want = spec.h2p(n, salt + msg, stream)
            yield "%s:n%d:len%d" % (name, n, ln), None if e is None and list(got) == want else "hash to point differs (%r)" % e, 1
            if name in ("shake", "keccak", "blake2s"):
                pk = falcon.PublicKey(n, [1] * n)
                f = getattr(pk, "hash_to_point", None)
                if f is not None:
                    got, e = pyref.quiet(f, n, msg, salt, xof=cls)
                    yield "pk:%s:n%d:len%d" % (name, n, ln), None if e is None and list(got) == want else "hash to point of the key object differs (%r)" % e, 1
    js = []
    for name in ("keccak", "shake", "blake2s", "chain"):
        js += [(name, 8, list(range(0, 300, 1 if not q else 2))[i::4]) for i in range(4)]
        js += [(name, n, [0, 95, 96, 97, 136, 500]) for n in (64, 512, 1024)]
        js += [(name, 8, [800, 991, 992] + ([1023, 2000, 4055, 4056] if name != "blake2s" else []))]
    section(run, "real-hash", js, binding, what="traces_validated_against_impl", nt="traces_with_rejection")

    # every sequence of calls: an answer depends on no earlier call, nor on what a caller does with an earlier answer
    CALLS = [(x, n, v) for x in XOFS for n in (2, 4) for v in ("a", "message", "salt", "split")]

    def history(job):
        first, depth = job
        for rest in itertools.product(CALLS, repeat=depth - 1):
            seq, bad = (first,) + rest, None
            tag = hashlib.shake_256(repr(seq).encode()).digest(48)
            arg = {"a": (tag[:40], tag[40:]), "message": (tag[:40], tag[40:47]), "salt": (tag[1:41], tag[40:]), "split": (tag[:39], tag[39:])}
            for i, (x, n, v) in enumerate(seq):
                if x == "blake2s" and v == "split":
                    continue
                got, e = pyref.quiet(falcon.hash_to_point, n, arg[v][1], arg[v][0], xof=XOFS[x][0])
                if e is not None or list(got) != spec.h2p(n, arg[v][0] + arg[v][1], XOFS[x][1]):
                    bad = "call %d (%s, degree %d, %s) differs (%r)" % (i, x, n, v, e)
                    break
                got[0] = 12289 + i
                del got[1:]
            yield "calls:%s" % "-".join("%s%d%s" % c for c in seq), bad, 1
    section(run, "call-history", [(c, 3 if q else 4) for c in CALLS], history, what="traces_validated_against_impl")
    run.count("states", sum(n + 1 for n in spec.BOUND))
    run.sample({"words": [61444, 61445, 12289], "coefficients": [12288, 0]})
    run.note(model="machine whose state is the number of filled coefficients; a transition consumes one 16-bit word; every word is a transition explored on the code")
