"""On-chain Falcon / ETHFalcon verification accepts exactly what the specification accepts."""
from vf import chain, cases, sol
from vf.chain import Q, N, BOUND

LEVEL = "exploration"
SALT = bytes(range(7, 47))
MSG = b"a message for the chain, 32 byte"


def build(run):
    return {v: chain.contract(run, v) for v in ("falcon", "ethfalcon")}


def edges(run, cs):
    vals = (5000, -5000) if run.quick else (1, -1, 700, -700, 5000, -5000)
    deltas = (0, 1) if run.quick else (-1, 0, 1, 2)

    def job(places):
        for v, c in cs.items():
            h = chain.hash_point(chain.KIND[v], SALT, MSG)
            for i in places:
                for which in (0, 1):
                    for x in vals:
                        for d in deltas:
                            s1, s2 = chain.edge(i, which, x, d)
                            key = chain.key_for(h, s1, s2)
                            got = chain.ask(c, "verify", MSG, SALT, chain.compact([t % Q for t in s2]), chain.compact(key))
                            want = d <= 0
                            why = None
                            if bool(got is True) != want:
                                why = "%s: squared norm bound%+d with %d at place %d of s%d: verify says %s" % (v, d, x, i, which + 1, got)
                            yield "%s/s%d/%d/%d/%d" % (v, which + 1, i, x, d), why, want
    cases.section(run, "bound at every coefficient", cases.split(range(N), 32), job)


def lanes(run, cs):
    vals = [1, 6144, 6145, Q - 1, Q, Q + 1, 32768, 65535] if run.quick else [1, 2, 100, 5500, 6143, 6144, 6145, 6146, Q - 1, Q, Q + 1, Q + 6144, 2 * Q - 1, 2 * Q, 32768, 5 * Q, 65535]

    def job(places):
        for v, c in cs.items():
            h = chain.hash_point(chain.KIND[v], SALT, MSG)
            s1 = chain.small(5)
            s2 = chain.small(6)
            key = chain.compact(chain.key_for(h, s1, s2))
            base = [t % Q for t in s2]
            for i in places:
                for x in [base[i], base[i] + Q] + vals:
                    l = list(base)
                    l[i] = x
                    w = chain.compact(l)
                    got = chain.ask(c, "verify", MSG, SALT, w, key)
                    want = chain.accepts(chain.KIND[v], MSG, SALT, w, key)
                    why = None if (got is True) == want else "%s: lane %d of s2 set to %d: verify says %s, the specification %s" % (v, i, x, got, want)
                    yield "%s/%d/%d" % (v, i, x), why, want
            # the second encoding of a value, where the value is positive, zero and negative
            for sign, s2 in (("+", s2), ("-", [-t for t in s2]), ("0", [t if i % 16 == 3 else 0 for i, t in enumerate(s2)])):
                key = chain.compact(chain.key_for(h, s1, s2))
                base = [t % Q for t in s2]
                for i in places:
                    l = list(base)
                    l[i] += Q
                    got = chain.ask(c, "verify", MSG, SALT, chain.compact(l), key)
                    yield "%s/%d/alias%s" % (v, i, sign), "%s: lane %d of s2 holds %d + q: verify says %s" % (v, i, base[i], got) if got is True else None, True
    cases.section(run, "every lane of s2", cases.split(range(N), 32), job)


def forged(run, cs):
    """s2 = c/h, s1 = 0 and its relatives: no short s2, so nothing may pass."""
    def job(ks):
        for v, c in cs.items():
            for k in ks:
                msg = b"pay %d" % k
                h = chain.hash_point(chain.KIND[v], SALT, msg)
                g, f = chain.small(20 + k), chain.small(60 + k)
                key = chain.ntt(g) * chain.inv(chain.ntt(f)) % Q
                if (key == 0).any():
                    continue
                tries = {"c/h": chain.intt(chain.ntt(h) * chain.inv(key) % Q), "zero": [0] * N, "-c/h": (-chain.intt(chain.ntt(h) * chain.inv(key) % Q)) % Q,
                         "1/h": chain.intt(chain.inv(key)), "c": h, "f": [x % Q for x in f], "key": key, "q": [Q] * N, "max": [65535] * N}
                for nm, s2 in tries.items():
                    w = chain.compact(s2)
                    got = chain.ask(c, "verify", msg, SALT, w, chain.compact(key))
                    want = chain.accepts(chain.KIND[v], msg, SALT, w, chain.compact(key))
                    yield "%s/%s/%d" % (v, nm, k), None if (got is True) == want else "%s: s2 = %s is accepted without a private key" % (v, nm), True
    cases.section(run, "forgeries without a key", cases.split(range(8 if run.quick else 40), 8), job)


def texts(run, cs):
    """Every message length; every bit of the message and of the salt bound."""
    top = 160 if run.quick else 700

    def job(ls):
        for v, c in cs.items():
            kd = chain.KIND[v]
            for n in ls:
                msg = bytes((3 * k + n) & 255 for k in range(n))
                h = chain.hash_point(kd, SALT, msg)
                s2 = chain.compact([t % Q for t in chain.small(6)])
                key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
                got = chain.ask(c, "verify", msg, SALT, s2, key)
                yield "%s/%d" % (v, n), None if got is True else "%s: valid signature of a %d-byte message: %s" % (v, n, got), True
                for nm, m, s in (("longer", msg + b"\0", SALT), ("shifted", SALT[-1:] + msg, SALT[:-1]), ("swapped", msg[::-1], SALT)) + ((("shorter", msg[:-1], SALT),) if n else ()):
                    got = chain.ask(c, "verify", m, s, s2, key)
                    want = chain.accepts(kd, m, s, s2, key)
                    yield "%s/%d/%s" % (v, n, nm), None if (got is True) == want else "%s: %s message of %d bytes: %s" % (v, nm, n, got), False
    cases.section(run, "every message length", cases.split(range(top), 32), job)

    def bits(bs):
        for v, c in cs.items():
            kd = chain.KIND[v]
            h = chain.hash_point(kd, SALT, MSG)
            s2 = chain.compact([t % Q for t in chain.small(6)])
            key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
            for b in bs:
                m, s = bytearray(MSG), bytearray(SALT)
                if b < 256:
                    m[b // 8] ^= 1 << b % 8
                else:
                    s[(b - 256) // 8] ^= 1 << b % 8
                got = chain.ask(c, "verify", bytes(m), bytes(s), s2, key)
                yield "%s/bit%d" % (v, b), "%s: signature still accepted after flipping bit %d of message and salt" % (v, b) if got is not False else None, True
    cases.section(run, "every bit of message and salt", cases.split(range(256 + 320), 16), bits)


def lengths(run, cs):
    def job(ns):
        for v, c in cs.items():
            kd = chain.KIND[v]
            for n in ns:
                salt = (SALT * 3)[:n]
                h = chain.hash_point(kd, salt, MSG)
                s2 = chain.compact([t % Q for t in chain.small(6)])
                key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
                got = chain.ask(c, "verify", MSG, salt, s2, key)
                yield "%s/salt%d" % (v, n), None if (got is True) == (n == 40) else "%s: salt of %d bytes: %s" % (v, n, got), n == 40
                h = chain.hash_point(kd, SALT, MSG)
                key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
                for nm, a, b in (("s2", (s2 * 4)[:n], key), ("key", s2, (key * 4)[:n]), ("both", (s2 * 4)[:n], (key * 4)[:n])):
                    if n == 32 and nm != "both":
                        continue
                    got = chain.ask(c, "verify", MSG, SALT, a, b)
                    yield "%s/%s%d" % (v, nm, n), None if (got is True) == (n == 32) else "%s: %s of %d words: %s" % (v, nm, n, got), n == 32
    cases.section(run, "every length of salt, s2 and key", cases.split(range(100), 16), job)


def entry(run, cs):
    """verify(bytes key address, bytes32 digest, bytes signature), the key stored as contract code."""
    OK = sol.keccak4("verify(bytes,bytes32,bytes)")
    BAD = b"\xff" * 4

    def setup(v, k):
        c = cs[v]
        dig = chain.spec.keccak256(b"digest %d" % k)
        salt = chain.spec.shake_stream(b"salt %d" % k, 40)
        h = chain.hash_point(chain.KIND[v], salt, dig)
        s2 = chain.compact([t % Q for t in chain.small(6)])
        key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
        blob = (32).to_bytes(32, "big") + (32).to_bytes(32, "big") + b"".join(w.to_bytes(32, "big") for w in key)
        addr = c.call("setKey", blob)[0]
        return c, dig, salt, s2, addr

    def call(c, pk, d, sig):
        return chain.ask(c, "verify", pk, int.from_bytes(d, "big"), sig)

    def job(ks):
        for v in cs:
            c, dig, salt, s2, pk = setup(v, 1)
            sig = salt + b"".join(w.to_bytes(32, "big") for w in s2)
            for n in ks:
                s = (sig + bytes(200))[:n]
                got = call(c, pk, dig, s)
                want = n == 1064
                yield "%s/len%d" % (v, n), None if (got == OK) == want else "%s: signature cut or padded to %d bytes: %r" % (v, n, got), want
            # the answer does not depend on the calls before it
            for n in ks[:3]:
                got = call(c, pk, dig, sig)
                yield "%s/again%d" % (v, n), None if got == OK else "%s: valid signature refused after other calls: %r" % (v, got), True
    ns = sorted(set(list(range(0, 1200, 9)) + list(range(0, 80)) + list(range(1030, 1130)))) if run.quick else list(range(1264))
    cases.section(run, "entry point: every signature length", cases.split(ns, 16), job)

    def bits(bs):
        for v in cs:
            c, dig, salt, s2, pk = setup(v, 2)
            sig = salt + b"".join(w.to_bytes(32, "big") for w in s2)
            c2, dig2, salt2, s22, pk2 = setup(v, 3)
            for nm, p, d in (("other key", pk2, dig), ("other digest", pk, dig2), ("both other", pk2, dig2)):
                got = call(c, p, d, sig)
                yield "%s/%s" % (v, nm), None if got == BAD else "%s: %s: %r" % (v, nm, got), True
            for b in bs:
                s, d = bytearray(sig), bytearray(dig)
                (s if b < 8 * 1064 else d)[(b if b < 8 * 1064 else b - 8 * 1064) // 8] ^= 1 << b % 8
                got = call(c, pk, bytes(d), bytes(s))
                w = [int.from_bytes(s[40 + 32 * k:72 + 32 * k], "big") for k in range(32)]
                h = chain.hash_point(chain.KIND[v], salt, dig)
                kk = chain.compact(chain.key_for(h, chain.small(5), chain.small(6))) if False else None
                want = oracle(v, bytes(d), bytes(s[:40]), w)
                yield "%s/bit%d" % (v, b), None if got == (OK if want else BAD) else "%s: after flipping bit %d of signature and digest: %r, the specification says %s" % (v, b, got, want), want

    KEYS = {}
    for v in cs:
        dig = chain.spec.keccak256(b"digest 2")
        salt = chain.spec.shake_stream(b"salt 2", 40)
        KEYS[v] = chain.compact(chain.key_for(chain.hash_point(chain.KIND[v], salt, dig), chain.small(5), chain.small(6)))

    def oracle(v, d, salt, w):
        return chain.accepts(chain.KIND[v], d, salt, w, KEYS[v])
    step = 2 if run.quick else 1
    cases.section(run, "entry point: every bit", cases.split(range(run.seed % step, 8 * 1064 + 256, step), 32), bits)


def core(run, cs):
    """falcon_core refuses hashed points that do not have 512 coefficients."""
    def job(ns):
        for v, c in cs.items():
            h = chain.hash_point(chain.KIND[v], SALT, MSG)
            s2 = chain.compact([t % Q for t in chain.small(6)])
            key = chain.compact(chain.key_for(h, chain.small(5), chain.small(6)))
            for n in ns:
                got = chain.ask(c, "falcon_core", s2, key, (h * 3)[:n])
                yield "%s/%d" % (v, n), None if (got is True) == (n == 512) else "falcon_core with %d hashed coefficients: %s" % (n, got), n == 512
    cases.section(run, "hashed point of every length", cases.split(range(0, 1100, 1 if not run.quick else 4), 16), job)


def shipped(run, cs):
    """The translator runs the repository's own contract tests; every assertion in them holds."""
    todo = [("test/falcon.t.sol", "ZKNOX_FalconTest"), ("test/ethfalcon.t.sol", "ZKNOX_FalconTest"),
            ("test/falcon_core.t.sol", "ZKNOX_FalconTest"), ("test/ethfalcon_core.t.sol", "ZKNOX_FalconTest"), ("test/falconKATS.t.sol", "FalconKATS_Test"),
            ("test/ethfalconKATS.t.sol", "ETHFalconKATS_Test")]
    shipped_tests(run, "shipped contract tests", todo)


def shipped_tests(run, name, todo):
    def job(t):
        path, cn = t
        c = sol.Contract(run, path, cn, opt="-O0")
        if "setUp" in c.names:
            c.call("setUp")
        for n, ent in sorted(c.names.items()):
            if not n.lower().startswith("test") or not ent[0][3]:
                continue
            why = None
            try:
                c.call(n)
            except sol.Revert as e:
                why = "%s %s reverts: %r" % (path, n, e.args)
            yield "%s/%s" % (path, n), why, True
    cases.section(run, name, todo, job)


def main(run):
    cs = build(run)
    edges(run, cs)
    lanes(run, cs)
    forged(run, cs)
    texts(run, cs)
    lengths(run, cs)
    entry(run, cs)
    core(run, cs)
    shipped(run, cs)
