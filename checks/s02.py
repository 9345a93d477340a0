"""On-chain Epervier / ETHEpervier recovery: exactly the addresses the specification recovers, for exactly one encoding of a signature."""
import numpy as np
from vf import chain, cases, spec
from vf.chain import Q, N, BOUND
from checks.s01 import SALT, MSG, shipped_tests

LEVEL = "exploration"
VARIANTS = ("epervier", "ethepervier")


def hint_of(s2):
    p = 1
    for x in chain.ntt(s2):
        p = p * int(x) % Q
    return pow(p, -1, Q) if p else None


def expected(v, msg, salt, c1, c2, hint):
    """Address, or "revert"."""
    if len(salt) != 40 or len(c1) != 32 or len(c2) != 32 or not 0 <= hint < Q:
        return "revert"
    a, b = np.array(chain.expand(c1), dtype=np.int64), np.array(chain.expand(c2), dtype=np.int64)
    if (a >= Q).any() or (b >= Q).any():
        return "revert"
    if int((chain.cmod(a) ** 2).sum() + (chain.cmod(b) ** 2).sum()) > BOUND:
        return "revert"
    if hint_of(b) != hint:
        return "revert"
    c = chain.hash_point(chain.KIND[v], salt, msg)
    return spec.address(chain.key_for(c, a, b))


def same(got, want):
    return got == want


def edges(run, cs):
    vals = (5000, -5000) if run.quick else (1, -1, 700, -700, 5000, -5000)

    def job(places):
        for v, c in cs.items():
            for i in places:
                for which in (0, 1):
                    for x in vals:
                        for d in (0, 1):
                            s1, s2 = chain.edge(i, which, x, d)
                            a, b, k = chain.compact([t % Q for t in s1]), chain.compact([t % Q for t in s2]), hint_of(s2)
                            got, want = chain.ask(c, "recover", MSG, SALT, a, b, k), expected(v, MSG, SALT, a, b, k)
                            why = None if got == want else "%s: squared norm bound%+d with %d at place %d of s%d: recovered %s, expected %s" % (v, d, x, i, which + 1, got, want)
                            yield "%s/s%d/%d/%d/%d" % (v, which + 1, i, x, d), why, want != "revert"
    cases.section(run, "bound at every coefficient", cases.split(range(N), 32), job)


def lanes(run, cs):
    vals = [6144, 6145, Q, Q + 1, 65535] if run.quick else [0, 1, 2, 100, 5500, 6143, 6144, 6145, 6146, Q - 1, Q, Q + 1, Q + 6144, 2 * Q - 1, 2 * Q, 32768, 5 * Q, 65535]

    def job(places):
        for v, c in cs.items():
            s1, s2 = chain.small(5), chain.small(6)
            b1, b2 = [t % Q for t in s1], [t % Q for t in s2]
            hint = hint_of(s2)
            for i in places:
                for which in (0, 1):
                    base = (b1, b2)[which]
                    for x in [base[i], base[i] + Q, (base[i] + 1) % Q] + vals:
                        l = [list(b1), list(b2)]
                        l[which][i] = x
                        h = hint if which == 0 or x % Q == base[i] else hint_of(l[1])
                        if h is None:
                            h = 0
                        a, b = chain.compact(l[0]), chain.compact(l[1])
                        got, want = chain.ask(c, "recover", MSG, SALT, a, b, h), expected(v, MSG, SALT, a, b, h)
                        why = None if got == want else "%s: lane %d of s%d set to %d: recovered %s, expected %s" % (v, i, which + 1, x, got, want)
                        yield "%s/s%d/%d/%d" % (v, which + 1, i, x), why, want != "revert"
    cases.section(run, "every lane of s1 and s2", cases.split(range(N), 32), job)


def hints(run, cs):
    """Every hint value: exactly one is accepted."""
    def job(hs):
        for v, c in cs.items():
            a, b = (chain.compact([t % Q for t in chain.small(k)]) for k in (5, 6))
            right = hint_of(chain.small(6))
            addr = expected(v, MSG, SALT, a, b, right)
            for h in hs:
                got = chain.ask(c, "recover", MSG, SALT, a, b, h)
                want = addr if h == right else "revert"
                yield "%s/%d" % (v, h), None if got == want else "%s: hint %d (the right one is %d): recovered %s" % (v, h, right, got), True
    vals = list(range(Q)) + [Q + hint_of(chain.small(6)), Q, 2 * Q + hint_of(chain.small(6)), 2**255 // Q * Q + hint_of(chain.small(6)), 2**256 - 1,
                             2**16 + hint_of(chain.small(6)), 2**32 + hint_of(chain.small(6)), (2**256 // Q - 1) * Q + hint_of(chain.small(6))]
    cases.section(run, "every hint", cases.split(vals, 32), job)


def zeros(run, cs):
    """s2 with a zero at each point of the transform recovers nothing, whatever the hint."""
    def job(places):
        for v, c in cs.items():
            a = chain.compact([t % Q for t in chain.small(5)])
            for i in places:
                # small s2 vanishing at point i: X^j - r with r = x_i^j small
                s2 = None
                for j in range(1, N):
                    r = pow(int(chain.X[i]), j, Q)
                    r = r - Q if r > Q // 2 else r
                    if abs(r) < 5000:
                        s2 = [0] * N
                        s2[0], s2[j] = (-r) % Q, 1
                        break
                if s2 is None:
                    continue
                b = chain.compact(s2)
                rest = 1
                for x in chain.ntt(s2):
                    rest = rest * int(x) % Q if x else rest
                for h in (0, 1, pow(rest, -1, Q), Q - 1):
                    got = chain.ask(c, "recover", MSG, SALT, a, b, h)
                    yield "%s/%d/%d" % (v, i, h), None if got == "revert" else "%s: s2 vanishes at point %d, hint %d: recovered %s" % (v, i, h, got), True
    cases.section(run, "s2 that cannot be inverted", cases.split(range(N), 16), job)


def texts(run, cs):
    def job(ls):
        for v, c in cs.items():
            a, b = (chain.compact([t % Q for t in chain.small(k)]) for k in (5, 6))
            h = hint_of(chain.small(6))
            for n in ls:
                msg = bytes((3 * k + n) & 255 for k in range(n))
                got, want = chain.ask(c, "recover", msg, SALT, a, b, h), expected(v, msg, SALT, a, b, h)
                yield "%s/%d" % (v, n), None if got == want else "%s: message of %d bytes: recovered %s, expected %s" % (v, n, got, want), True
    cases.section(run, "every message length", cases.split(range(150 if run.quick else 700), 16), job)

    def lens(ns):
        for v, c in cs.items():
            a, b = (chain.compact([t % Q for t in chain.small(k)]) for k in (5, 6))
            h = hint_of(chain.small(6))
            for n in ns:
                for nm, args in (("salt", ((SALT * 3)[:n], a, b)), ("s1", (SALT, (a * 4)[:n], b)), ("s2", (SALT, a, (b * 4)[:n])), ("both", (SALT, (a * 4)[:n], (b * 4)[:n]))):
                    got, want = chain.ask(c, "recover", MSG, *args, h), expected(v, MSG, *args, h)
                    yield "%s/%s/%d" % (v, nm, n), None if got == want else "%s: %s of length %d: recovered %s, expected %s" % (v, nm, n, got, want), want != "revert"
    cases.section(run, "every length of salt, s1 and s2", cases.split(range(100), 16), lens)

    def bits(bs):
        for v, c in cs.items():
            a, b = (chain.compact([t % Q for t in chain.small(k)]) for k in (5, 6))
            h = hint_of(chain.small(6))
            for t in bs:
                m, s = bytearray(MSG), bytearray(SALT)
                if t < 256:
                    m[t // 8] ^= 1 << t % 8
                else:
                    s[(t - 256) // 8] ^= 1 << t % 8
                got, want = chain.ask(c, "recover", bytes(m), bytes(s), a, b, h), expected(v, bytes(m), bytes(s), a, b, h)
                yield "%s/bit%d" % (v, t), None if got == want else "%s: bit %d of message and salt: recovered %s, expected %s" % (v, t, got, want), True
    cases.section(run, "every bit of message and salt", cases.split(range(576), 16), bits)


def keys(run, cs):
    """Signatures made for the published keys' rings recover the address of their key; HashToAddress is keccak's last 20 bytes."""
    def job(ks):
        for v, c in cs.items():
            for k in ks:
                s1, s2 = chain.small(100 + k), chain.small(200 + k)
                msg = b"text %d" % k
                a, b = chain.compact([t % Q for t in s1]), chain.compact([t % Q for t in s2])
                got, want = chain.ask(c, "recover", msg, SALT, a, b, hint_of(s2)), expected(v, msg, SALT, a, b, hint_of(s2))
                yield "%s/%d" % (v, k), None if got == want else "%s: signature %d: recovered %s, expected %s" % (v, k, got, want), True
                m = bytes(range(k % 256)) * 3
                got = chain.ask(c, "HashToAddress", m)
                yield "%s/hash/%d" % (v, k), None if got == int.from_bytes(spec.keccak256(m)[12:], "big") else "%s: HashToAddress of %d bytes: %s" % (v, len(m), got), True
    cases.section(run, "further signatures", cases.split(range(200 if run.quick else 2000), 16), job)


def deployment(run, cs):
    """The signature the deployment script checks on the fresh contract, and each of its parts replaced, give what the specification says."""
    import os, re
    from vf.core import REPO
    p = os.path.join(REPO, "script", "DeployEPERVIER.s.sol")
    t = open(p, encoding="utf8").read() if os.path.exists(p) else ""
    arr = [[int(x) for x in re.findall(r"\d+", re.sub(r"uint\((\d+)\)", r"\1", m))] for m in re.findall(r"uint\[512\]\s+memory\s+\w+\s*=\s*\[(.*?)\];", t, re.S)]
    hint, pk = re.search(r"\bhint\s*=\s*(\d+)", t), re.search(r"address\((\d{20,})\)", t)
    msg, salt = re.search(r"\bmessage\s*=\s*\"([^\"]*)\"", t), re.search(r"\bsalt\s*=\s*\"((?:\\x[0-9a-f]{2})+)\"", t)
    if [len(x) for x in arr] != [N, N] or not (hint and pk and msg and salt):
        return
    s1, s2 = arr
    hint, pk, msg, salt = int(hint[1]), int(pk[1]), msg[1].encode(), bytes.fromhex(salt[1].replace("\\x", ""))

    def job(ks):
        for k in ks:
            c = cs["epervier"]
            a, b, m, z, h = list(s1), list(s2), msg, salt, hint
            if k == 1:
                a[3] = (a[3] + 1) % Q
            elif k == 2:
                b[3] = (b[3] + 1) % Q
            elif k == 3:
                m += b"!"
            elif k == 4:
                z = z[:-1] + bytes([z[-1] ^ 1])
            elif k == 5:
                h += 1
            elif k == 6:
                a, b = b, a
            a, b = chain.compact(a), chain.compact(b)
            got, want = chain.ask(c, "recover", m, z, a, b, h), expected("epervier", m, z, a, b, h)
            why = None if got == want else "recovered %s, expected %s" % (got, want)
            if k == 0 and got != pk:
                why = "the signature checked by the deployment script recovers %s and not its address %d: deployment fails" % (got, pk)
            yield "change %d" % k, why, True
    cases.section(run, "deployment script", [range(7)], job)


def main(run):
    cs = {v: chain.contract(run, v) for v in VARIANTS}
    edges(run, cs)
    lanes(run, cs)
    hints(run, cs)
    zeros(run, cs)
    texts(run, cs)
    keys(run, cs)
    deployment(run, cs)
    shipped_tests(run, "shipped contract tests", [("test/epervier.t.sol", "ZKNOX_epervierTest"), ("test/ethepervier.t.sol", "ZKNOX_epervierTest"), ("test/epervierKATS.t.sol", "EpervierKATS_Test")])
