"""On-chain number-theoretic transforms: linear maps equal to evaluation at the odd powers of psi, and products in Z_q[X]/(X^n + 1)."""
import numpy as np
from vf import cases, chain, sol, spec
from vf.chain import Q, N

LEVEL = "exploration"
WRAP = '''
 function fw(uint256[] memory a) public pure returns (uint256[] memory) { return _ZKNOX_NTTFW_vectorized(a); }
 function bw(uint256[] memory a) public pure returns (uint256[] memory) { return _ZKNOX_NTTINV_vectorized(a); }
 function had(uint256[] memory a, uint256[] memory b) public pure returns (uint256[] memory) { return _ZKNOX_VECMULMOD(a, b); }
 function half(uint256[] memory a, uint256[] memory b) public pure returns (uint256[] memory) { return _ZKNOX_NTT_HALFMUL_Compact(a, b); }
'''


def dense():
    r = np.arange(N)
    out = [np.full(N, Q - 1), np.full(N, 1), np.where(r % 2, Q - 1, 0), np.where(r % 2, 1, Q - 1), np.where(r < 256, Q - 1, 0), np.where(r < 256, 0, Q - 1), r * 24, (r * r) % Q, np.full(N, 6144), np.full(N, 6145)]
    k = 1
    while k < N:
        out.append(np.where(r & k, Q - 1, 0))
        k *= 2
    for s in range(40):
        out.append(np.frombuffer(spec.shake_stream(b"dense %d" % s, 2 * N), dtype=">u2").astype(np.int64) % Q)
    return [[int(x) for x in v] for v in out]


def unit(i, v):
    a = [0] * N
    a[i] = v
    return a


def transforms(run):
    c = sol.wrapper(run, "Transforms", ["src/ZKNOX_NTT_falcon.sol"], WRAP)
    vals = (1, Q - 1) if run.quick else (1, 2, 6144, 6145, Q - 1)
    tasks = [("unit", i, v) for i in range(N) for v in vals] + [("dense", k, None) for k in range(len(dense()))]
    D = dense()

    def vec(t):
        return unit(t[1], t[2]) if t[0] == "unit" else D[t[1]]

    def job(ts):
        for t in ts:
            a = vec(t)
            for nm, o in (("fw", chain.ntt), ("bw", chain.intt)):
                got, want = chain.ask(c, nm, a), [int(x) for x in o(a)]
                yield "%s/%s/%s/%s" % ((nm,) + t), None if got == want else "%s transform of %s vector %s (value %s) is wrong" % (nm, t[0], t[1], t[2]), True
            got = chain.ask(c, "bw", [int(x) for x in chain.ntt(a)])
            yield "round/%s/%s/%s" % t, None if got == [x % Q for x in a] else "inverse of the transform of %s vector %s is not the vector" % t[:2], True
    cases.section(run, "transforms on every unit vector and dense vectors", cases.split(tasks, 32), job)

    def prod(js):
        for j in js:
            b = [int(x) for x in chain.ntt(unit(j, Q - 3))]
            for i in range(j % 7, N, 7 if run.quick else 1):
                got = chain.ask(c, "half", chain.compact(unit(i, 5)), chain.compact(b))
                k = i + j
                want = unit(k % N, (5 * (Q - 3) if k < N else -5 * (Q - 3)) % Q)
                yield "%d*%d" % (i, j), None if got == chain.compact(want) else "5 X^%d times -3 X^%d is wrong" % (i, j), True
    cases.section(run, "products of monomials", cases.split([0, 1, 2, 3, 5, 15, 16, 255, 256, 257, 510, 511] if run.quick else range(N), 32), prod)

    def had(ks):
        for k in ks:
            a, b = D[k], D[(k * 7 + 3) % len(D)]
            got = chain.ask(c, "had", a, b)
            yield "had/%d" % k, None if got == [x * y % Q for x, y in zip(a, b)] else "pointwise product of dense vectors %d is wrong" % k, True
            got = chain.ask(c, "half", chain.compact(a), chain.compact(b))
            want = [int(x) for x in chain.intt(chain.ntt(a) * np.array(b) % Q)]
            yield "half/%d" % k, None if got == chain.compact(want) else "half product of dense vectors %d is wrong" % k, True
    cases.section(run, "products of dense vectors", cases.split(range(len(D)), 16), had)


def engine(run):
    """The ZKNOX_NTT contract: stateless and table-driven versions, every supported length."""
    NM = pow(N, -1, Q)
    c = sol.Contract(run, "src/ZKNOX_NTT.sol", "ZKNOX_NTT", ctor=[0, 0, Q, NM])
    rev = [int(format(i, "09b")[::-1], 2) for i in range(N)]
    psi = [pow(chain.PSI, e, Q) for e in rev]
    psii = [pow(chain.PSI, -e, Q) for e in rev]
    pack = lambda t: b"".join(x.to_bytes(32, "big") for x in t)
    D = dense()

    def job(ts):
        c.reset([0, 0, Q, NM])
        a1, a2 = c.store(pack(psi)), c.store(pack(psii))
        c.call("update", a1, a2, Q, NM)
        for t in ts:
            a = unit(t[1], t[2]) if t[0] == "unit" else D[t[1]]
            fwd, bwd = [int(x) for x in chain.ntt(a)], [int(x) for x in chain.intt(a)]
            for nm, args, want in (("ZKNOX_NTTFW", (a, a1), fwd), ("ZKNOX_NTTFW", (a, Q), fwd), ("ZKNOX_NTTINV", (a, a2), bwd), ("ZKNOX_NTTINV", (a, Q), bwd),
                                   ("_ZKNOX_NTTFW", (a, a1), fwd), ("_ZKNOX_NTTINV", (a, a2), bwd)):
                # two overloads differ only in the type of their last argument
                for k, (i, ps, rs, ok) in enumerate(c.names[nm]):
                    if (ps[1][0] == "address") != (args[1] in (a1, a2)):
                        continue
                    got = only(c, nm, k, *args)
                    yield "%s/%s/%s/%s/%s" % ((nm, ps[1][0]) + t), None if got == want else "%s(%s) of %s vector %s is wrong" % (nm, ps[1][0], t[0], t[1]), True
    tasks = [("unit", i, v) for i in range(N) for v in ((1, Q - 1) if not run.quick else ((1, Q - 1)[i % 2],))] + [("dense", k, 0) for k in range(len(D))]
    cases.section(run, "contract transforms", cases.split(tasks, 32), job)

    def prods(ks):
        c.reset([0, 0, Q, NM])
        c.call("update", c.store(pack(psi)), c.store(pack(psii)), Q, NM)
        for k in ks:
            a, b = D[k], D[(k * 11 + 5) % len(D)]
            nb = [int(x) for x in chain.ntt(b)]
            full = [x % Q for x in spec.negamul(a, b)]
            for nm, args, want in (("ZKNOX_NTT_HALFMUL", (a, nb), full), ("ZKNOX_NTT_HALFMUL", (a, nb, Q), full), ("ZKNOX_NTT_MUL", (a, b), full), ("mul_NTTPoly", (a, b, Q), full),
                                   ("ZKNOX_VECMULMOD", (a, b, Q), [x * y % Q for x, y in zip(a, b)]), ("_ZKNOX_VECMULMOD", (a, b, Q), [x * y % Q for x, y in zip(a, b)]),
                                   ("ZKNOX_VECADDMOD", (a, b, Q), [(x + y) % Q for x, y in zip(a, b)]), ("ZKNOX_VECSUBMOD", (a, b, Q), [(x - y) % Q for x, y in zip(a, b)]),
                                   ("ZKNOX_NTT_HALFMUL_Compact", (chain.compact(a), chain.compact(nb)), chain.compact(full))):
                if nm not in c.names:
                    continue
                got = chain.ask(c, nm, *args)
                yield "%s/%d/%d" % (nm, len(args), k), None if got == want else "%s of dense vectors %d is wrong" % (nm, k), True
    cases.section(run, "contract products", cases.split(range(len(D)), 16), prods)

    def sizes(ns):
        for n in ns:
            c.reset([0, 0, Q, pow(n, -1, Q)])
            for s in range(6):
                a = [int(x) for x in np.frombuffer(spec.shake_stream(b"a%d %d" % (n, s), 2 * n), dtype=">u2") % Q]
                b = [int(x) for x in np.frombuffer(spec.shake_stream(b"b%d %d" % (n, s), 2 * n), dtype=">u2") % Q]
                got = chain.ask(c, "mul_NTTPoly", a, b, Q)
                yield "%d/%d" % (n, s), None if got == [x % Q for x in spec.negamul(a, b)] else "product modulo X^%d+1 is wrong" % n, True
    cases.section(run, "every size", [[n] for n in (2, 4, 8, 16, 32, 64, 128, 256, 512)], sizes)

    # every sequence of table updates and freezing: what the getters and products then use
    ops = ["A", "B", "freeze", "read"]
    depth = 4 if run.quick else 6

    def seqs(firsts):
        for first in firsts:
            for rest in range(4 ** (depth - 1)):
                seq = [first] + [ops[(rest >> (2 * k)) & 3] for k in range(depth - 1)]
                c.reset([11, 12, Q, NM])
                cur, frozen, why = (11, 12), False, None
                for o in seq:
                    if o in "AB":
                        t = (100, 200) if o == "A" else (300, 400)
                        step(c, "update", t[0], t[1], Q, NM)
                        if not frozen:
                            cur = t
                    elif o == "freeze":
                        step(c, "make_immutable")
                        frozen = True
                    got = (state(c, "o_psirev"), state(c, "o_psi_inv_rev"))
                    if got != cur and why is None:
                        why = "after %s: tables are %s, expected %s" % (seq, got, cur)
                yield "-".join(seq), why, "freeze" in seq
    cases.section(run, "every sequence of updates and freezing", [[o] for o in ops], seqs)


def step(c, name, *a):
    try:
        c.call(name, *a)
    except sol.Revert:
        pass


def state(c, name):
    """Value of a public state variable of word size."""
    return c.read_state(name)


def only(c, name, k, *args):
    """Call the k-th overload of a name."""
    keep = c.names[name]
    c.names[name] = [keep[k]]
    try:
        return chain.ask(c, name, *args)
    finally:
        c.names[name] = keep


def deploy(run):
    c = sol.wrapper(run, "Deployer", ["src/ZKNOX_falcon_deploy.sol"], '''
 function tables(bytes32 s) public returns (bytes memory x, bytes memory y) { (address a, address b) = Deploy(s); x = code(a); y = code(b); }
 function poly(bytes32 s, uint256[] memory p) public returns (bytes memory x) { x = code(DeployPolynomial(s, p)); }
 function code(address a) public view returns (bytes memory r) {
  uint256 k;
  assembly { k := extcodesize(a) }
  r = new bytes(k);
  assembly { extcodecopy(a, add(r, 32), 0, k) }
 }
 function pack(uint256[] memory p) public pure returns (uint256[] memory) { return _Compact(p); }
''')
    rev = [int(format(i, "09b")[::-1], 2) for i in range(N)]

    def job(ks):
        for k in ks:
            if k == 0:
                x, y = c.call("tables", 5)
                w = lambda t: b"".join(v.to_bytes(2, "big") for v in t)
                yield "psi", None if x == w([pow(chain.PSI, e, Q) for e in rev]) else "deployed table of powers of psi is wrong", True
                yield "psi inverse", None if y == w([pow(chain.PSI, -e, Q) for e in rev]) else "deployed table of powers of 1/psi is wrong", True
            p = [(i * 7919 + k) % 2**256 if i % 3 else 2**256 - 1 - i for i in range(k)]
            got = c.call("poly", k, p)[0]
            yield "poly/%d" % k, None if got == b"".join(v.to_bytes(32, "big") for v in p) else "deployed polynomial of %d words is wrong" % k, True
            v = [((i * 31 + k * 977) % 65536) for i in range(N)]
            got = chain.ask(c, "pack", v)
            want = [sum(v[16 * i + j] << (16 * (15 - j)) for j in range(16)) for i in range(32)]
            yield "pack/%d" % k, None if got == want else "swapped packing %d is wrong" % k, True
    cases.section(run, "deployed tables and polynomials", cases.split(list(range(0, 64)) + [512], 8), job)


def main(run):
    transforms(run)
    engine(run)
    deploy(run)
    from checks.s01 import shipped_tests
    shipped_tests(run, "shipped contract tests", [("test/NTT.t.sol", "NTTTest")])
