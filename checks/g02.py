"""G02: the geth precompile answers one exactly for what the native verifier accepts, never crashes on any calldata, and is active where it should be."""
import os, subprocess
from vf import gethstub, gobind, native, spec
from vf.core import REPO, ROOT, HarnessError
from vf.cases import section, split
from vf.gobind import hx

LEVEL = "exploration"
H = os.path.join(ROOT, "harness", "go")
OLD = {1: "ecrecover", 2: "sha256hash", 3: "ripemd160hash", 4: "dataCopy"}
BYZ = {**OLD, 5: "bigModExp", 6: "bn256AddByzantium", 7: "bn256ScalarMulByzantium", 8: "bn256PairingByzantium"}
IST = {**BYZ, 6: "bn256AddIstanbul", 7: "bn256ScalarMulIstanbul", 8: "bn256PairingIstanbul", 9: "blake2F"}
CAN = {**IST, 10: "kzgPointEvaluation"}
PRA = {**CAN, 11: "bls12381G1Add", 12: "bls12381G1MultiExp", 13: "bls12381G2Add", 14: "bls12381G2MultiExp", 15: "bls12381Pairing", 16: "bls12381MapG1", 17: "bls12381MapG2", 19: "falconvrfy"}
FORK = {"homestead": OLD, "byzantium": BYZ, "istanbul": IST, "berlin": IST, "cancun": CAN, "prague": PRA}


def word(x):
    return (x % (1 << 256)).to_bytes(32, "big")


def pad(b):
    return b + bytes(-len(b) % 32)


def encode(*args):
    head, tail = b"", b""
    for a in args:
        head += word(32 * len(args) + len(tail))
        tail += word(len(a)) + pad(a)
    return head + tail


def decode(b, n=3):
    out = []
    for i in range(n):
        if 32 * i + 32 > len(b):
            return None
        o = int.from_bytes(b[32 * i:32 * i + 32], "big") + 32
        if o > len(b):
            return None
        l = int.from_bytes(b[o - 32:o], "big")
        if o + l > len(b):
            return None
        out.append(b[o:o + l])
    return out


def main(run):
    q = run.quick
    d = os.path.join(run.tmp, "extract")
    os.makedirs(d)
    open(d + "/main.go", "w").write(open(H + "/extract.go.txt").read())
    open(d + "/go.mod", "w").write("module extract\n\ngo 1.24\n")
    r = subprocess.run(["go", "run", ".", REPO + "/geth/contracts.go"], cwd=d, env=gobind.env(run), capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("contracts.go cannot be read: " + r.stderr[-2000:])
    prog = gobind.build(run, "geth", {"main.go": open(H + "/geth.go.txt").read(), "contracts.go": r.stdout}, asan=True, extra=[("github.com/ethereum/go-ethereum", gethstub.MOD)])
    nat = native.both(run)[0]
    pk0, sk0 = nat.keypair(0, native.seed48("g02", run.seed, 0))[1:]
    pk1, _ = nat.keypair(0, native.seed48("g02", run.seed, 1))[1:]
    nat.seed(native.seed48("g02s", run.seed))
    M = b"transaction"
    SM = nat.sign(0, M, sk0)[1]
    FULL = encode(SM, M, pk0)

    class Face:
        def __init__(self):
            self.p = gobind.Proc(prog)

        def __call__(self, *a):
            try:
                return self.p.ask(*a)
            except gobind.Died as e:
                why = str(e)
                self.p.close()
                self.p = gobind.Proc(prog)
                return ["died", why]

    def expected(data):
        """"err" or 0 or 1"""
        x = decode(data)
        if not data or x is None:
            return "err"
        sm, m, pk = x
        if len(pk) != 897 or len(sm) < 42:
            return 0
        r, rec = nat.open(0, sm, pk)
        return int(r == 0 and rec == m)

    def judge(face, data):
        got = face("V", hx(data))
        want = expected(data)
        if want == "err":
            # calldata that cannot be decoded: an error or the answer zero, never one and never a crash
            return None if got == ["err"] or got == ["ok", word(0).hex()] else "undecodable calldata: " + " ".join(got)[:160]
        return None if got == ["ok", word(want).hex()] else "answered %s where the native verifier says %d" % (" ".join(got)[:160], want)

    def cases(job):
        face = Face()
        for nm, data in job:
            yield nm, judge(face, data), True
        face.p.close()

    def batch(name, rows, k=6):
        section(run, name, split(rows, k), cases)

    rows = []
    for n in (list(range(0, 70)) + [255, 639, 640, 1023, 1024, 1025, 1331, 2048, 5000, 70000] if q else list(range(0, 1400)) + [2047, 2048, 65536, 200000]):
        m = spec.shake_stream(b"g02 %d" % n, n)
        nat.seed(native.seed48("g02m", run.seed, n))
        sm = nat.sign(0, m, sk0)[1]
        for t, x in (("", m), (" longer", m + b"\0"), (" shorter", m[:-1]), (" empty", b""), (" last bit", m[:-1] + bytes([m[-1] ^ 1]) if m else b"\1")):
            rows.append(("message of %d bytes%s" % (n, t), encode(sm, x, pk0)))
        rows.append(("message of %d bytes, other key" % n, encode(sm, m, pk1)))
        rows.append(("message of %d bytes, unpadded" % n, encode(sm, m, pk0)[:-(-897 % 32)]))
    batch("every message length", rows)
    a = {"sm": SM, "m": M, "pk": pk0}
    import itertools
    names = list(a)
    batch("every order of the arguments", [("%s,%s,%s" % p, encode(*(a[x] for x in p))) for p in itertools.product(names, repeat=3)] +
          [("%d arguments" % n, encode(*list(a.values())[:n])) for n in range(3)] + [("empty %s" % k, encode(*(b"" if x == k else a[x] for x in names))) for k in names])
    batch("every truncation", [("first %d bytes" % n, FULL[:n]) for n in (range(0, len(FULL) + 1, 2 if q else 1))] + [("%d bytes appended" % n, FULL + bytes(n)) for n in range(1, 70, 3)])
    step = 2 if q else 1
    rows = []
    odd = sorted({2 ** k + e for k in (5, 6, 7, 31, 32, 62, 63, 64, 128, 255, 256) for e in (-33, -32, -1, 0, 1)})
    offs = [int.from_bytes(FULL[32 * i:32 * i + 32], "big") for i in range(3)]
    for i in range(3):
        for v in list(range(0, len(FULL) + 66, step)) + [offs[i] + e for e in range(-33, 34)] + odd:
            rows.append(("offset %d is %d" % (i, v), FULL[:32 * i] + word(v) + FULL[32 * i + 32:]))
        o = offs[i]
        n = int.from_bytes(FULL[o:o + 32], "big")
        for v in list(range(0, len(FULL) + 66, step)) + [n + e for e in range(-33, 34)] + odd:
            rows.append(("length %d is %d" % (i, v), FULL[:o] + word(v) + FULL[o + 32:]))
    batch("every offset and length", [r for r in rows if True], 8)
    batch("every single-bit change", [("bit %d" % b, FULL[:b >> 3] + bytes([FULL[b >> 3] ^ (0x80 >> (b & 7))]) + FULL[(b >> 3) + 1:]) for b in range(0, len(FULL) * 8, 3 if q else 1)], 8)
    batch("every length of each argument", [("%s of %d bytes" % (k, n), encode(*(((a[x] + bytes(n))[:n] if x == k else a[x]) for x in names))) for k in names for n in list(range(0, 950, 2 if q else 1)) + [896, 897, 898, 1280, 1281, 2000, 4000]])

    def gas(job):
        face = Face()
        for n in job:
            got = face("GAS", hx(bytes(n)))
            yield "gas of %d bytes" % n, None if got == ["3000"] else "RequiredGas of %d bytes is %s" % (n, got), True
        for g in (0, 1, 2999, 3000, 3001, 10**9, 2**64 - 1):
            got = face("RUN", hx(FULL), str(g))
            want = ["err", "0"] if g < 3000 else ["ok", word(1).hex(), str(g - 3000)]
            yield "run with gas %d" % g, None if got == want else "%s, expected %s" % (got, want), True
        face.p.close()
    section(run, "gas", [range(0, 3000, 50 if q else 1)], gas)

    def tables(job):
        face = Face()
        for fork, cum in job:
            for ad in list(range(0, 260)) + [0x1300, 0x1301]:
                got = face("TABLE", fork, str(ad), *(["all"] if cum else []))
                w = FORK[fork].get(ad)
                want = [w, "1"] if w else ["none", "0"]
                yield "%s%s address %d" % (fork, " and earlier" if cum else "", ad), None if got == want else "%s, expected %s" % (got, want), True
        face.p.close()
    section(run, "active contracts of each fork", [[(f, c)] for f in FORK for c in (0, 1)], tables)
    run.note(rule="each case is one calldata (or gas, or fork table) given to the real falconvrfy of geth/contracts.go, with AddressSanitizer, compared with the native verifier on what go-ethereum's ABI decoding gives; all are non-trivial", exhaustive=True)
    run.assumptions.append("go-ethereum is not available offline: falconvrfy, the fork tables and what they use are cut out of contracts.go by its syntax tree and compiled with stand-ins for abi, common, params and tracing")
