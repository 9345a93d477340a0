"""P09: the native, Python and on-chain implementations are one scheme: same seeds give the same keys and signatures, and what one signs the others accept."""
import hashlib, os
from vf import chain, native, pyref, sol, spec
from vf.cases import section, split

LEVEL = "exploration"


def decode14(b):
    s = int.from_bytes(b, "big")
    n = 8 * len(b) // 14
    return [(s >> (14 * (n - 1 - i))) & 16383 for i in range(n)]


def signed(b, n, bits):
    s, t = int.from_bytes(b, "big"), 8 * len(b)
    v = [(s >> (t - bits * (i + 1))) & ((1 << bits) - 1) for i in range(n)]
    return [x - (1 << bits) if x >> (bits - 1) else x for x in v]


def private(sk, pk14):
    """(f, g, F, G) of a native private key, G from the lattice equation checked over the integers."""
    f, g, F = signed(sk[1:385], 512, 6), signed(sk[385:769], 512, 6), signed(sk[769:1281], 512, 8)
    h = decode14(pk14[1:])
    G = [int(x) for x in chain.cmod(chain.intt(chain.ntt(h) * chain.ntt(F)))]
    d = [x - y for x, y in zip(spec.negamul(f, G), spec.negamul(g, F))]
    return f, g, F, G, d == [spec.Q] + [0] * 511, h


def main(run):
    falcon, epe, prng, shake, drbg, ntrugen = pyref.load(run, "falcon", "falcon_epervier", "keccak_prng", "shake", "drbg.aes256_ctr_drbg", "ntrugen")
    pyref.fast_keccak(run)
    C = native.both(run)
    XOF = [shake.SHAKE, prng.KeccakPRNG]
    q = run.quick
    con = {v: chain.contract(run, v) for v in chain.KIND}
    VER = ["falcon", "ethfalcon"]

    def sd(*p):
        return native.seed48("p09", run.seed, *p)

    def same(jobs):
        for k in jobs:
            s = sd("key", k)
            r, pk, sk = C[0].keypair(0, s)
            f, g, F, G, ok, h = private(sk, pk)
            yield "%d/native" % k, None if r == 0 and ok else "the native key of seed %d does not satisfy fG - gF = q" % k, True
            d = drbg.AES256_CTR_DRBG(s)
            x = shake.SHAKE.new(d.random_bytes(48))
            x.flip()
            got, e = pyref.quiet(pyref.guarded, 600, ntrugen.ntru_gen, 512, randombytes=x.read, logn=9)
            yield "%d/python" % k, None if e is None and [list(map(int, p)) for p in got] == [f, g, F, G] else "seed %d gives another key in Python than natively %r" % (k, e or ""), True
    section(run, "same seed, same key", split(range(4 if q else 64), 8), same)

    KEYS = {}

    def key(k):
        if k not in KEYS:
            r, pk, sk = C[0].keypair(0, sd("sign", k))
            f, g, F, G, ok, h = private(sk, pk)
            S = falcon.SecretKey(512, polys=[f, g, F, G])
            KEYS[k] = pk, sk, S, falcon.PublicKey(512, S.h), h
        return KEYS[k]

    def sign(jobs):
        for k, l, v in jobs:
            pk, sk, S, P, h = key(k)
            m = hashlib.shake_256(b"p09 %d %d" % (k, l)).digest(l)
            s = sd("draw", k, l)
            C[v].seed(s)
            r, sm = C[v].sign(0, m, sk)
            d = drbg.AES256_CTR_DRBG(s)
            sig, e = pyref.quiet(S.sign, m, randombytes=d.random_bytes, xof=XOF[v])
            name = "%s/key %d/length %d" % (VER[v], k, l)
            if v == 1 and l > 4056 and r == 0 and isinstance(e, ValueError):
                yield name + "/refused", None, False      # the Python Keccak generator refuses inputs beyond its 4096 bytes
                continue
            if r or e:
                yield name, "signing failed: native %d, Python %r" % (r, e), True
                continue
            n = int.from_bytes(sm[:2], "big")
            body = sm[43 + l:]
            why = None
            if len(body) != n - 1 or sm[42:42 + l] != m:
                why = "the native signature is malformed"
            elif list(S.h) != h:
                why = "Python derives another public key from the native private key"
            elif sig[1:41] != sm[2:42] or sig[41:41 + len(body)] != body or any(sig[41 + len(body):]) or sig[0] != 0x29:
                why = "same key, randomness and message give another signature in Python than natively"
            yield name + "/same", why, True
            # native signature in Python and on chain, Python signature (other randomness) natively and on chain
            nat = b"\x29" + sm[2:42] + body + bytes(625 - len(body))
            got, e = pyref.quiet(P.verify, m, nat, xof=XOF[v])
            yield name + "/native in Python", None if got is True else "Python answers %s %r to a native signature" % (got, e), True
            got, e = pyref.quiet(P.verify, m, nat, xof=XOF[1 - v])
            yield name + "/native in Python, other hash", None if got is False or v == 0 and l > 4056 and isinstance(e, ValueError) else "Python answers %s %r to a signature of the other variant" % (got, e), True
            s2 = spec.decompress(body, 512)
            hn = [int(x) for x in chain.ntt(h)]
            for w in (0, 1):
                got = chain.ask(con[VER[w]], "verify", m, sm[2:42], chain.compact([x % spec.Q for x in s2]), chain.compact(hn))
                yield name + "/native in " + VER[w], None if got is (w == v) else "contract %s answers %s to a native %s signature" % (VER[w], got, VER[v]), True
            st = {"n": 0}

            def rb(z):
                st["n"] += 1
                return hashlib.shake_256(b"%d %d %d %d %d" % (run.seed, k, l, v, st["n"])).digest(z)
            sig, e = pyref.quiet(S.sign, m, randombytes=rb, xof=XOF[v])
            if e:
                yield name + "/python", "Python signing raised %r" % e, True
                continue
            body = sig[41:].rstrip(b"\0")
            # the last coefficient ends with a 1 bit, so no byte of the encoding proper is zero at the end
            sm = (len(body) + 1).to_bytes(2, "big") + sig[1:41] + m + b"\x29" + body
            for w in (0, 1):
                r, got = C[w].open(0, sm, pk)
                ok = (r == 0 and got == m) if w == v else r != 0
                yield name + "/python in native " + VER[w], None if ok else "native %s %s a Python %s signature" % (VER[w], "accepts" if r == 0 else "rejects", VER[v]), True
    ls = list(range(0, 24)) + [31, 32, 33, 95, 96, 97, 135, 136, 137, 300, 1000, 4056, 5000] if q else list(range(0, 400)) + [1000, 4055, 4056, 4057, 4096, 5000, 20000]
    section(run, "same randomness, same signature; mutual acceptance", split([(l % (4 if q else 24), l, v) for l in ls for v in (0, 1)], 32), sign)

    def recovery(jobs):
        for k, l in jobs:
            r, pk, sk = C[0].keypair(2, sd("epervier", k))
            m = hashlib.shake_256(b"p09e %d %d" % (k, l)).digest(l)
            C[0].seed(sd("edraw", k, l))
            r2, sm = C[0].sign(2, m, sk)
            name = "key %d/length %d" % (k, l)
            if r or r2:
                yield name, "native Epervier failed: %d %d" % (r, r2), True
                continue
            e = sm[42 + l:]
            u = lambda b: [int.from_bytes(b[i:i + 2], "big") for i in range(0, len(b), 2)]
            s1, s2, hint = u(e[1:1025]), u(e[1026:2050]), int.from_bytes(e[2050:2052], "big")
            f, g, F = signed(sk[1:385], 512, 6), signed(sk[385:769], 512, 6), None
            hn = [int(x) for x in chain.ntt(g) * chain.inv(chain.ntt(f)) % spec.Q]
            addr = spec.address(hn)
            got = chain.ask(con["epervier"], "recover", m, sm[2:42], chain.compact(s1), chain.compact(s2), hint)
            yield name + "/on chain", None if got == addr else "the contract recovers %s from a native Epervier signature of %x" % (got, addr), True
            got = chain.ask(con["ethepervier"], "recover", m, sm[2:42], chain.compact(s1), chain.compact(s2), hint)
            yield name + "/other hash", None if got != addr else "the Keccak contract recovers the signer of a SHAKE256 signature", True
            # re-encoded for Python
            c = [x - spec.Q if x > spec.Q // 2 else x for x in s1 + s2]
            body = spec.compress(c, 2 * 666 - 41)
            inv = [int(x) for x in chain.inv(chain.ntt(s2))]
            if body is not None and body is not False:
                sig = b"\x39" + sm[2:42] + body + b"".join(x.to_bytes(3, "big") for x in inv)
                got, ex = pyref.quiet(epe.EpervierPublicKey(512, addr).recover, m, sig, xof=shake.SHAKE)
                yield name + "/python", None if got == addr else "Python recovers %s %r from a native Epervier signature of %x" % (got, ex, addr), True
            # the native public key is the polynomial of that address
            want = u(pk[1:])
            yield name + "/key", None if sorted(want) == sorted(hn) else "the native Epervier key is not the transform of g/f", True
    section(run, "native recovery signatures everywhere", split([(l % 3, l) for l in (range(0, 16) if q else range(0, 300))], 16), recovery)

    def sixteen(jobs):
        for k, l, v in jobs:
            r, pk, sk = C[v].keypair(1, sd("zk", k))
            m = hashlib.shake_256(b"p09z %d %d" % (k, l)).digest(l)
            C[v].seed(sd("zdraw", k, l))
            r2, sm = C[v].sign(1, m, sk)
            u = lambda b: [int.from_bytes(b[i:i + 2], "big") for i in range(0, len(b), 2)]
            s2 = u(sm[43 + l:43 + l + 1024])
            f, g = signed(sk[1:385], 512, 6), signed(sk[385:769], 512, 6)
            hn = [int(x) for x in chain.ntt(g) * chain.inv(chain.ntt(f)) % spec.Q]
            name = "%s/key %d/length %d" % (VER[v], k, l)
            got = chain.ask(con[VER[v]], "verify", m, sm[2:42], chain.compact(s2), chain.compact(hn))
            yield name, None if r == r2 == 0 and got is True else "contract answers %s to a native 16-bit signature" % got, True
            got = chain.ask(con[VER[v]], "verify", m, sm[2:42], chain.compact(s2), chain.compact(u(pk[1:])))
            yield name + "/key", None if got is True else "the native 16-bit key is not usable on chain", True
    section(run, "native 16-bit signatures on chain", split([(l % 3, l, v) for l in (range(0, 16) if q else range(0, 300)) for v in (0, 1)], 16), sixteen)

    # published vectors through the contract's own parser
    c = sol.Contract(run, "src/ZKNOX_falcon_encodings.sol")

    def kat(jobs):
        for v, pk, sm, mlen, m in jobs:
            try:
                key, s2, salt, msg = c.call("decompress_KAT", pk, sm, mlen)
                got = chain.ask(con[VER[v]], "verify", msg, salt, chain.compact(s2), chain.compact([int(x) for x in chain.ntt(key)]))
            except sol.Revert as e:
                got, msg = "revert", None
            name = "%s/%d" % (VER[v], mlen)
            yield name + "/chain", None if got is True and msg == m else "contract answers %s to a published vector" % got, True
            r, out = C[v].open(0, sm, pk)
            yield name + "/native", None if r == 0 and out == m else "native code rejects a published vector", True
            P, e = pyref.quiet(falcon.PublicKey.from_bytes, pk)
            n = int.from_bytes(sm[:2], "big")
            got, e = pyref.quiet(P.verify, m, b"\x29" + sm[2:42] + sm[43 + mlen:] + bytes(max(0, 626 - n)), xof=XOF[v]) if P else (None, e)
            yield name + "/python", None if got is True else "Python answers %s %r to a published vector" % (got, e), True
    from vf.core import REPO
    jobs = []
    for v, fn in ((0, "falcon512-KAT.rsp"), (1, "ethfalcon512-KAT.rsp")):
        p = os.path.join(REPO, "test", fn)
        d = {}
        for line in open(p) if os.path.exists(p) else ():
            if " = " in line:
                a, b = line.strip().split(" = ", 1)
                d[a] = b
                if a == "sm":
                    jobs.append((v, bytes.fromhex(d["pk"]), bytes.fromhex(b), int(d["mlen"]), bytes.fromhex(d["msg"])))
    jobs = jobs[::7] if q else jobs
    section(run, "published vectors", split(jobs, 16), kat)

    # the script that writes such vectors, for published requests and for others
    import subprocess, sys
    from vf import core

    def produce(jobs):
        van = {}
        for line in open(os.path.join(REPO, "test", "falcon512-KAT.rsp")):
            if " = " in line:
                a, b = line.strip().split(" = ", 1)
                van.setdefault(a, []).append(b)
        for name, picks in jobs:
            d = os.path.join(run.tmp, "kat-" + name)
            os.makedirs(d, exist_ok=True)
            with open(d + "/x-KAT.req", "w") as a, open(d + "/x-KAT.rsp", "w") as b:
                for i, (k, seed, m) in enumerate(picks):
                    head = "count = %d\nseed = %s\nmlen = %d\nmsg = %s\n" % (i, seed.hex().upper(), len(m), m.hex().upper())
                    a.write(head + "pk =\nsk =\nsmlen =\nsm =\n\n")
                    b.write(("# Falcon-512\n\n" if i == 0 else "") + head + "pk = %s\nsk = %s\nsmlen = 0\nsm = 00\n\n" % (van["pk"][k], van["sk"][k]))
            outs = []
            for t in range(2):
                r = subprocess.run([sys.executable, "-B", os.path.join(pyref.PYREF, "scripts", "generate_kat_rsp.py"), d + "/x-KAT.req", d + "/out%d.rsp" % t], cwd=d,
                                   env=dict(os.environ, PYTHONPATH=os.path.join(core.ROOT, "vf", "stubs"), PYTHONIOENCODING="utf-8"), capture_output=True, text=True, timeout=800)
                outs.append(open(d + "/out%d.rsp" % t).read() if r.returncode == 0 and os.path.exists(d + "/out%d.rsp" % t) else None)
                if outs[-1] is None:
                    yield "%s/run" % name, "the script ends with %s" % (r.stderr.strip().split("\n") or [""])[-1][:200], True
                    break
            else:
                yield "%s/repeated" % name, None if outs[0] == outs[1] else "two runs write different vectors", True
            if outs[0] is None:
                continue
            got = {}
            for line in outs[0].split("\n"):
                if " = " in line:
                    a, b = line.strip().split(" = ", 1)
                    got.setdefault(a, []).append(b)
            yield "%s/count" % name, None if got.get("count") == [str(i) for i in range(len(picks))] else "counts written: %s" % got.get("count"), True
            yield "%s/salts" % name, None if len({x[4:84] for x in got.get("sm", [])}) == len({s for _, s, _ in picks}) else "vectors of different seeds share a salt", True
            for i, (k, seed, m) in enumerate(picks):
                field = lambda f: (got.get(f, []) + [""] * len(picks))[i]
                sm, pk = bytes.fromhex(field("sm")), bytes.fromhex(field("pk"))
                key = "%s/%d/length %d" % (name, i, len(m))
                want = {"seed": seed.hex().upper(), "mlen": str(len(m)), "msg": m.hex().upper(), "pk": van["pk"][k], "sk": van["sk"][k], "smlen": str(len(sm))}
                bad = [f for f in want if field(f) != want[f]]
                yield key, "the field %s is %s" % (bad[0], field(bad[0])[:60]) if bad else None, True
                yield from kat([(1, pk, sm, len(m), m)])
    seeds = [hashlib.shake_256(b"kat%d" % i).digest(48) for i in range(40)]
    req = [j for j in (open(os.path.join(REPO, "test", "falcon512-KAT.req")).read().split("\n\n") if os.path.exists(os.path.join(REPO, "test", "falcon512-KAT.req")) else [])]
    own = []
    for blk in req:
        dd = dict(x.split(" = ", 1) for x in blk.split("\n") if " = " in x)
        if "msg" in dd:
            own.append((int(dd["count"]), bytes.fromhex(dd["seed"]), bytes.fromhex(dd["msg"])))
    own = own[:4] if q else own
    other = [((i * 7) % 100, seeds[i % 40], hashlib.shake_256(b"msg%d" % i).digest(l)) for i, l in enumerate([1, 2, 3, 31, 32, 33, 95, 96] if q else list(range(1, 140)) + [300, 1000, 3300])]
    if own:
        section(run, "vectors written by the script", split([("own%d" % i, own[i::8]) for i in range(min(8, len(own)))] + [("other%d" % i, other[i::4]) for i in range(4)], 16), produce)

    # the functions of the same script that draw a key of their own
    gen = pyref.load(run, "scripts.generate_kat_rsp")

    def fresh(jobs):
        for i, l in jobs:
            m = hashlib.shake_256(b"fresh%d" % i).digest(l)
            a, e = pyref.quiet(pyref.guarded, 600, gen.generate_keypair_from_seed, seeds[i].hex())
            if e is not None:
                yield "%d/key" % i, "generate_keypair_from_seed raised %r" % e, True
                continue
            pk, sk = bytes.fromhex(a[0]), bytes.fromhex(a[1])
            f, g, F, G = ([int.from_bytes(sk[j:j + 2], "big", signed=True) for j in range(1024 * k, 1024 * k + 1024, 2)] for k in range(4))
            d = [x - y for x, y in zip(spec.negamul(f, G), spec.negamul(g, F))]
            h = decode14(pk[1:])
            ok = d == [spec.Q] + [0] * 511 and pk[:1] == b"\x09" and all((x - y) % spec.Q == 0 for x, y in zip(spec.negamul(f, h), g))
            yield "%d/key" % i, None if ok else "the key pair written does not satisfy its equations", True
            b, e = pyref.quiet(gen.sign_message, a[2], m.hex(), seeds[i].hex())
            if e is not None or b[1] != len(b[0]) // 2:
                yield "%d/length %d" % (i, l), "sign_message raised %r or gives another length" % e, True
                continue
            yield from kat([(1, pk, bytes.fromhex(b[0]), l, m)])
    if hasattr(gen, "generate_keypair_from_seed") and hasattr(gen, "sign_message"):
        section(run, "keys drawn by the script", split([(i, [0, 33, 95, 200][i % 4]) for i in range(4 if q else 24)], 8), fresh)
