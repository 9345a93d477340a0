"""P08: what the command line tools send to the contracts is accepted there, and only that."""
import ast, hashlib, os, re, runpy, stat, sys, io, contextlib
from vf import chain, pyref, sol, spec
from vf.cases import section, split
from checks.p07 import Cli, make

LEVEL = "exploration"
ADDR, RPC, ECDSA = "0x00000000000000000000000000000000000000c0", "http://127.0.0.1:1", "0x" + "11" * 32


def fake_cast(dir):
    """A cast that records its arguments and prints what the file `answer` holds."""
    p = os.path.join(dir, "cast")
    with open(p, "w") as f:
        f.write('#!/bin/sh\nfor a in "$@"; do printf "%%s\\n" "$a"; done > %s/argv\nprintf "%%s" "$#" > %s/count\ncat %s/answer 2>/dev/null\n' % (dir, dir, dir))
    os.chmod(p, 0o755)


def selectors(c):
    """Signature strings of the functions of a translated contract."""
    def t(x):
        x = x[1] if x[0] == "calldata" else x
        if x[0] == "array":
            return t(x[1]) + ("[%d]" % x[2] if x[2] is not None else "[]")
        if x[0] in ("uint", "int"):
            return "%s%d" % x[:2]
        if x[0] == "fbytes":
            return "bytes%d" % x[1]
        return x[0]
    return {"%s(%s)" % (n, ",".join(t(p) for p in ps)) for n, fs in c.names.items() for _, ps, _, _ in fs}


def main(run):
    cli, falcon = pyref.load(run, "sign_cli", "falcon")
    pyref.fast_keccak(run)
    q = run.quick
    con = {v: chain.contract(run, v) for v in chain.KIND}

    def observe(c):
        p = os.path.join(c.dir, "argv")
        if not os.path.exists(p):
            return None
        a = open(p).read().split("\n")[:-1]
        n = int(open(os.path.join(c.dir, "count")).read())
        os.unlink(p)
        return a if len(a) == n else None

    def call_of(a, kind):
        """(address, signature, arguments, remaining options) of a recorded cast command."""
        if not a or a[0] != kind:
            return None
        pos, opts, i = [], {}, 1
        while i < len(a):
            if a[i].startswith("--"):
                opts[a[i]] = a[i + 1] if i + 1 < len(a) else None
                i += 2
            else:
                pos.append(a[i])
                i += 1
        return pos[0], pos[1], pos[2:], opts

    def value(s):
        s = s.strip()
        if s.startswith("0x"):
            return bytes.fromhex(s[2:]) if len(s) % 2 == 0 else None
        if s.startswith("["):
            return [int(x) for x in s.strip("[]").split(",")]
        return int(s)

    last = []

    def judge(c, ver, kind, m):
        """Answer of the contract to the recorded command, or a complaint."""
        a = call_of(observe(c), kind)
        if a is None:
            return None, "no %s command was issued" % kind
        addr, sig, args, opts = a
        if addr.lower() != ADDR or opts.get("--rpc-url") != RPC or (kind == "send" and opts.get("--private-key") != ECDSA):
            return None, "the command goes to %s with options %s" % (addr, opts)
        if sig not in selectors(con[ver]):
            return None, "the contract has no function %s" % sig
        vals = [value(x) for x in args]
        if None in vals:
            return None, "malformed hexadecimal argument: %s" % str(args)[:60]
        if vals[0] != m:
            return None, "the message sent is %s" % vals[0].hex()
        last[:] = [sig] + vals
        try:
            return con[ver].call(sig.split("(")[0], *vals)[0], None
        except sol.Revert:
            return "revert", None
        except sol.Unsupported as e:
            return None, "the arguments do not fit %s: %s" % (sig, e)

    def words(ms):
        for ver, k, m in ms:
            sk, pk = make(cli, pyref.keys(run, 512)[k], ver)
            c = Cli(run, cli, "%s-%d-%d-%s" % (ver, k, len(m), m[:4].hex()))
            fake_cast(c.dir)
            c.put(cli, sk, pk, ver)
            path = os.environ["PATH"]
            os.environ["PATH"] = c.dir + ":" + path
            try:
                yield from one(c, ver, k, m, pk)
            finally:
                os.environ["PATH"] = path

    def one(c, ver, k, m, pk):
        key = "%s/%d/%d/%s" % (ver, k, len(m), m[:4].hex())
        out, e = c("sign", "--privkey", "private_key.pem", "--data", m.hex())
        if e:
            yield key, "signing raised %r" % e, True
            return
        common = ["--pubkey", "public_key.pem", "--data", m.hex(), "--signature", "sig", "--contractaddress", ADDR, "--rpc", RPC]
        acts = [("verifyonchain", "call"), ("verifyonchainsend", "send")] if ver != "epervier" else [("verifyonchain", "call"), ("recoveronchain", "call"), ("recoveronchainsend", "send")]
        good = pk.pk if ver == "epervier" else True
        answer = "0x%064x\n" % int(good)
        with open(os.path.join(c.dir, "answer"), "w") as f:
            f.write(answer)
        for act, kind in acts:
            out, e = c(act, *(common + (["--privatekey", ECDSA] if kind == "send" else [])))
            got, why = judge(c, ver, kind, m)
            if why is None and e is not None:
                why = "%s raised %r" % (act, e)
            if why is None and got != good:
                why = "%s sends a call that the contract answers with %s" % (act, got)
            if why is None and act == "verifyonchain" and "%064x" % 1 not in out:
                why = "%s does not report the acceptance" % act
            yield key + "/" + act, why, True
        # another signer's address, and a signature of another message
        if ver == "epervier":
            for bit in range(256) if len(m) == 1 else (0,):
                with open(os.path.join(c.dir, "answer"), "w") as f:
                    f.write("0x%064x\n" % (pk.pk ^ 1 << bit))
                out, e = c("verifyonchain", *common)
                observe(c)
                yield key + "/other address/%d" % bit, None if "%064x" % 1 not in out else "verifyonchain reports success when an address that differs in bit %d is recovered" % bit, True
        d = bytes([m[0] ^ 128]) + m[1:]
        out, e = c("verifyonchain", "--pubkey", "public_key.pem", "--data", d.hex(), "--signature", "sig", "--contractaddress", ADDR, "--rpc", RPC)
        got, why = judge(c, ver, "call", d)
        if why is None and got == good:
            why = "the contract accepts the signature for another message"
        yield key + "/other message", why, True
    ms = [hashlib.shake_256(b"chain%d" % l).digest(l) for l in list(range(1, 17 if q else 150)) + [32, 135, 136, 137]] + [b"\0", b"\0\0a", b"\x0abc", bytes(32)]
    section(run, "commands", split([(v, (i + j) % 12, m) for j, v in enumerate(("falcon", "ethfalcon", "epervier")) for i, m in enumerate(ms)], 32), words)

    # any well-formed signature is handed to the contract word by word, valid or not
    def shapes(n):
        yield "zero nonce", bytes(40), [(i * 29) % 201 - 100 for i in range(n)]
        yield "small nonce", bytes(20) + b"\x0a" + bytes(19), [(-1) ** i * (i % 90) + (i == 3) for i in range(n)]
        for v in (2047, -2047, 2048, -2048, 4000, -4000, 1, -1, 127, -128, 128):
            yield "value %d" % v, b"\1" * 40, [v if i in (0, n // 2, n - 1) else (i * 7) % 31 - 15 for i in range(n)]

    def full(n, bits):
        x, extra, i = [(i * 37) % 255 - 127 for i in range(n)], bits - 9 * n, 0
        while extra > 0:
            t = min(extra, 5)
            x[i] = (128 * t + abs(x[i])) * (1 if x[i] >= 0 else -1)
            extra -= t
            i += 1
        return x

    def crafted(jobs):
        for ver, k, i in jobs:
            sk, pk = make(cli, pyref.keys(run, 512)[k], ver)
            two = ver == "epervier"
            cells = 8 * (2 * 666 - 41 if two else 666 - 41)
            L = 2 * 666 - 41 if two else 666 - 41
            N = 1024 if two else 512
            what, salt, x = (list(shapes(N)) + [("full field", b"\2" * 40, full(N, cells)), ("full field but one", b"\3" * 40, full(N, cells - 1)), ("full field but eight", b"\3" * 40, full(N, cells - 8))])[i]
            body = spec.compress(x, L)
            if body is None:
                continue
            if two:
                t = [int(v) for v in chain.ntt([v % spec.Q for v in x[512:]])]
                if not all(t):
                    continue
                inv = [pow(v, -1, spec.Q) for v in t]
                hint = 1
                for v in inv:
                    hint = hint * v % spec.Q
                body += b"".join(v.to_bytes(3, "big") for v in inv)
            c = Cli(run, cli, "crafted-%s-%d" % (ver, i))
            fake_cast(c.dir)
            c.put(cli, sk, pk, ver)
            with open(os.path.join(c.dir, "sig"), "w") as fh:
                fh.write((bytes([0x39]) + salt + body).hex())
            with open(os.path.join(c.dir, "answer"), "w") as fh:
                fh.write("0x%064x\n" % 0)
            path = os.environ["PATH"]
            os.environ["PATH"] = c.dir + ":" + path
            try:
                for act, kind in (("verifyonchain", "call"), ("recoveronchain", "call"), ("recoveronchainsend", "send")) if two else (("verifyonchain", "call"), ("verifyonchainsend", "send")):
                    m = b"\0crafted"
                    out, e = c(act, "--pubkey", "public_key.pem", "--data", m.hex(), "--signature", "sig", "--contractaddress", ADDR, "--rpc", RPC, *(["--privatekey", ECDSA] if kind == "send" else []))
                    last[:] = []
                    got, why = judge(c, ver, kind, m)
                    w = [v % spec.Q for v in x]
                    want = [salt, chain.compact(w[:512]), chain.compact(w[512:]), hint] if two else [salt, chain.compact(w), chain.compact([int(v) for v in chain.ntt(pk.pk)])]
                    if why is None and e is not None:
                        why = "%s raised %r" % (act, e)
                    if why is None and last[2:] != want:
                        why = "argument %d of the call is not what the signature says" % next((j for j, (a, b) in enumerate(zip(last[2:], want)) if a != b), -1)
                    yield "%s/%s/%s" % (ver, what, act), why, True
            finally:
                os.environ["PATH"] = path
    section(run, "crafted signatures", split([(v, 0, i) for v in ("falcon", "ethfalcon", "epervier") for i in range(16)], 32), crafted)

    # in-process signatures of every variant, the Keccak form of Epervier included
    def direct(jobs):
        for ver, k, i in jobs:
            X = falcon.SHAKE if chain.KIND[ver] == "shake" else falcon.KeccakPRNG
            sk, pk = make(cli, pyref.keys(run, 512)[k], "epervier" if "epervier" in ver else "falcon")
            m = hashlib.shake_256(b"direct%d" % i).digest(i)
            st = {"n": 0}

            def rb(l):
                st["n"] += 1
                return hashlib.shake_256(b"%d %d %d %d" % (run.seed, k, i, st["n"])).digest(l)
            s, e = pyref.quiet(sk.sign, m, randombytes=rb, xof=X)
            key = "%s/%d/%d" % (ver, k, i)
            if e:
                yield key, "signing raised %r" % e, True
                continue
            salt = s[1:41]
            if "epervier" in ver:
                v = spec.decompress(s[41:-1536], 1024)
                s1, s2 = v[:512], v[512:]
                hint = 1
                for x in chain.ntt(s2):
                    hint = hint * int(x) % spec.Q
                args = (m, salt, chain.compact([x % spec.Q for x in s1]), chain.compact([x % spec.Q for x in s2]), pow(hint, -1, spec.Q))
                got = chain.ask(con[ver], "recover", *args)
                yield key, None if got == sk.pk else "the contract recovers %s, the address of the signer is %x" % (got, sk.pk), True
            else:
                s2 = spec.decompress(s[41:], 512)
                h = [int(x) for x in chain.ntt(sk.h)]
                got = chain.ask(con[ver], "verify", m, salt, chain.compact([x % spec.Q for x in s2]), chain.compact(h))
                yield key, None if got is True else "the contract answers %s" % got, True
                yield key + "/python", None if pyref.quiet(pk.verify, m, s, xof=X)[0] is True else "the Python verifier rejects it", True
    section(run, "Python signatures on chain", split([(v, (i + run.seed) % 12, i) for v in chain.KIND for i in range(24 if q else 300)], 32), direct)

    # the signer used by the Solidity tests through ffi
    def ffi(jobs):
        for mode, seed, m in jobs:
            out = io.StringIO()
            argv = sys.argv
            sys.argv = ["sig_sol.py", "0x" + m.hex(), mode, seed.hex()]
            try:
                with contextlib.redirect_stdout(out):
                    pyref.guarded(400, runpy.run_path, os.path.join(pyref.PYREF, "sig_sol.py"), run_name="__main__")
                e = None
            except (Exception, SystemExit) as x:
                e = x
            finally:
                sys.argv = argv
            key = "%s/%s/%d" % (mode, seed.hex(), len(m))
            b = bytes.fromhex(out.getvalue().strip()) if e is None else b""
            if e is not None or len(b) % 32 or len(b) < 65 * 32:
                yield key, "sig_sol.py raised or printed no encoding: %r" % e, True
                continue
            w = [int.from_bytes(b[i:i + 32], "big") for i in range(0, len(b), 32)]
            pk, off, s2 = w[:32], w[32], w[33:65]
            n = int.from_bytes(b[off:off + 32], "big")
            salt = b[off + 32:off + 32 + n]
            ver = "ethfalcon" if mode == "ETH" else "falcon"
            got = chain.ask(con[ver], "verify", m, salt, s2, pk)
            yield key, None if got is True else "the contract answers %s to a signature made by sig_sol.py" % got, True
            got = chain.ask(con[ver], "verify", m + b"\0", salt, s2, pk)
            yield key + "/other", None if got is False else "the contract answers %s for another message" % got, True
    section(run, "signatures for the Solidity tests", split([(mode, bytes([i]) * 4, hashlib.sha256(b"%d" % i).digest()) for i in range(1 if q else 8) for mode in ("ETH", "NIST")], 16), ffi)

    vectors(run)


GEN = {"falcon": [("falcon.t.sol", "ZKNOX_FalconTest"), ("ethfalcon.t.sol", "ZKNOX_FalconTest"), ("zkfalcon.t", None)],
       "falcon_core": [("falcon_core.t.sol", "ZKNOX_FalconTest"), ("ethfalcon_core.t.sol", "ZKNOX_FalconTest")],
       "epervier": [("epervier.t.sol", "ZKNOX_epervierTest"), ("ethepervier.t.sol", "ZKNOX_epervierTest")],
       "hashtopoint": [("HashToPointEVMVectors.t.sol", "HashToPointEVMTest"), ("HashToPointNISTVectors.t.sol", "HashToPointNISTTest"), ("HashToPointZKVectors.t", None)]}


def vectors(run):
    """The four vector generators, run in a scratch directory for their own messages and for others; the tests they write pass on the translated contracts
    and state values that the specification accepts."""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    from vf import core

    def blake(data, n):
        return spec.blake_stream(hashlib.blake2s(data[:40]).digest() + data[40:], n)

    def kind_of(name):
        return "blake2s" if name.lower().startswith("zk") or "ZK" in name else "keccak" if name.startswith("eth") or "EVM" in name else "shake"

    def hashed(kind, salt, m):
        return spec.h2p(512, salt + m, blake if kind == "blake2s" else spec.STREAMS[kind])

    def produce(gen, msgs, d):
        """Runs the generator in a child with messages of our own (None: its own); returns (messages, complaint)."""
        home = os.path.join(d, "pythonref")
        os.makedirs(home, exist_ok=True)
        os.makedirs(os.path.join(d, "test"), exist_ok=True)
        prog = ("import sys,types,runpy,json,ast\nsys.path[:0]=%r\nm=json.loads(sys.argv[1])\n"
                "if m is not None and sys.argv[2]=='falcon':\n"
                " t=ast.parse(open(sys.argv[3]).read())\n"
                " for s in t.body:\n"
                "  if isinstance(s,ast.Assign) and getattr(s.targets[0],'id','')=='list_of_messages': s.value=ast.copy_location(ast.parse(repr(m),mode='eval').body,s.value)\n"
                " ns={'__name__':'__main__'}\n exec(compile(ast.fix_missing_locations(t),sys.argv[3],'exec'),ns)\n json.dump(ns['list_of_messages'],open('messages','w'))\n sys.exit()\n"
                "if m is not None:\n g=types.ModuleType('generate_falcon_test_vectors');g.list_of_messages=m;sys.modules[g.__name__]=g\n"
                "ns=runpy.run_path(sys.argv[3],run_name='__main__')\njson.dump(ns.get('list_of_messages') or sys.modules['generate_falcon_test_vectors'].list_of_messages,open('messages','w'))\n") % [os.path.join(core.ROOT, "vf", "stubs"), pyref.PYREF]
        import json
        r = subprocess.run([sys.executable, "-B", "-c", prog, json.dumps(msgs), gen, os.path.join(pyref.PYREF, "generate_%s_test_vectors.py" % gen)],
                           cwd=home, capture_output=True, text=True, timeout=600)
        if r.returncode:
            return None, "the generator ends with %s" % (r.stderr.strip().split("\n") or [""])[-1][:200]
        if not os.path.exists(os.path.join(d, "src")):
            os.symlink(os.path.join(core.REPO, "src"), os.path.join(d, "src"))
        return json.load(open(os.path.join(home, "messages"))), None

    def arrays(body, size):
        return [v for v in ([int(x) for x in a.replace("uint256(", "").replace(")", "").split(",")] for a in re.findall(r"\[((?:uint256\(\d+\)|\d+)(?:\s*,\s*\d+)+)\]", body)) if len(v) == size]

    def strings(text):
        return [re.sub(rb"\\x([0-9a-f]{2})", lambda t: bytes([int(t[1], 16)]), s.encode()) for s in re.findall(r'"([^"]*)"', text)]

    def job(jobs):
        for gen, what, msgs in jobs:
            d = os.path.join(run.tmp, "gen", "%s-%s" % (gen, what))
            ms, why = produce(gen, msgs, d)
            yield "%s/%s" % (gen, what), why, True
            if why:
                continue
            for name, cn in GEN[gen]:
                p = os.path.join(d, "test", name)
                key = "%s/%s/%s" % (gen, what, name)
                if not os.path.exists(p):
                    yield key, "the generator wrote no %s" % name, True
                    continue
                text = open(p).read()
                parts = re.split(r"function testVector\d+\(\)", text)[1:]
                yield key, None if len(parts) == len(ms) else "%d tests for %d messages" % (len(parts), len(ms)), True
                if cn:
                    try:
                        c = sol.Contract(run, p, cn, opt="-O0")
                        if "setUp" in c.names:
                            c.call("setUp")
                        for i in range(len(ms)):
                            why = None
                            try:
                                c.call("testVector%d" % i)
                            except sol.Revert as e:
                                why = "the generated test fails on the contract: %r" % (e.args,)
                            yield "%s/%d/contract" % (key, i), why, True
                    except (sol.Unsupported, RuntimeError, KeyError, UnicodeError) as e:
                        if isinstance(e, KeyError) and not str(e).startswith("'testVector"):
                            raise
                        yield key + "/contract", "the generated test is not a program for the contract: %s" % str(e)[:200], True
                for i, (m, body) in enumerate(zip(ms, parts)):
                    yield "%s/%d/values" % (key, i), values(gen, kind_of(name), m.encode(), body), True

    def values(gen, kind, m, body):
        said = [s for s in strings(body)]
        code = re.sub(r"//[^\n]*", "", body)
        w, h = arrays(code, 32), arrays(code, 512)
        salts = [s for s in said if len(s) == 40 and s != m]
        if m not in said:
            return "the message is not the one asked for"
        if not salts:
            return "no salt of 40 bytes is written"
        c = hashed(kind, salts[-1], m)
        if gen == "hashtopoint":
            return None if h and h[0] == c else "the point written is not the hash of the salt and message written"
        if gen == "falcon_core" and (not h or h[0] != c):
            return "the point written is not the hash of the salt and message written"
        if len(w) != 2:
            return "%d arrays of 32 words" % len(w)
        if gen == "epervier":
            s2 = [int(x) for x in chain.ntt(chain.expand(w[1]))]
            prod = 1
            for x in s2:
                prod = prod * x % spec.Q
            hint = re.findall(r"hint\s*=\s*(\d+)", code)
            if not hint or prod * int(hint[0]) % spec.Q != 1:
                return "the hint is not the inverse of the product of the values of s2"
            s1, t = chain.cmod([x % spec.Q for x in chain.expand(w[0])]), chain.cmod([x % spec.Q for x in chain.expand(w[1])])
            return None if int((s1 * s1).sum() + (t * t).sum()) <= spec.BOUND[512] else "the signature written is too long"
        key, s2 = w
        a = chain.arr(chain.expand(s2))
        s1 = chain.cmod(chain.arr(c) - chain.intt(chain.ntt(a) * chain.arr(chain.expand(key)) % spec.Q))
        return None if int((s1 * s1).sum() + (chain.cmod(a) ** 2).sum()) <= spec.BOUND[512] and max(chain.expand(s2)) < spec.Q else "the signature written does not verify"
    other = ["".join(chr(97 + (i * 7 + l) % 26) for i in range(l)) for l in ((0, 1, 136) if run.quick else (0, 1, 31, 33, 95, 96, 97, 135, 136, 137, 200, 272))]
    section(run, "vector generators", split([(g, "own", None) for g in GEN] + [(g, "other", other + ([] if g == "epervier" else ["\x01\t\x7f", "\t\x02" * 20] if g == "falcon" else ["\x01\n\x7f\"\\", "\t\x00" * 20])) for g in GEN], 8), job)

    def twice(jobs):
        for gen, in jobs:
            out, ds = [], [os.path.join(run.tmp, "gen", "%s-again%d" % (gen, k)) for k in range(2)]
            with ThreadPoolExecutor(2) as ex:
                whys = list(ex.map(lambda d: produce(gen, None, d)[1], ds))
            for d, why in zip(ds, whys):
                out.append(why or [open(os.path.join(d, "test", n)).read() if os.path.exists(os.path.join(d, "test", n)) else None for n, _ in GEN[gen]])
            yield gen, None if out[0] == out[1] else "two runs write different vectors", True
    section(run, "generators repeated", split([(g,) for g in GEN], 4), twice)
