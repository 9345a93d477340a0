"""P07: the command line signer: files, signing, verifying, transactions; its signing randomness binds key and message."""
import contextlib, hashlib, io, itertools, os, re, sys
import numpy as np
from vf import chain, pyref, spec
from vf.cases import section, split

LEVEL = "exploration"
VERSIONS = ("falcon", "ethfalcon", "falconrec", "epervier")


class Cli:
    """One working directory and the entry point of sign_cli run in it."""

    def __init__(self, run, mod, name):
        self.mod, self.dir = mod, os.path.join(run.tmp, "cli-" + name)
        os.makedirs(self.dir, exist_ok=True)

    def __call__(self, *args):
        """(standard output, exception or None)"""
        argv, cwd, out = sys.argv, os.getcwd(), io.StringIO()
        try:
            os.chdir(self.dir)
            sys.argv = ["sign_cli.py"] + list(args)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                self.mod.cli()
            return out.getvalue(), None
        except (Exception, SystemExit) as e:
            return out.getvalue(), e
        finally:
            sys.argv = argv
            os.chdir(cwd)

    def put(self, f, sk, pk, version):
        cwd = os.getcwd()
        try:
            os.chdir(self.dir)
            self.mod.save_pk(pk, "public_key.pem", version)
            self.mod.save_sk(sk, "private_key.pem", version)
        finally:
            os.chdir(cwd)

    def sig(self):
        with open(os.path.join(self.dir, "sig")) as f:
            return bytes.fromhex(f.read())


def make(cli, polys, version, n=512):
    if version in ("falcon", "ethfalcon"):
        sk = cli.SecretKey(n, polys=list(polys))
        return sk, cli.PublicKey(n, sk.h)
    if version == "falconrec":
        sk = cli.RecoveryModeSecretKey(n, polys=list(polys))
        return sk, cli.RecoveryModePublicKey(n, sk.pk)
    sk = cli.EpervierSecretKey(n, polys=list(polys))
    return sk, cli.EpervierPublicKey(n, sk.pk)


def twist(polys, k):
    """The key with the same public polynomial h whose f and g are X^k times (and for k >= n minus) the given ones."""
    def rot(p, k):
        n = len(p)
        k %= 2 * n
        out = [0] * n
        for i, x in enumerate(p):
            j = (i + k) % (2 * n)
            out[j % n] = -x if j >= n else x
        return out
    f, g, F, G = polys
    return rot(f, k), rot(g, k), rot(F, -k), rot(G, -k)


def main(run):
    cli, prng, shake = pyref.load(run, "sign_cli", "keccak_prng", "shake")
    pyref.fast_keccak(run)
    q = run.quick

    def keyfiles(jobs):
        for n, k, ver in jobs:
            sk, pk = make(cli, pyref.keys(run, n)[k], ver, n)
            c = Cli(run, cli, "files-%d-%d-%s" % (n, k, ver))
            c.put(cli, sk, pk, ver)
            r1, e1 = pyref.quiet(cli.load_sk, os.path.join(c.dir, "private_key.pem"))
            r2, e2 = pyref.quiet(cli.load_pk, os.path.join(c.dir, "public_key.pem"))
            why = None
            if e1 or e2:
                why = "loading the saved files raised %r" % (e1 or e2)
            elif r1[1] != ver or r2[1] != ver or type(r1[0]) is not type(sk) or type(r2[0]) is not type(pk):
                why = "the files of a %s key load as %s / %s" % (ver, r1, r2)
            elif [list(map(int, getattr(r1[0], a))) for a in "fgFG"] != [list(map(int, getattr(sk, a))) for a in "fgFG"] or list(r1[0].h) != list(sk.h):
                why = "the private key read back is another key"
            elif r2[0].pk != pk.pk or r2[0].n != pk.n:
                why = "the public key read back is another key"
            yield "%s/%d/%d" % (ver, n, k), why, True
    section(run, "key files", split([(n, k, v) for v in VERSIONS for n in ((64, 512) if q else (2, 8, 64, 256, 512, 1024)) for k in range(2 if q else 12)], 16), keyfiles)

    def overwrites(jobs):
        """Files written over other files: what is loaded is what was saved last, whatever was there or was loaded before."""
        for seq in jobs:
            c, why = Cli(run, cli, "over-" + "-".join("%s%d" % x for x in seq)), None
            for i, (ver, n) in enumerate(seq):
                sk, pk = make(cli, pyref.keys(run, n)[i], ver, n)
                c.put(cli, sk, pk, ver)
                sig = hashlib.shake_256(b"%d" % i).digest(n)
                f = os.path.join(c.dir, "sig")
                _, e0 = pyref.quiet(cli.save_signature, sig, f)
                r1, e1 = pyref.quiet(cli.load_sk, os.path.join(c.dir, "private_key.pem"))
                r2, e2 = pyref.quiet(cli.load_pk, os.path.join(c.dir, "public_key.pem"))
                s2, e3 = pyref.quiet(cli.load_signature, f)
                if e0 or e1 or e2 or e3:
                    why = "step %d: reading the files back raised %r" % (i, e0 or e1 or e2 or e3)
                elif r1[1] != ver or r1[0].n != n or list(map(int, r1[0].f)) != list(map(int, sk.f)) or list(map(int, r1[0].G)) != list(map(int, sk.G)):
                    why = "step %d: the private key read back is not the one saved last" % i
                elif r2[1] != ver or r2[0].n != n or r2[0].pk != pk.pk:
                    why = "step %d: the public key read back is not the one saved last" % i
                elif bytes(s2) != sig:
                    why = "step %d: the signature read back is not the one saved last" % i
                if why:
                    break
            yield "-".join("%s%d" % x for x in seq), why, True
    kinds = [(v, n) for v in VERSIONS for n in ((8, 64) if q else (8, 64, 256))]
    section(run, "files written over files", split(list(itertools.product(kinds, repeat=2)) + ([] if q else list(itertools.product(kinds[:6], repeat=3))), 16), overwrites)

    def messages():
        # every length, plus families in which messages differ by one bit, a trailing zero, a doubled block
        for l in list(range(1, 24 if q else 140)) + [135, 136, 137, 272, 1000]:
            yield hashlib.shake_256(b"m%d" % l).digest(l)
        for l in (1, 2, 3, 32):
            yield bytes(l)
            yield b"\1" + bytes(l)
        m = hashlib.sha256(b"base").digest()
        for b in (0, 7, 128, 255):
            x = bytearray(m)
            x[b // 8] ^= 1 << b % 8
            yield bytes(x)
        yield m
        yield m + m
        yield m + b"\0"

    def whole(jobs):
        for ver, k, m in jobs:
            sk, pk = make(cli, pyref.keys(run, 512)[k], ver)
            c = Cli(run, cli, "sv-%s-%d-%d" % (ver, k, os.getpid()))
            c.put(cli, sk, pk, ver)
            key = "%s/%d/%d/%s" % (ver, k, len(m), m[:6].hex())
            out, e = c("sign", "--privkey", "private_key.pem", "--data", m.hex())
            if e:
                yield key, "signing a message of %d bytes raised %r" % (len(m), e), True
                continue
            sig = c.sig()
            out, e = c("verify", "--pubkey", "public_key.pem", "--data", m.hex(), "--signature", "sig")
            yield key, None if e is None and "Signature is valid." in out and "Invalid" not in out else "its own signature of %d bytes is not verified: %s %r" % (len(m), out.strip(), e), True
            out2, e = c("sign", "--privkey", "private_key.pem", "--data", m.hex())
            yield key + "/again", None if c.sig() == sig else "signing the same message twice gives two signatures", True
            for what, d in (("extended", m + b"\0"), ("changed", bytes([m[0] ^ 1]) + m[1:]), ("shortened", m[:-1])):
                if d:
                    out, e = c("verify", "--pubkey", "public_key.pem", "--data", d.hex(), "--signature", "sig")
                    yield key + "/" + what, None if e is None and "Invalid signature." in out else "the %s message is not refused: %s %r" % (what, out.strip(), e), True
            bad = bytearray(sig)
            bad[len(m) % 300 + 41] ^= 4
            cwd = os.path.join(c.dir, "sig")
            with open(cwd, "w") as f:
                f.write(bytes(bad).hex())
            out, e = c("verify", "--pubkey", "public_key.pem", "--data", m.hex(), "--signature", "sig")
            yield key + "/tampered", None if e is None and "Invalid signature." in out else "a changed signature is not refused: %s %r" % (out.strip(), e), True
            other = "ethfalcon" if ver == "falcon" else "falcon"
            if ver in ("falcon", "ethfalcon"):
                with open(cwd, "w") as f:
                    f.write(sig.hex())
                cli.save_pk(pk, os.path.join(c.dir, "other.pem"), other)
                out, e = c("verify", "--pubkey", "other.pem", "--data", m.hex(), "--signature", "sig")
                yield key + "/version", None if e is None and "Invalid signature." in out else "a %s signature verifies as %s: %s %r" % (ver, other, out.strip(), e), True
    ms = list(messages())
    section(run, "sign and verify through files", split([(v, (i + j) % 12, m) for j, v in enumerate(VERSIONS) for i, m in enumerate(ms[::4] if q else ms)], 32), whole)

    # randomness: per key and message one salt; nobody without the private polynomials can predict it
    def salts(jobs):
        for ver, n, k in jobs:
            base = pyref.keys(run, n)[k]
            seen, first = {}, {}
            for t in (0, 1, n, n + 1, n // 2):
                sk, _ = make(cli, twist(base, t), ver, n)
                for m in ms if t == 0 else ms[:4]:
                    s, e = pyref.quiet(cli.signature, sk, m, ver)
                    if e:
                        yield "%s/%d/%d" % (ver, n, k), "signing raised %r" % e, True
                        continue
                    salt = s[1:41]
                    tag = (t, m)
                    why = None
                    if salt in seen:
                        o = seen[salt]
                        why = ("messages of %d and %d bytes are signed with the same salt" % (len(o[1]), len(m)) if o[0] == t else
                               "two private keys of one public key use the same salt: it can be computed from public data")
                    seen[salt] = tag
                    if t == 0:
                        first.setdefault(m, s)
                    yield "%s/%d/%d/%d/%d/%s" % (ver, n, k, t, len(m), m[:4].hex()), why, True
            sk, _ = make(cli, base, ver, n)
            for m in ms[::5]:
                s, e = pyref.quiet(cli.signature, sk, m, ver)
                yield "%s/%d/%d/fresh object/%d" % (ver, n, k, len(m)), None if e is None and s == first.get(m) else "a newly loaded key signs the same message differently", True
    section(run, "randomness of a signature", split([(v, n, k) for v in VERSIONS for n in ((64,) if q else (64, 256)) for k in range(2 if q else 8)], 16), salts)

    # transactions
    def txhash(jobs):
        def w(x):
            return x.to_bytes(32, "big")
        for nonce, to, data, value in jobs:
            want = spec.keccak256(w(nonce) + w(to) + w(128) + w(value) + w(len(data)) + data + bytes(-len(data) % 32))
            got, e = pyref.quiet(cli.transaction_hash, nonce, to, data, value)
            yield "%x/%x/%d/%x" % (nonce, to, len(data), value), None if got == want else "the transaction hash is %s" % (e if e else got.hex()), True
    E = [0, 1, 255, 256, 2**64, 2**160 - 1]
    jobs = [(a, b, d, v) for a in E + [2**256 - 1] for b in E for v in E + [2**256 - 1] for d in (b"", b"\1", bytes(32))] + \
           [(1, 2, hashlib.shake_256(b"%d" % l).digest(l), 3) for l in range(0, 300)]
    section(run, "transaction hash", split(jobs, 16), txhash)

    def tx(jobs):
        for ver, k, i in jobs:
            sk, pk = make(cli, pyref.keys(run, 512)[k], ver)
            c = Cli(run, cli, "tx-%s-%d-%d" % (ver, k, i))
            c.put(cli, sk, pk, ver)
            d = hashlib.shake_256(b"tx%d" % i).digest(1 + 13 * i)
            nonce, to, value = 3 * i, (i * 0x1234567890ABCDEF1234567890ABCDEF12345678 + 5) % 2**160, i * 10**18 + i
            key = "%s/%d/%d" % (ver, k, i)
            out, e = c("sign_tx", "--privkey", "private_key.pem", "--data", d.hex(), "--nonce", "%x" % nonce, "--to", "%x" % to, "--value", "%x" % value)
            if e:
                yield key, "sign_tx raised %r" % e, True
                continue
            v = dict(re.findall(r"^(\w+) = (.*)$", out, re.M))
            try:
                txh, salt = bytes.fromhex(v["TX_HASH"][2:]), bytes.fromhex(v["SALT"][2:])
                pkc, s2 = eval(v["PK"], {"__builtins__": {}}), eval(v["S2"], {"__builtins__": {}})
            except Exception as e:
                yield key, "sign_tx printed %r" % out[-300:], True
                continue
            w = lambda x: x.to_bytes(32, "big")
            want = spec.keccak256(w(nonce) + w(to) + w(128) + w(value) + w(len(d)) + d + bytes(-len(d) % 32))
            ntth = [a * pow(b, -1, spec.Q) % spec.Q for a, b in zip(*[[int(x) for x in chain.ntt(pyref.keys(run, 512)[k][z])] for z in (1, 0)])]
            why = None
            if txh != want:
                why = "sign_tx signs another hash"
            elif list(pkc) != chain.compact(ntth):
                why = "sign_tx prints another public key"
            elif not chain.accepts(chain.KIND[ver], want, salt, list(s2), list(pkc)):
                why = "what sign_tx prints is not a valid signature of the transaction"
            yield key, why, True
    section(run, "transaction signatures", split([(v, k, i) for v in ("falcon", "ethfalcon") for k in range(2 if q else 8) for i in range(4 if q else 20)], 16), tx)

    def gen(vs):
        for ver, rep in vs:
            c = Cli(run, cli, "gen-%s-%d" % (ver, rep))
            out, e = pyref.guarded(300, c, "genkeys", "--version", ver)
            if e:
                yield "%s/%d" % (ver, rep), "genkeys raised %r" % e, True
                continue
            r, e = pyref.quiet(cli.load_sk, os.path.join(c.dir, "private_key.pem"))
            p, e2 = pyref.quiet(cli.load_pk, os.path.join(c.dir, "public_key.pem"))
            why = None
            if e or e2:
                why = "generated files do not load: %r" % (e or e2)
            else:
                sk = r[0]
                f, g, F, G = [list(map(int, getattr(sk, a))) for a in "fgFG"]
                d = [x - y for x, y in zip(spec.negamul(f, G), spec.negamul(g, F))]
                if d != [spec.Q] + [0] * 511:
                    why = "the generated private key does not satisfy fG - gF = q"
            yield "%s/%d/key" % (ver, rep), why, True
            out, e = c("sign", "--privkey", "private_key.pem", "--data", "c0ffee")
            out, e2 = c("verify", "--pubkey", "public_key.pem", "--data", "c0ffee", "--signature", "sig")
            yield "%s/%d" % (ver, rep), None if e is None and e2 is None and "Signature is valid." in out else "a generated key does not verify its own signature: %r %r" % (out, e or e2), True
    section(run, "generated keys", [[(v, i)] for i in range(1 if q else 12) for v in VERSIONS], gen)
