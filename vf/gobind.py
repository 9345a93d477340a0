"""Builds a Go program against falcon.go of the working tree (copied to scratch with a fresh libfalcon.a) and talks to it line by line."""
import glob, os, shutil, subprocess, threading
from . import cbuild
from .core import REPO, ROOT, HarnessError, NPROC

ENV = dict(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOSUMDB="off", GONOSUMDB="*", GO111MODULE="on")


def env(run):
    return dict(os.environ, GOCACHE=os.path.join(run.tmp, "gocache"), GOPATH=os.path.join(run.tmp, "gopath"), HOME=run.tmp, **ENV)


def build(run, tag, main, asan=False, stub=None, extra=(), mods=()):
    """main: Go source text or path; extra: further (directory, {file: text}) packages; returns the program path."""
    d = os.path.join(run.tmp, "go-" + tag)
    m = os.path.join(d, "falcon")
    os.makedirs(os.path.join(m, "nistfalcon", "build"))
    os.makedirs(os.path.join(d, "prog"))
    src = os.path.join(REPO, "falcon")
    for f in glob.glob(src + "/*.go") + [src + "/go.mod"]:
        if not f.endswith("_test.go"):
            shutil.copy(f, m)
    shutil.copytree(cbuild.SRC, os.path.join(m, "nistfalcon", "src"))
    for f in glob.glob(os.path.join(m, "nistfalcon", "src", "*.[oa]")):
        os.remove(f)
    L = cbuild.Lib(run)
    flags = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g"] if asan else []
    cs = [stub] if stub else sorted(glob.glob(cbuild.SRC + "/*.c"))
    objs = [f.result() for f in L.objs("go-" + tag, cs, cbuild.BASE + ["-O1" if asan else "-O2"] + flags, "gcc")]
    if asan and not stub:     # a caller has to bring room for the longest result, not only for the usual one
        for o in objs:
            subprocess.run(["objcopy", "--redefine-sym", "crypto_sign=room_crypto_sign", "--redefine-sym", "crypto_sign_keypair=room_crypto_sign_keypair", o], check=True)
        objs += [f.result() for f in L.objs("go-room", [os.path.join(ROOT, "harness", "goroom.c")], cbuild.BASE + ["-O1", "-I" + cbuild.SRC] + flags, "gcc")]
    subprocess.run(["ar", "rcs", os.path.join(m, "nistfalcon", "build", "libfalcon.a")] + objs, check=True)
    req = "require github.com/ZKNoxHQ/ETHFALCON/falcon v0.0.0\nreplace github.com/ZKNoxHQ/ETHFALCON/falcon => ../falcon\n"
    for name, files in extra:
        p = os.path.join(d, "mod", name)
        os.makedirs(p)
        for fn, txt in files.items():
            os.makedirs(os.path.dirname(os.path.join(p, fn)), exist_ok=True)
            open(os.path.join(p, fn), "w").write(txt)
        req += "require %s v0.0.0\nreplace %s => ../mod/%s\n" % (name, name, name)
    open(os.path.join(d, "prog", "go.mod"), "w").write("module prog\n\ngo 1.24\n\n" + req)
    for fn, txt in (main if isinstance(main, dict) else {"main.go": open(main).read()}).items():
        open(os.path.join(d, "prog", fn), "w").write(txt)
    out = os.path.join(d, "prog.bin")
    r = subprocess.run(["go", "build"] + (["-asan"] if asan else []) + ["-o", out, "."], cwd=os.path.join(d, "prog"), env=env(run), capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("go build failed: " + r.stderr[-3000:])
    return out


class Died(Exception):
    pass


class Proc:
    def __init__(self, path, timeout=60):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", GOTRACEBACK="none", GOMAXPROCS="2")
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        self.err = b""
        self.timeout = timeout
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for l in self.p.stderr:
            self.err = (self.err + l)[-6000:]

    def ask(self, *a):
        t = threading.Timer(self.timeout, self.p.kill)
        t.start()
        try:
            self.p.stdin.write((" ".join(a) + "\n").encode())
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            l = b""
        finally:
            t.cancel()
        if not l:
            self.p.wait()
            raise Died(self.why())
        return l.decode().split()

    def why(self):
        import time
        time.sleep(0.2)
        s = self.err.decode(errors="replace")
        for l in s.splitlines():
            if "ERROR: AddressSanitizer" in l:
                import re
                return re.sub(r"0x[0-9a-f]+|==\d+==|T\d+", "", l)[:160]
            if l.startswith(("panic:", "fatal error:", "SIG", "unexpected fault")):
                return l[:160]
        return "exit %s %s" % (self.p.returncode, s[-200:])

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


def hx(b):
    return "-" if b is None else b.hex() or "."
