"""Builds the native reference from the current working tree, in several variants, into a scratch directory."""
import concurrent.futures, ctypes, glob, os, subprocess
from .core import REPO, ROOT, HarnessError, NPROC

SRC = os.path.join(REPO, "falcon", "nistfalcon", "src")
HARN = os.path.join(ROOT, "harness")
BASE = ["-DALGNAME=falcon512int", "-I", SRC, "-I", HARN, "-fPIC", "-w"]


class Lib:
    def __init__(self, run):
        self.run = run
        self.cache = {}
        self.pool = concurrent.futures.ThreadPoolExecutor(NPROC)

    def _cc(self, src, out, flags, cc):
        r = subprocess.run([cc, "-c", "-o", out, src] + flags, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("%s does not compile: %s" % (src, r.stderr[-3000:]))
        return out

    def objs(self, tag, sources, flags, cc):
        d = os.path.join(self.run.tmp, "o-" + tag)
        os.makedirs(d, exist_ok=True)
        fs = []
        for s in sources:
            o = os.path.join(d, os.path.basename(s) + ".o")
            fs.append(self.pool.submit(self._cc, s, o, flags, cc))
        return fs

    def build(self, tag, harness=(), eth=False, opt="-O2", cflags=(), hflags=None, ldflags=(), exe=False, cc="gcc", exclude=(), srcs=None, weak=()):
        """Compile every source file of the native tree plus the harness files. Returns the path."""
        sources = srcs if srcs is not None else [s for s in sorted(glob.glob(SRC + "/*.c")) if os.path.basename(s) not in exclude]
        flags = BASE + [opt] + list(cflags) + (["-DETHFALCON"] if eth else [])
        fs = self.objs(tag, sources, flags, cc)
        hs = [h if os.path.isabs(h) else os.path.join(HARN, h) for h in harness]
        hf = BASE + [opt] + (list(cflags) if hflags is None else list(hflags)) + (["-DETHFALCON"] if eth else [])
        fs += self.objs(tag + "-h", hs, hf, cc)
        objs = [f.result() for f in fs]
        if weak:    # these functions of the tree may be replaced by the harness
            for o in objs[:len(sources)]:
                subprocess.run(["objcopy"] + ["--weaken-symbol=" + w for w in weak] + [o], check=True)
        out = os.path.join(self.run.tmp, tag + ("" if exe else ".so"))
        cmd = [cc, "-o", out] + ([] if exe else ["-shared"]) + objs + list(ldflags) + ["-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("link of %s failed: %s" % (tag, r.stderr[-3000:]))
        return out

    def load(self, tag, **kw):
        return ctypes.CDLL(self.build(tag, **kw))


def cdll(run, tag, **kw):
    return Lib(run).load(tag, **kw)
