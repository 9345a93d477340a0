"""Shared runtime of the checks: tiers, evidence, violations, known findings, crash-isolated workers."""
import hashlib, json, os, pickle, re, select, shutil, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Skip(Exception):
    pass


class Run:
    """One run of one check.  Counters are measured: every explored case goes through states/edges/case."""

    def __init__(self, pid, level, tier, seed, only=None):
        self.pid, self.level, self.tier, self.seed, self.only = pid, level, tier, seed, only
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.cov = {"sections": {}}
        self.samples = []
        self.assumptions = []
        self.nviol = 0
        self.known = known_findings(pid)
        self.seen_known = {}
        self.counts = {}
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid.lower())
        self.sec = None
        self._vkeys = set()

    # ---- bookkeeping
    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + int(k)
        if self.sec:
            d = self.cov["sections"].setdefault(self.sec, {})
            d[name] = d.get(name, 0) + int(k)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def note(self, **kw):
        if self.sec:
            self.cov["sections"].setdefault(self.sec, {}).update(kw)
        else:
            self.cov.update(kw)

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def fail(self, key, what, **data):
        """The code under test broke the property on the case named by key."""
        key = re.sub(r"\s+", "_", str(key))
        if key in self.known:
            self.seen_known[key] = what
            return
        if key in self._vkeys:
            return
        self._vkeys.add(key)
        self.nviol += 1
        if self.nviol > 20:
            return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(key.encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.pid, h))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "section": self.sec, "key": key, "what": what, "tier": self.tier,
                       "seed": self.seed, "data": data,
                       "rerun": "cd /verif && ./run %s --replay %s" % (self.pid, path)}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  [%s] %s: %s" % (self.sec, key, str(what)[:600]), flush=True)

    def section(self, name, fn, *a):
        if self.only and name not in self.only:
            return None
        if self.nviol and self.quick and time.time() - self.t0 > 200:
            self.log("section", name, "skipped: violations are known already")
            return None
        self.sec = name
        t = time.time()
        try:
            return fn(self, *a)
        finally:
            self.cov["sections"].setdefault(name, {})["wall_s"] = round(time.time() - t, 2)
            self.log("section", name, "done", json.dumps(self.cov["sections"][name])[:300])
            self.sec = None

    # ---- crash-isolated parallel map: fn(item) runs in a forked child; a child killed by a signal is reported
    def pmap(self, fn, items, jobs=None, on_crash=None, timeout=None, enough=None):
        """enough(result): the verdict is known; jobs not yet started are dropped once that took two minutes."""
        began, known = time.time(), False
        items = list(items)
        hang = None if timeout else (240 if self.quick else 7200)
        jobs = min(jobs or NPROC, max(1, len(items)))
        results = [None] * len(items)
        pending = list(range(len(items)))[::-1]
        procs = {}
        sys.stdout.flush()

        def launch():
            i = pending.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for (fd, _b, _i, _t) in procs.values():
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    try:
                        out = ("ok", fn(items[i]))
                    except BaseException as e:  # noqa
                        out = ("code" if from_repo(e) else "exc", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
                    data = pickle.dumps(out)
                    off = 0
                    while off < len(data):
                        off += os.write(w, data[off:off + 65536])
                finally:
                    os._exit(0)
            os.close(w)
            procs[pid] = (r, [], i, time.time())

        while pending or procs:
            while pending and len(procs) < jobs:
                launch()
            fds = {v[0]: k for k, v in procs.items()}
            rl, _, _ = select.select(list(fds), [], [], 1.0)
            for fd in rl:
                chunk = os.read(fd, 1 << 20)
                pid = fds[fd]
                if chunk:
                    procs[pid][1].append(chunk)
                    continue
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                _fd, buf, i, _t = procs.pop(pid)
                data = b"".join(buf)
                try:
                    results[i] = pickle.loads(data)
                    if enough and results[i][0] == "ok" and enough(results[i][1]):
                        known = True
                except Exception:
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
                    results[i] = ("crash", sig)
            if known and pending and time.time() - began > (120 if self.quick else 3600):
                for i in pending:
                    results[i] = ("ok", None)
                pending = []
            late = [v for v in procs.values() if hang and time.time() - v[3] > hang]
            if late:
                for pid in procs:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                self.fail("hang:%s" % _short(items[late[0][2]]), "execution did not end within %d s (a job of this size takes seconds): %s" % (hang, _short(items[late[0][2]])))
                raise Stop
            if timeout:
                now = time.time()
                for pid, v in list(procs.items()):
                    if now - v[3] > timeout:
                        os.kill(pid, signal.SIGKILL)
                        os.waitpid(pid, 0)
                        os.close(v[0])
                        procs.pop(pid)
                        results[v[2]] = ("crash", "timeout")
        out = []
        for i, r in enumerate(results):
            kind, val = r
            if kind == "ok":
                out.append(val)
            elif kind == "crash":
                if on_crash:
                    on_crash(items[i], val)
                else:
                    self.fail("crash:%s" % _short(items[i]), "execution ended abnormally (signal/timeout %s) on %s" % (val, _short(items[i])), item=_short(items[i]))
                out.append(None)
            elif kind == "code":
                self.fail("raised:%s" % _short(items[i]), "the code under test raised: %s" % val[-900:], item=_short(items[i]))
                out.append(None)
            else:
                raise HarnessError(val)
        return out

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = self.cov
        if self.level == "exploration":
            cov.setdefault("rule", "each section enumerates the inputs its name says, within the bounds stated in DESIGN.md; a case is non-trivial when it reaches "
                           "the decision of the section (an accepted or decodable input, a deviation from the honest input), as judged by the reference model")
        cov["samples"] = self.samples or ["(none)"]
        for k, v in self.counts.items():
            cov[k] = v
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        if not self.only:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for k, v in sorted(self.seen_known.items()):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, self.known[k]))
        if not self.only:
            for k in sorted(set(self.known) - set(self.seen_known)):
                print("note: listed finding %s not observed in this run" % k)
        self.log("finished", {k: v for k, v in self.counts.items()}, "violations", self.nviol)
        return 1 if self.nviol else 0


class HarnessError(Exception):
    pass


class Stop(Exception):
    """The run ends here: a job of the code under test hangs."""


def from_repo(e):
    """Was the exception raised inside the code under test (or something it called)?"""
    root = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


def _short(x):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) < 120 else s[:80] + "#" + hashlib.sha256(s.encode()).hexdigest()[:10]


def chunks(seq, k):
    seq = list(seq)
    n = max(1, (len(seq) + k - 1) // k)
    return [seq[i:i + n] for i in range(0, len(seq), n)]
