"""C04: the native code stays within its buffers and uses only defined values, on every input explored."""
import concurrent.futures as cf, os, re, subprocess
from vf import cbuild
from vf.cases import section

LEVEL = "exploration"
ASAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
MSAN = ["-g", "-fsanitize=memory", "-fno-omit-frame-pointer"]
# mode, (lo, hi, step) quick, (lo, hi, step) thorough, workers
MODES = [("sign", (0, 700, 9), (0, 3000, 1), 4), ("sign-long", (4050, 72000, 5003), (4050, 140000, 977), 4), ("open", (0, 1400, 1), (0, 2700, 1), 4), ("declared", (0, 2900, 1), (0, 65536, 1), 2), ("keys", (0, 1300, 1), (0, 1300, 1), 6),
         ("seed", (0, 220, 1), (0, 1200, 1), 6), ("codec", (0, 2100, 1), (0, 2100, 1), 4), ("hash", (0, 600, 1), (0, 4500, 1), 4), ("core", (0, 16, 1), (0, 600, 1), 6)]


def main(run):
    q = run.quick
    lib = cbuild.Lib(run)
    builds = [("gcc-asan-ubsan", dict(cflags=ASAN, ldflags=["-fsanitize=address,undefined"], opt="-O1")),
              ("gcc-asan-ubsan-keccak", dict(cflags=ASAN, ldflags=["-fsanitize=address,undefined"], opt="-O1", eth=True)),
              ("clang-msan", dict(cflags=MSAN, ldflags=["-fsanitize=memory"], opt="-O1", cc="clang"))]
    if not q:
        builds += [("clang-msan-keccak", dict(cflags=MSAN, ldflags=["-fsanitize=memory"], opt="-O1", cc="clang", eth=True)),
                   ("clang-asan-ubsan-O2", dict(cflags=ASAN, ldflags=["-fsanitize=address,undefined"], opt="-O2", cc="clang"))]
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {t: ex.submit(lib.build, t, harness=("mem_h.c",), exe=True, **kw) for t, kw in builds}
        exe = {t: f.result() for t, f in fs.items()}

    def go(job):
        mode, tag, lo, hi, st = job
        r = subprocess.run([exe[tag], mode.split("-")[0], str(lo), str(hi), str(st), str(run.seed)], capture_output=True, text=True, errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=0", MSAN_OPTIONS=""))
        m = re.search(r"cases (\d+) reached (\d+)", r.stdout)
        if r.returncode == 0 and m:
            return int(m[1]), int(m[2]), None, None
        case = re.findall(r"^CASE (.*)$", r.stderr, re.M)
        what = re.findall(r"(?:ERROR: |WARNING: |runtime error: |SUMMARY: |^signal|^wrote more|^consumed more).*", r.stderr, re.M)
        if not case:
            case, what = ["%s from %d step %d" % (mode, lo, st)], what + ["exit status %d; %s" % (r.returncode, r.stderr[-400:])]
        return 0, 0, case[-1], "%s: %s" % (tag, "; ".join(what[:3])[:500])

    def part(mode, rng, k):
        lo, hi, st = rng
        jobs = [(mode, tag, lo + i * st, hi, st * k) for tag in exe for i in range(k)]

        def body(run):
            for out in run.pmap(go, jobs):
                if out is None:
                    continue
                cases, hit, case, why = out
                run.count("evaluations", cases)
                run.count("distinct_nontrivial", hit)
                if case:
                    run.fail("%s:%s" % (mode, case), why)
            run.sample({"section": mode, "range": list(rng), "builds": list(exe)})
        run.section(mode, body)
    for mode, a, b, k in MODES:
        part(mode, a if q else b, k)
    run.note(rule="every case calls the native code with buffers of exactly the documented size under the address, undefined-behaviour and memory sanitizers; "
             "non-trivial = the call went all the way (signature accepted, value decoded or encoded, basis completed)", exhaustive=True)
    run.assumptions.append("the sanitizers of gcc 13 and clang 18 report what the executions do; stack objects are separated by red zones only at their ends")
