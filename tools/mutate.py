"""Mutation campaign: random small edits of the source files, each judged by the checks that cover the file. Survivors are listed for review.
usage: mutate.py OUT.jsonl SEED COUNT_PER_FILE WORKERS [file-substring…]   (run from a copy of /verif)"""
import concurrent.futures as cf, json, os, random, re, subprocess, sys, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, P, S = "falcon/nistfalcon/src/", "pythonref/", "src/"
MAP = {N + "codec.c": "C03 C02 C04", N + "common.c": "C07 C05", N + "vrfy.c": "C06 C05 C14", N + "sign.c": "C12 C15 C13", N + "keygen.c": "C09", N + "fft.c": "C13 C15", N + "fpr.c": "C13 C12", N + "fpr.h": "C13",
       N + "rng.c": "C12 C04", N + "shake.c": "C08 C07", N + "keccak256.c": "C08", N + "keccak_prng.c": "C08 C07", N + "katrng.c": "C10", N + "nist.c": "C02 C14 C01 C04 C09", N + "nist16.c": "C02 C14 C01 C04 C09", N + "epervier16.c": "C02 C14 C01 C04 C09",
       N + "inner.h": "C08 C12 C15",
       P + "falcon.py": "P03 P04 P06 P15", P + "falcon_epervier.py": "P05 P04 P06", P + "falcon_recovery.py": "P05 P04 P06", P + "encoding.py": "P02 P03", P + "ffsampling.py": "P10", P + "fft.py": "P10", P + "samplerz.py": "P12", P + "rng.py": "P12", P + "mkgauss.py": "P14",
       P + "drbg/aes256_ctr_drbg.py": "P13", P + "ntrugen.py": "P14", P + "keccak.py": "P01 P15", P + "keccak_prng.py": "P01 P15", P + "shake.py": "P01", P + "blake2s_prng.py": "P01", P + "keccaxof.py": "P01", P + "common.py": "P06 P08", P + "sign_cli.py": "P07 P08", P + "falcon_codec.py": "P06 P09", P + "blake2s/blake2s.py": "P01",
       S + "ZKNOX_falcon.sol": "S01", S + "ZKNOX_ethfalcon.sol": "S01", S + "ZKNOX_epervier.sol": "S02", S + "ZKNOX_ethepervier.sol": "S02", S + "ZKNOX_HashToPoint.sol": "S03", S + "ZKNOX_shake.sol": "S03", S + "ZKNOX_NTT.sol": "S04", S + "ZKNOX_NTT_falcon.sol": "S04 S01",
       S + "ZKNOX_falcon_core.sol": "S01", S + "ZKNOX_falcon_utils.sol": "S05 S01 S04", S + "ZKNOX_falcon_encodings.sol": "S05", S + "ZKNOX_common.sol": "S05 S01 S02", S + "ZKNOX_falcon_deploy.sol": "S04",
       "falcon/falcon.go": "G01", "geth/contracts.go": "G02"}
REL = [("<=", "<"), (">=", ">"), ("<", "<="), (">", ">="), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), ("<<", ">>"), (" and ", " or "), (" or ", " and "), (" & ", " | "), (" | ", " & "), ("^", "|"),
       ("add(", "sub("), ("lt(", "gt("), ("gt(", "lt("), ("or(", "and("), ("shl(", "shr("), ("mulmod(", "addmod("), ("|=", "="), ("+=", "-="), ("-=", "+="), ("+=", "="), ("true", "false"), ("false", "true"), ("True", "False"), ("False", "True"), ("break", "continue"), ("any(", "all("), ("all(", "any("), ("//", "/"), ("continue", "break")]


def code_lines(path, text):
    """Numbers of lines that hold code (no comment, no long table, no declaration of a prototype)."""
    out, com, doc = [], False, False
    for i, l in enumerate(text):
        s = l.strip()
        if path.endswith(".py"):
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or s.startswith('"""') or s.startswith("#") or s.startswith(("import", "from ", "print", "@")):
                continue
        else:
            if "/*" in s and "*/" not in s:
                com = True
            if com:
                com = "*/" not in s
                continue
            if s.startswith(("//", "/*", "*", "#", "import", "pragma", "package")):
                continue
        if len(s) < 4 or len(l) > 400 or len(re.findall(r"\b(?:0x[0-9A-Fa-f]+|\d+)\b", s)) > 7 or s.startswith(("console", "revert(", "raise ", "return errors", "require(")) and not re.search("[<>=]", s):
            continue
        if path.endswith(("contracts.go",)) and not 0:
            pass
        out.append(i)
    return out


def mutants(path, text):
    for i in code_lines(path, text):
        l = text[i]
        body = re.split(r"//|/\*|  #", l)[0] if not path.endswith(".py") else l.split("  #")[0]
        for a, b in REL:
            if a == "//" and not path.endswith(".py"):
                continue
            for m in re.finditer(re.escape(a), body):
                p = m.start()
                around = body[max(0, p - 1):p + len(a) + 1]
                if a in ("<", ">") and re.search(r"<<|>>|<=|>=|->|=>", around):
                    continue
                if a in ("<<",) and "<<=" in around or a == "&&" and "&&&" in around or a == "==" and re.search("[<>!]==", around):
                    continue
                if a == "|=" and "=" in body[p + 2:p + 3]:
                    continue
                yield i, body[:p] + b + body[p + len(a):] + l[len(body):]
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.\[])", body):
            v = int(m[1], 0)
            for w in (v + 1, v - 1):
                if w >= 0:
                    yield i, body[:m.start()] + (hex(w) if m[1].startswith("0x") else str(w)) + body[m.end():] + l[len(body):]
        s = body.strip()
        ind = body[:len(body) - len(body.lstrip())]
        if path.endswith(".py"):
            if re.match(r"(?!return|def |class |if |for |while |else|elif |try|except|with )[\w.\[\], ]+(\(.*\)|[-+*|^]?= .*)$", s):
                yield i, ind + "pass"
            m = re.match(r"(if|elif|while) (.*):$", s)
            if m:
                yield i, ind + m[1] + " not (" + m[2] + "):"
        else:
            if re.match(r"[\w.\[\]>\-()*, +]+ ?[-+*|^&]?= ?[^=].*;$", s) and not re.match(r"(const|static|uint|int|size_t|fpr|bytes|for|return|bool|address|string|unsigned|let|var)\b", s):
                yield i, ind + ";" if not path.endswith((".sol", ".go")) else ind
            m = re.match(r"(\} else )?if \((.*)\)( \{)?$", s)
            if m and not path.endswith(".go"):
                yield i, ind + (m[1] or "") + "if (!(" + m[2] + "))" + (m[3] or "")


def main():
    out, seed, per, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    want = sys.argv[5:]
    rnd = random.Random(seed)
    jobs = []
    for path, checks in MAP.items():
        if want and not any(w in path for w in want):
            continue
        text = open("/repo/" + path).read().split("\n")
        ms = list(mutants(path, text))
        if path == "geth/contracts.go":
            ms = [m for m in ms if "alcon" in "".join(text[max(0, m[0] - 25):m[0] + 25])]
        rnd.shuffle(ms)
        seen = set()
        for i, l in ms:
            if l != text[i] and (i, l) not in seen and len(seen) < per:
                seen.add((i, l))
                jobs.append((path, checks.split(), i, l))
    rnd.shuffle(jobs)
    done = set()
    if os.path.exists(out):
        for r in open(out):
            d = json.loads(r)
            done.add((d["file"], d["line"], d["new"]))
    lock, trees = threading.Lock(), list(range(workers))
    for w in trees:
        d = "/tmp/camp/w%d" % w
        if not os.path.exists(d):
            subprocess.run(["cp", "-a", "/repo", d], check=True)
        subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD", shell=True, cwd=d, check=True)

    subprocess.run(["git", "-C", "/tmp/camp/w0", "status", "--short"])

    def one(job):
        path, checks, i, new = job
        if (path, i + 1, new.strip()) in done:
            return
        with lock:
            w = trees.pop()
        d = "/tmp/camp/w%d" % w
        text = open(d + "/" + path).read().split("\n")
        old, text[i] = text[i], new
        res, why = "SURVIVED", ""
        with open(d + "/" + path, "w") as f:
            f.write("\n".join(text))
        try:
            for c in checks:
                try:
                    r = subprocess.run(["./run", c, "quick"], cwd=HERE, env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(max(1, 8 // workers)), VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res, why = "timeout " + c, ""
                    break
                if r.returncode:
                    v = re.search(r"VIOLATION.*\n(.*)", r.stdout)
                    res = ("caught " if r.returncode == 1 and v else "error ") + c
                    why = (v[1].strip() if v else (r.stderr or r.stdout)[-200:])[:160]
                    break
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d)
            with lock:
                trees.append(w)
                with open(out, "a") as f:
                    f.write(json.dumps({"file": path, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": res, "why": why}) + "\n")
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, jobs))


main()
