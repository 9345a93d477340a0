import importlib, json, os, re, sys, traceback
from . import core, pyref


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    rest = argv[1:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest[0]
        rest = rest[1:]
    if rest and rest[0] == "--replay":
        rec = json.load(open(rest[1]))
        only = {rec["section"]}
        tier = rec.get("tier", tier)
        print("replaying", rec["key"], "-", rec["what"])
    elif rest and rest[0] == "--only":
        only = set(rest[1].split(","))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, core.ROOT)
    mod = importlib.import_module("checks." + pid.lower())
    run = core.Run(pid, mod.LEVEL, tier, seed, only)
    try:
        mod.main(run)
    except (pyref.LoadFailed, core.Stop):
        pass
    except core.HarnessError as e:
        print("harness error:", e)
        if run.nviol == 0:
            import shutil
            shutil.rmtree(run.tmp, ignore_errors=True)
            return 2
    except Exception as e:
        traceback.print_exc()
        if core.from_repo(e):
            run.fail("raised:%s" % type(e).__name__, "the code under test raised: %r" % e)
        elif run.nviol == 0:
            import shutil
            shutil.rmtree(run.tmp, ignore_errors=True)
            return 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
