#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "falcon/nistfalcon/src/"
PY = "pythonref/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level, note, state=(), observe=(), na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
             "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                         "mechanism": [dict(name=a, where=b) for a, b in mechanism], "observe_at": list(observe), "hook_needed": None}},
        technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["rec"]["id"]
        if p["na"]:
            na.append({"property": i, "reason": p["na"]})
            continue
        if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            print("no check yet for", i)
            na.append({"property": i, "reason": "check not built yet"})
            continue
        checks.append({"property": i, "quick_cmd": "./run %s quick" % i, "thorough_cmd": "./run %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "./run --selftest", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every check drives the unmodified tree, compiled or imported from /repo's working tree into a scratch directory."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    ids = [p["rec"]["id"] for p in P]
    assert len(set(ids)) == len(ids)


main()
