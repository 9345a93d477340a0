#!/usr/bin/env python3
"""tools/mkseed.py NAME PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]: writes seeded/NAME/patch.diff and meta.json from edits of /repo HEAD."""
import json, os, subprocess, sys, tempfile, shutil
name, prop, needs, breaks = sys.argv[1:5]
edits = sys.argv[5:]
d = os.path.join("/verif/seeded", name)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed-")
w = os.path.join(t, "r")
subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
for i in range(0, len(edits), 3):
    f, old, new = edits[i:i + 3]
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.rmtree(t)
print(diff)
