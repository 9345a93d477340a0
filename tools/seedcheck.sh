#!/bin/bash
# seedcheck.sh NAME [CHECK...]: demo on clean tree, then with the patch, then the named checks (default: the seed's own property) with the patch; undone afterwards
n=$1; shift; d=/verif/seeded/$n
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
c=("$@"); [ ${#c[@]} = 0 ] && c=($(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"))
t=$(mktemp -d /tmp/seed-XXXXXX); cp -r $d/. $t; rm -f $t/patch.diff $t/meta.json
(cd /repo && bash $t/demo.sh >$t/o1 2>&1); echo "demo clean rc=$?"
git -C /repo apply $d/patch.diff || exit 2
(cd /repo && bash $t/demo.sh >$t/o2 2>&1); echo "demo patched rc=$?"; tail -2 $t/o2
for i in "${c[@]}"; do (cd /verif && timeout 900 ./run $i quick >$t/c 2>&1; echo "check $i rc=$? $(grep -c ^VIOLATION $t/c)"; grep -A1 ^VIOLATION $t/c | head -2); done
git -C /repo checkout -- . ; git -C /repo clean -fdq; rm -rf "$t"
