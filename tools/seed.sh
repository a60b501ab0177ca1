#!/bin/bash
# usage: tools/seed.sh <seed id> <property> [check filter]: takes the edits in the scratch copy /tmp/w as the seed's patch,
# runs the seed's demo on /repo and on the copy, runs the check on the copy, and restores the copy
id=$1; prop=$2
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ] || git -C /tmp/w apply $d/patch.saved
echo "== demo on /repo"; (cd /repo && timeout 300 bash $d/demo.sh); echo "rc $?"
echo "== demo on patched"; (cd /tmp/w && timeout 300 bash $d/demo.sh); echo "rc $?"
if [ -n "$prop" ]; then echo "== check"; (cd /verif && OMG_REPO=/tmp/w timeout 900 bin/check $prop quick $3 2>&1 | grep -E "^VIOLATION|quick:|ERROR|INCONC|KNOWN" | cut -c1-250| tail -12); fi
git -C /tmp/w checkout -q -- .
git -C /repo apply --check $d/patch.diff && echo applies
