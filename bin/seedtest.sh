#!/bin/bash
# seedtest.sh ID [PROP...]: applies seeded/ID in a scratch copy of /repo, confirms build, tests and demo,
# and runs the checks of the named properties (default: the one in meta.json) against that copy.
# NOTEST=1 skips build/tests/demo.
id=$1; shift
d=/verif/seeded/$id
s=/tmp/seedtest.$$
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# -gt 0 ] || set -- $prop
mkdir $s && git -C /repo archive HEAD | tar -x -C $s
(cd $s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x)
git -C $s apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf $s; exit 3; }
for p in "$@"; do
  t0=$(date +%s)
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$s VERIF_EVIDENCE=$s/ev timeout 900 python3 bin/check.py $p 2>&1)
  rc=$?
  echo "$id check $p rc=$rc $(( $(date +%s) - t0 ))s: $(echo "$out" | grep -v '^VIOL' | head -1 | cut -c1-220)"
done
rm -rf $s
