#!/bin/bash
# runseeds.sh [id...]: apply each planted change to a scratch copy of /repo and run its property's quick check against the copy.
cd /verif
W=$(mktemp -d /tmp/seedrun_XXXXXX)
cp -a /repo $W/repo; git -C $W/repo checkout -q -- .
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $W/repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  VF_REPO=$W/repo VF_EVIDENCE=$W/ev /opt/venv/bin/python check.py $p quick > $W/out.txt 2>&1; rc=$?
  git -C $W/repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION $W/out.txt) violations; $(grep -c ^INCONCLUSIVE $W/out.txt) inconclusive"
done
rm -rf $W
