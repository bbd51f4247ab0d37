#!/bin/bash
# catch_dev.sh [ID...]: run the quick check of each planted bug against a patched copy of /repo (development tool; no check uses it)
here=$(cd "$(dirname "$0")/.." && pwd); cd "$here"
for d in ${@:-$(ls seeded)}; do
  t=$(mktemp -d /tmp/catch_XXXXXX); git -C /repo archive HEAD | tar x -C $t
  (cd $t && git init -q . && git apply "$here/seeded/$d/patch.diff") || { echo "NOAPPLY $d"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  for s in ${SEEDS:-1}; do
    out=$(VERIF_DEV_REPO=$t VERIF_SEED=$s python3 run_check.py $p --tier quick 2>&1); rc=$?
    case $rc in 0) v=MISSED;; 1) v=caught;; *) v="rc=$rc";; esac
    echo "$v $d $p seed=$s $(echo "$out" | grep '^\[' | head -1 | cut -c1-130)"
  done
  rm -rf "$t"
done
