#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run the check of its property (quick), undo. Development tool.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for s in ${SEEDS:-1 2 3}; do
    out=$(VERIF_SEED=$s timeout 900 python3 run_check.py "$p" --tier quick 2>&1); rc=$?
    echo "$id $p seed=$s rc=$rc $(echo "$out" | tail -n 1 | grep -o '[0-9.]* s, status.*') $(echo "$out" | grep -m1 '^\[' | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
