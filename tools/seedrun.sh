#!/bin/bash
# apply each planted change to /repo, run the check of its property, undo.  seedrun.sh [id...]
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s); o=$(VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i [$p] rc=$rc $(( $(date +%s) - s ))s: $(echo "$o" | grep -E '^VIOLATION' | head -2 | tr '\n' ' ')"
done
