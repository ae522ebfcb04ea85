#!/bin/bash
# tools/trybugs.sh [ID...]: run each planted bug's own check against it (applies to /repo and undoes)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  out=$(timeout 890 python3 tools/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d -> rc=$rc $(echo "$out" | grep -E 'failed obligation|^VIOLATION|^OK|CHECK-ERROR' | tr '\n' '|' | cut -c1-400)"
done
