#!/bin/bash
# try.sh ID...: runs the check of each planted bug's property against /repo with the bug applied, then undoes it
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} timeout 900 ./check $p ${TIER:-quick} >/tmp/try.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id: exit=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try.log)"
done
