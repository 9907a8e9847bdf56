#!/bin/bash
# validate.sh ID...: in a scratch copy of /repo (/tmp/pr), checks that a planted bug applies, passes the stable tests,
# and that its demo passes without and fails with it. Prints one line per bug.
SELF=$(cd "$(dirname "$0")/.." && pwd)
[ -d /tmp/pr ] || cp -a /repo /tmp/pr
cd /tmp/pr || exit 1
git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/tmp/pr/target
for id in "$@"; do
  git checkout -q -- .
  d=$SELF/seeded/$id
  bash "$d/demo.sh" >/tmp/pr-demo0.log 2>&1; r0=$?
  if ! git apply "$d/patch.diff"; then echo "$id: does not apply"; continue; fi
  bash "$d/demo.sh" >/tmp/pr-demo1.log 2>&1; r1=$?
  timeout -k 10 840 cargo test --offline --workspace --all-features --no-fail-fast -- --test-threads 8 >/tmp/pr-test.log 2>&1
  res=$(python3 - <<'P'
import re
s=open('/tmp/pr-test.log',errors='replace').read()
print(sum(int(a) for a in re.findall(r'(\d+) passed',s)), sum(int(a) for a in re.findall(r'(\d+) failed;',s)), re.findall(r'^error.*',s,re.M)[:2], re.findall(r'^test (\S+) \.\.\. FAILED',s,re.M)[:4])
P
)
  echo "$id: demo unchanged=$r0 patched=$r1 tests=$res"
  git checkout -q -- .
done
