#!/bin/bash
# tools/trybugs.sh [ids...]: run the check of each planted bug's property against a scratch copy with the bug
V=$(cd "$(dirname "$0")/.." && pwd); w=$(mktemp -d /tmp/try-XXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; R=$w/repo
for i in ${@:-$(ls $V/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C $R checkout -q -- . ; git -C $R apply $V/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  DISKPP_REPO=$R python3 $V/check.py $p > $w/log 2>&1; rc=$?; echo "$i $p rc=$rc $(grep -m1 -E 'VIOLATION|ERROR|error' $w/log | cut -c1-160)"; grep -E "^ *\[" $w/log | head -2 | cut -c1-200
done
