#!/bin/bash
# tools/seeds.sh [id...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.." || exit 1
S=$(mktemp -d /tmp/seedsXXXXXX)
for d in ${@:-$(ls seeded)}; do
  cp -a /repo "$S/r"
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  if git -C "$S/r" apply "$PWD/seeded/$d/patch.diff"; then
    SVGIO_ROOT="$S/r" python3 check.py $p --tier quick > "$S/out" 2>&1; rc=$?
    echo "$d $p rc=$rc $(grep -m1 VIOLATION "$S/out")"
  else echo "$d $p DOES NOT APPLY"; fi
  rm -rf "$S/r"
done
rm -rf "$S"
