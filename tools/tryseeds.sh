#!/bin/bash
# tryseeds.sh [ID...]: apply each seeded change to /repo, run its property's check, undo it.
cd /verif || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  if ! grep -q "check $p\"" MANIFEST.json; then echo "$s ($p): not claimed"; continue; fi
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  out=$(timeout 900 bash run.sh check "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s ($p): exit $rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -E '^(VIOLATION|failing input)' | cut -c1-220 | tr '\n' ' ')"
  echo "$out" | grep '^failed obligation' | head -3
done
