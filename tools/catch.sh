#!/bin/bash
# catch.sh ID...: runs each planted bug's property check (quick) against its patched copy (see plant.py).
cd "$(dirname "$0")/.."
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open(__import__('glob').glob('seeded*/$id/meta.json')[0]))['property'])")
  mod=$(echo "$prop" | tr C c)
  s=$(date +%s)
  VERIF_REPO=/tmp/plant/$id/repo ./run.sh "$mod" quick > /tmp/plant/$id/check.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/plant/$id/check.log)"
done
