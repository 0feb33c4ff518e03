#!/bin/bash
# seedrun.sh [ID...] : runs the check of each planted bug's property with the bug applied to /repo.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$(date +%s)
  ./check ${CHECK:-$prop} > /tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-t ))s $(grep -m1 '^VIOLATION' /tmp/seedrun.out)"
done
