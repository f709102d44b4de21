#!/bin/bash
# usage: trybugs.sh [id...]: runs the check of each planted bug's property with the bug applied to /repo, then undoes it
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  [ -f seeded/$id/patch.diff ] || continue
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  bash check.sh $prop > /tmp/try.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(grep -c '^NOT ESTABLISHED' /tmp/try.log) obligations, $(grep -c '^FAILING INPUT' /tmp/try.log) inputs; $(grep '^VIOLATION' /tmp/try.log) :: $(grep '^NOT EST' /tmp/try.log | head -1 | cut -c1-150)"
done
