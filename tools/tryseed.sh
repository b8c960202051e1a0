#!/bin/bash
# usage: tryseed.sh id...  : apply each planted bug to a scratch clone and run its property's check there (development helper)
for id in "$@"; do
  wt=/tmp/ts_$id
  rm -rf "$wt"; git clone -q /repo "$wt"
  (cd "$wt" && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  t0=$(date +%s)
  o=$(cd /verif && PYVC_REPO="$wt" timeout 900 python3-vt -m pyvc.check $p quick 2>/dev/null); rc=$?
  echo "$id [$p] rc=$rc $(( $(date +%s)-t0 ))s $(echo "$o" | grep -c ^VIOLATION) violations; $(echo "$o" | grep ^VIOLATION | grep -vc no-failing) with input; $(echo "$o" | grep ^VIOLATION | head -1)"
  rm -rf "$wt"
done
