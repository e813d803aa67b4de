#!/bin/bash
# seedcheck.sh <seed-id>...: run the check of a planted change's property on a scratch clone with the change applied
W=/tmp/seedwt2
[ -d $W ] || git clone -q /repo $W
cd $W && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git checkout -q -- . ; git apply /verif/seeded/$s/patch.diff || { echo "$s: no apply"; continue; }
  t0=$(date +%s)
  (cd /verif && KL_REPO=$W timeout 900 python3-vt check.py $p > /tmp/seedcheck_$s.log 2>&1); r=$?
  echo "$s: $p exit=$r $(($(date +%s)-t0))s $(grep -m1 VIOLATION /tmp/seedcheck_$s.log)"
  git checkout -q -- .
done
