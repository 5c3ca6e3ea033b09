#!/bin/bash
# seedrun.sh ID...: does the property's check notice the planted change? Works on a copy of SEED_REPO
R=${SEED_REPO:-/repo}; V=${SEED_VERIF:-/verif}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  C=/tmp/seedrun-$$-$id
  git clone -q $R $C || continue
  git -C $C apply $V/seeded/$id/patch.diff || { echo "$id noapply"; rm -rf "$C"; continue; }
  out=$(cd $V && VERIF_REPO=$C timeout 900 python3 bin/check.py $p 2>&1); rc=$?
  rm -rf "$C"
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p "; then echo "$id $p caught"; echo "$out" | tail -5; else echo "$id $p MISSED rc=$rc"; echo "$out" | tail -4; fi
done
