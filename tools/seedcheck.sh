#!/bin/bash
# seedcheck.sh ID... : runs the check of each planted change's property against a patched copy.
for id in "$@"; do
  S=/verif/seeded/$id; D=/tmp/seedc/$id; rm -rf "$D"; mkdir -p $D; git -C /repo archive HEAD | tar -x -C $D
  (cd $D && git init -q . && git apply --whitespace=nowarn $S/patch.diff) || { echo "$id NOAPPLY"; continue; }
  P=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  s=$(date +%s); VERIF_REPO=$D VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} python3 /verif/run.py $P > $D.log 2>&1; rc=$?
  echo "$id $P exit=$rc $(grep -c VIOLATION $D.log) violations $(( $(date +%s) - s )) s: $(grep -m1 '^  ' $D.log | cut -c1-160)"
  rm -rf "$D"
done
