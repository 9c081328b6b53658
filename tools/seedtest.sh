#!/bin/bash
# seedtest.sh ID...: apply each planted bug to /repo, run its property's quick check, undo
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -m symex.run $p >/tmp/seedtest.out 2>&1; echo "$id $p exit $? $(grep -m1 VIOLATION /tmp/seedtest.out)")
  git -C /repo checkout -q -- .
done
