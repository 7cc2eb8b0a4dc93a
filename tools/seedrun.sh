#!/bin/bash
# Runs the quick check of the property of each planted bug against a scratch copy holding the bug.
cd "$(dirname "$0")/.."
for i in "$@"; do
  P=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  W=$(mktemp -d /tmp/seed-XXXX); cp -a /repo/. $W/
  (cd $W && git apply /verif/seeded/$i/patch.diff)
  VT_REPO=$W ./run.sh ${C:-$P} 2>&1 | grep -E "VIOLATION|cases|ERROR|Error" | cut -c1-250 | sed "s/^/$i: /"
  rm -rf "$W"
done
