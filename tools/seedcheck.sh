#!/bin/bash
# Run the check of the property of each planted bug against a copy with the bug: tools/seedcheck.sh ID...
for i in "$@"; do
  W=/tmp/seedcheck; rm -rf /tmp/seedcheck; git clone -q /repo $W; git -C $W apply /verif/seeded/$i/patch.diff || continue
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$W VERIF_SEED=${SEED:-1} timeout 900 python3 /verif/run.py $P --tier quick > /tmp/seedcheck.log 2>&1; r=$?
  echo "$i $P rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedcheck.log | cut -c1-150)"
done
rm -rf /tmp/seedcheck
