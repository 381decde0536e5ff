#!/bin/bash
# runs every registered check: tools/runall.sh [tier]
cd /verif
for p in $(python3 -c 'import json;print(*json.load(open("checks.json")))'); do
  python3 run.py $p --tier ${1:-quick} | grep -v "^    " | cut -c1-220 || true
done
