#!/bin/bash
# all.sh [seed] [extra args]: every check, one line each
cd "$(dirname "$0")/.."
s=${1:-1}; shift
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  t=$SECONDS; ./check.sh $p --seed $s "$@" 2>&1 | cut -c1-300; echo "   $p rc=${PIPESTATUS[0]} $((SECONDS-t))s"
done
