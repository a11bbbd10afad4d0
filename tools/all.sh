#!/bin/sh
# Run every registered check on /repo; one line each.
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 check.py $p $1 >/tmp/all_$p.out 2>&1; echo "$p rc=$? $(grep -m1 configurations /tmp/all_$p.out)"
done
