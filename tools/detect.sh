#!/bin/bash
# detect.sh ID [PROP...]: applies a planted bug to /repo, runs the checks (default: its own property's), undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$V/seeded/$id/patch.diff" || exit 1
for p in $props; do
  t0=$(date +%s)
  out=$(cd "$V" && python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 -v '^VIOL' | cut -c1-260)"
done
git -C /repo checkout -- .
