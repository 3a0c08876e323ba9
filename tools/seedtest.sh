#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo: patch applies, builds, stable tests pass, demo 0 before and nonzero after
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt
  cd /tmp/seedwt || exit 1
  bash "$V/seeded/$id/demo.sh" >/tmp/seed.$id.clean.log 2>&1; a=$?
  git apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash "$V/seeded/$id/demo.sh" >/tmp/seed.$id.bug.log 2>&1; b=$?
  # the stable tests, in the copy
  sed "s#/repo#/tmp/seedwt#g" /opt/vp/test.sh > /tmp/seedtest_run.sh
  bash /tmp/seedtest_run.sh /tmp/seed.$id.json >/tmp/seed.$id.test.log 2>&1
  python3 - "$id" "$a" "$b" <<'P'
import json,sys
i,a,b=sys.argv[1:]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: t=json.load(open(f'/tmp/seed.{i}.json'))
except Exception as e: t={'passed':[],'failed':[str(e)]}
miss=base-set(t['passed'])
print(f"{i}: demo clean={a} bug={b} missing tests={len(miss)} {sorted(miss)[:3]} -> {'OK' if a=='0' and b!='0' and not miss else 'BAD'}")
P
done
rm -rf /tmp/seedwt
