#!/bin/bash
# usage: tryseed.sh ID...   checks planted bugs: builds, tests, demo, check.
root=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
  d=$root/seeded/$id
  prop=$(jq -r .property "$d/meta.json")
  cd /repo || exit 2
  if [ -n "$(git status --porcelain)" ]; then echo "/repo not clean"; exit 2; fi
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: clean build FAILED"
  bash "$d/demo.sh" >/tmp/demo.clean 2>&1; c=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: build FAILED"
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1
    t=$(python3 -c "
import json
r=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing:'+','.join(x for x in b['stable'] if x not in r['passed']) if any(x not in r['passed'] for x in b['stable']) else 'pass')")
  fi
  bash "$d/demo.sh" >/tmp/demo.bug 2>&1; b=$?
  s=$(date +%s)
  (cd "$root" && bash run.sh "$prop" >/tmp/check.$id 2>&1); k=$?
  e=$(date +%s)
  git checkout -q . ; git clean -fdq
  echo "$id prop=$prop tests=$t demo_clean=$c demo_bug=$b check_exit=$k ($((e-s))s) $(grep -c VIOLATION /tmp/check.$id)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
