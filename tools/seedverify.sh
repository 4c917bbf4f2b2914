#!/bin/bash
# seedverify.sh ID...: applies each planted bug to /repo, builds, tests, runs its demonstration, undoes it, runs the demonstration again
for id in "$@"; do
  d=/verif/seeded/$id; r=""
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sv.log 2>&1 || r="$r BUILD-FAILED"
  bash /opt/vp/test.sh /tmp/sv.json >/tmp/svt.log 2>&1
  python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/sv.json'));m=[t for t in b['stable'] if t not in o['passed']]
import sys;print('missing',m) if m else None;sys.exit(bool(m))" || r="$r TESTS-FAIL"
  c=$(mktemp -d /tmp/svd.XXXX); cp -r "$d/." "$c"; rm -f "$c/patch.diff" "$c/meta.json"
  (cd /repo && timeout 300 bash "$c/demo.sh" >/tmp/sv-bad.log 2>&1); a=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/tmp/sv.log 2>&1
  (cd /repo && timeout 300 bash "$c/demo.sh" >/tmp/sv-good.log 2>&1); b=$?
  rm -rf "$c"
  [ $a -ne 0 ] || r="$r DEMO-MISSES"; [ $b -eq 0 ] || r="$r DEMO-FAILS-CLEAN"
  echo "$id:${r:- ok} (demo $a with, $b without)"
done
