#!/bin/bash
# seedtest.sh ID...: confirm planted changes (build, stable tests, demo) and run the property's check.
for id in "$@"; do
  d=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  r="$id[$pid]:"
  if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then r="$r built"; else r="$r BUILD-FAILS"; tail -5 /tmp/seed.build; fi
  t=$(bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1); r="$r tests($t)"
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp $d/* /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  (cd /repo; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo 2>&1); rc=$?
  [ $rc -ne 0 ] && r="$r demo-fails($rc)" || r="$r DEMO-PASSES-WITH-PATCH"
  [ -n "$NOCHECK" ] || { (cd /verif; timeout 900 python3-vt run.py $pid quick) >/tmp/seed.check 2>&1; rc=$?; r="$r check=$rc $(grep VIOLATION /tmp/seed.check)"; }
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1
  (cd /repo; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo2 2>&1) && r="$r demo-ok-clean" || { r="$r DEMO-FAILS-CLEAN"; tail -5 /tmp/seed.demo2; }
  echo "$r"
done
rm -rf /tmp/seeddemo
