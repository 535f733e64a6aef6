#!/bin/bash
# seedtest.sh ID...: plants each seeded bug in /repo, confirms that it builds, keeps the stable tests
# passing and breaks its demo, runs the property's check, and undoes it. (Development tool.)
V=/verif
for id in "$@"; do
  D=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  T=$(mktemp -d /tmp/seedXXXX); cp -a $D/. $T/; rm -f $T/*.diff $T/meta.json
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1
  (cd /repo && timeout 300 bash $T/demo.sh >$T/out0 2>&1); r0=$?
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seedt.log 2>&1
  m=$(python3 -c "import json;print(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/seed.json'))['passed']))")
  (cd /repo && timeout 300 bash $T/demo.sh >$T/out1 2>&1); r1=$?
  t0=$(date +%s)
  if [ "${NOCHECK:-}" = "" ]; then (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $P quick) >$T/chk 2>&1; rc=$?; else rc=skipped; fi
  t1=$(date +%s)
  git -C /repo checkout -- .
  v=$(grep -m1 "^VIOLATION property=$P" $T/chk 2>/dev/null)
  ok=CAUGHT; [ -n "$v" ] && [ "$rc" = 1 ] || ok=MISSED
  valid=valid; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$m" = "set()" ] || valid="INVALID(demo clean=$r0 patched=$r1 missing=$m)"
  echo "$id $valid $ok rc=$rc $((t1-t0))s $(grep -m1 '^  \[' $T/chk | cut -c1-150)"
  [ "$valid" = valid ] || { echo "--- clean:"; tail -3 $T/out0; echo "--- patched:"; tail -3 $T/out1; }
  rm -rf "$T"
done
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
