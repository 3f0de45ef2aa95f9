#!/bin/bash
# Development aid: for each seeded bug: demo on the clean tree, demo and check on the patched tree (tests with -t).
cd /repo || exit 1
for i in "$@"; do
  [ "$i" = -t ] && T=1 && continue
  s=/verif/seeded/$i
  git diff --quiet || { echo dirty; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1; bash $s/demo.sh >/tmp/demo.out 2>&1; a=$?
  git apply $s/patch.diff || { echo "$i does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$i build fails"
  bash $s/demo.sh >/tmp/demo2.out 2>&1; b=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=-
  if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/mut.json >/dev/null 2>&1; t=$(python3 -c "
import json;print(len(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/mut.json'))['passed'])))"); fi
  (cd /verif && VERIF_TIER=quick python3 checks/$(echo $p | tr A-Z a-z).py >/tmp/seedcheck.out 2>&1); c=$?
  git checkout -q -- .
  echo "$i $p clean-demo=$a patched-demo=$b lost-tests=$t check=$c"
done
bash /opt/vp/build.sh >/dev/null 2>&1
