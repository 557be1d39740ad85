#!/bin/bash
# plantcheck.sh ID..: demo on both trees and the check on the changed one (dev tool)
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo dirty; exit 1; }
  bash $d/demo.sh >/tmp/plant.0 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $d/demo.sh >/tmp/plant.1 2>&1; b=$?
  out=$(cd /verif; timeout 900 ./check.sh $prop 2>&1); c=$?
  t=skip
  if [ -n "$TESTS" ]; then bash /opt/vp/build.sh >/tmp/plant.b 2>&1; bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.t 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/plant.json'))['passed'];print('ok' if set(b)<=set(p) else 'FAIL')"); fi
  git checkout -q -- .
  echo "$id ($prop): demo clean=$a bug=$b check=$c tests=$t | $(echo "$out" | grep -E 'scenario|VIOL|held' | head -2 | tr '\n' ' ' | cut -c1-260)"
done
