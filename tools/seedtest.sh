#!/bin/bash
# seedtest.sh ID...: validates planted bugs (build, stable tests, demo) and
# runs the property's check against each.  Uses /repo itself; undoes the patch.
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /repo; git checkout -q -- .
  if [ -z "$SKIP_CLEAN" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/seed.clean.log 2>&1; c=$?; else c=skip; fi
  git apply $S/patch.diff || { echo "$id APPLY FAILED"; continue; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
want=set(b.get('stable') or b.get('passed') or b.get('pass') or b)
got=set(r.get('passed') or r.get('pass') or [])
print('ok' if want<=got else 'MISSING %s'%sorted(want-got)[:3])
P
)
  bash $S/demo.sh >/tmp/seed.mut.log 2>&1; m=$?
  if [ -z "$SKIP_CHECK" ]; then (cd /verif && python3 bin/check.py $prop quick >/tmp/seed.chk.log 2>&1); k=$?; else k=skip; fi
  git checkout -q -- .
  echo "$id prop=$prop demo_clean=$c tests=$t demo_mut=$m check=$k $(grep -m1 'first:' /tmp/seed.chk.log | cut -c1-200)"
done
