#!/bin/bash
# plant.sh VERIFDIR ID...: confirms each planted bug in /repo (built, stable tests, demo with and without) and runs its check from VERIFDIR
v=$1; shift
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo status --porcelain | grep -q . && { echo "$id: /repo is dirty"; exit 1; }
  (cd /repo && bash $s/demo.sh >/tmp/plant.demo0 2>&1); d0=$?
  git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def s(x):
    for k in ('passed','pass','stable','tests','stable_pass'):
        if isinstance(x,dict) and k in x: return set(x[k]) if isinstance(x[k],list) else {a for a,v in x[k].items() if v in('passed','pass',True,'ok')}
print(sorted(s(b)-s(r))[:3])")
  (cd /repo && bash $s/demo.sh >/tmp/plant.demo1 2>&1); d1=$?
  if [ -n "$v" ] && [ "$v" != - ]; then (cd $v && timeout 900 ./check.py $p --tier quick >/tmp/plant.check.$id 2>&1); c=$?; else c=skipped; fi
  git -C /repo checkout -- .
  echo "$id $p: demo-clean=$d0 build=$b lost-tests=$m demo-bug=$d1 check=$c $(grep -h VIOLATION /tmp/plant.check.$id 2>/dev/null | head -1 | cut -c1-150)"
done
