#!/bin/bash
# try.sh ID...: in a scratch copy of /repo: build, stable tests, demo with and
# without the patch; then the property's check against /repo with the patch
# (applied and undone).
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  if [ -z "$NODEMO" ]; then
  (cd /repo && timeout 300 bash $d/demo.sh) >/tmp/try.$id.0 2>&1; c=$?
  fi
  git -C /repo apply $d/patch.diff || exit 1
  if [ -z "$NODEMO" ]; then
  (cd /repo && timeout 300 bash $d/demo.sh) >/tmp/try.$id.1 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/try.$id.json >/tmp/try.$id.t 2>&1
  t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/try.$id.json'))
def names(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v)
w=names(base,'stable') or names(base,'passed') or names(base,'tests')
print('tests-ok' if w and w<=names(r,'passed') else 'TESTS-FAIL %s' % sorted(w-names(r,'passed'))[:3])
P
)
  fi
  s=$(date +%s)
  (cd /verif && timeout 900 python3 bin/check ${CHECK:-$prop} ${TIER:-quick}) >/tmp/try.$id.c 2>&1; k=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id demo-clean=$c demo-bug=$b $t check=${CHECK:-$prop}:$k ($((e-s)) s) $(grep -h '^VIOLATION\|no answer' /tmp/try.$id.c | head -1)"
done
