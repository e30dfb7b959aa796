#!/bin/bash
# tryseed.sh ID... : confirms planted bugs in /repo itself (apply, build, tests, demo), runs the check, and undoes the change
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); r="$id ($p):"
  [ -n "$NOCLEAN" ] || { "$d/demo.sh" >/tmp/plant/$id.clean 2>&1; r="$r clean-demo=$?"; }
  git apply "$d/patch.diff" || { echo "$r patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1; then
    "$d/demo.sh" >/tmp/plant/$id.demo 2>&1; r="$r bug-demo=$?"
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/plant/$id.json >/tmp/plant/$id.test 2>&1
    r="$r tests=$(python3 - /tmp/plant/$id.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1])); ok=set(o.get('passed',[]))
print('ok' if b<=ok else 'FAIL:'+','.join(sorted(b-ok))[:150])
P
)"; fi
  else r="$r BUILD FAILED"; fi
  for c in $p $ALSO; do (cd /verif; timeout 900 ./check $c >/tmp/plant/$id.$c.check 2>&1; echo $? >/tmp/plant/rc); r="$r check-$c=$(cat /tmp/plant/rc) $(grep -E '^scenario|^ERROR' /tmp/plant/$id.$c.check | head -1 | cut -c1-80)"; done
  git checkout -q -- .; echo "$r" | tee -a /tmp/plant/results
done
bash /opt/vp/build.sh >/tmp/plant/rebuild 2>&1 || echo "rebuild failed"
