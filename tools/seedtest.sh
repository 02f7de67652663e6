#!/bin/bash
# seedtest.sh ID [check...]: confirm one planted change (applied to /repo and undone), then run checks against it.
# Development tool; no check uses it.
id=$1; shift; s=/verif/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
if [ -z "$NOCONFIRM" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1; bash $s/demo.sh >/tmp/seed.$id.a 2>&1; a=$?
  git apply $s/patch.diff || exit 2
  bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || echo "$id BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
def ok(d):
    if isinstance(d,dict):
        for k in ('passed','pass','stable','tests'):
            if k in d and isinstance(d[k],list): return set(map(str,d[k]))
        return {k for k,v in d.items() if v in ('pass','passed',True,'ok')}
    return set(d)
m=ok(b)-ok(r); print(len(m),sorted(m)[:4])
P
)
  bash $s/demo.sh >/tmp/seed.$id.b 2>&1; b=$?
  echo "$id: demo clean=$a patched=$b ($(tail -1 /tmp/seed.$id.b)) missing stable tests: $t"
else git apply $s/patch.diff || exit 2; fi
for c in ${@:-$prop}; do
  [ $c = none ] && break
  t0=$(date +%s); o=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $c 2>&1); rc=$?; t1=$(date +%s)
  echo "$id: $c rc=$rc $((t1-t0))s $(echo "$o" | grep -B1 VIOLATION | tr '\n' ' ' | cut -c1-260) $(echo "$o" | grep ERROR | cut -c1-300)"
done
