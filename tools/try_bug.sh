#!/bin/bash
# tools/try_bug.sh <seed-id> [tests]: apply the planted change to /repo, run its
# demonstration and the check of its property, undo; prints a summary line.
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/w/demo0.log 2>&1; d0=$?
git apply $D/patch.diff || exit 2
bash $D/demo.sh >/tmp/w/demo1.log 2>&1; d1=$?
VERIF_SEED=1 /verif/bin/check $P quick >/tmp/w/check.log 2>&1; c=$?
t=-
if [ "$2" = tests ]; then
  bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1
  t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
st=set(b.get('stable') or b.get('stable_pass') or b.get('passed') or [])
ps=set(o.get('passed',[]))
print('missing:%d'%len(st-ps), sorted(st-ps)[:3])
PY
)
fi
git checkout -q -- .
echo "$1 $P demo_clean=$d0 demo_bug=$d1 check=$c tests=$t :: $(grep -h 'clause' /tmp/w/check.log | head -3 | cut -c1-90 | tr '\n' '|')"
