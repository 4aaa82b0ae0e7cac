#!/bin/bash
# Confirms a planted change: applies, builds, stable tests pass, demo fails with it and passes without it.
id=$1; d=/verif/seeded/$id; w=/tmp/bug-$id
[ "${2:-}" = quick ] || true
( cd /repo && bash $d/demo.sh >/tmp/demo-$id.clean 2>&1 ) || { echo "$id: demo FAILS on the unchanged tree"; tail -3 /tmp/demo-$id.clean; exit 1; }
exec 9>/tmp/bug.lock; flock 9
git -C /repo apply --check $d/patch.diff || { echo "$id: does not apply"; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/bug-build.log 2>&1 || { echo "$id: build fails"; tail -5 /tmp/bug-build.log; exit 1; }
if ( cd /repo && bash $d/demo.sh >/tmp/demo-$id.bug 2>&1 ); then echo "$id: demo PASSES with the patch"; exit 1; fi
if [ "${2:-}" != notest ]; then bash /opt/vp/test.sh /tmp/bug-tests.json > /tmp/bug-tests.log 2>&1; python3 - <<'PY'
import json
d=json.load(open('/tmp/bug-tests.json')); 
f=d.get('failed'); print('   tests: passed',len(d['passed']) if isinstance(d['passed'],list) else d['passed'],'failed',(f if not isinstance(f,list) else f[:5]))
PY
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 node harness/run.mjs $p --tier quick >/tmp/bug-check.log 2>&1 ); rc=$?
echo "$id: property $p check rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/bug-check.log) violation line(s)"; grep '^#' /tmp/bug-check.log | head -2 | cut -c1-300
