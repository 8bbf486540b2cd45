#!/bin/bash
# tools/seedtest.sh ID [nocheck]: confirms a planted bug in /repo (applied, then undone): it builds, the stable
# tests pass, the demo fails with it and passes without, and the property's check reports it.
id=$1; d=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh > /tmp/seed.log 2>&1 || { echo "$id: does not build"; tail -20 /tmp/seed.log; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1
python3 - "$id" <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.json'))
p=set(r.get('passed',[])); print(sys.argv[1],'tests lost:',sorted(b-p) or 'none')
PY
timeout 300 bash "$d/demo.sh" > /tmp/seed.out 2>&1; echo "$id demo with patch: rc $? (want nonzero)"; tail -3 /tmp/seed.out
fi
if [ "$2" != nocheck ]; then cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $P quick > /tmp/seed.chk 2>&1; echo "$id check $P rc $?"; grep -v "^  undec" /tmp/seed.chk | cut -c1-220| head -${3:-8}; fi
git -C /repo checkout -q -- .
if [ "$2" != checkonly ]; then
bash /opt/vp/build.sh > /tmp/seed.log 2>&1
cd /repo; timeout 300 bash "$d/demo.sh" > /tmp/seed.out 2>&1; echo "$id demo without patch: rc $? (want 0)"; tail -3 /tmp/seed.out
fi
