#!/bin/bash
# seedtest.sh ID [noTests]: apply a seeded bug in /repo, run the stable tests and the property's check, undo
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || exit 9
git -C /repo apply $D/patch.diff || exit 8
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$2" ]; then bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('passed') or b.get('stable') or b
r=set(json.load(open('/tmp/st.json'))['passed']); print("missing stable:",[x for x in s if x not in r][:5])
P
( cd /repo && bash $D/demo.sh >/dev/null 2>&1; echo demo=$? ); fi
cd /verif; timeout 900 ./check.py $P > /tmp/seedtest.$1.log 2>&1; echo "$1 $P rc=$? $(tail -1 /tmp/seedtest.$1.log)"
