#!/bin/bash
# tools/seed.sh ID [nocheck]: validate seeded/ID against /repo (apply, build, tests, demo), then run its property's check; undo.
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/w/demo.$id.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -3 /tmp/w/demo.$id.log; }
git apply $d/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
want=b.get('passed') or b.get('stable') or b
miss=[x for x in want if x not in t['passed']]
print('tests:', 'all pass' if not miss else 'FAIL %s'%miss)
P
bash $d/demo.sh >/tmp/w/demo.$id.log 2>&1 && echo "demo patched: NOT DETECTED" || echo "demo patched: fails as it should ($(tail -1 /tmp/w/demo.$id.log))"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != nocheck ]; then (cd /verif && python3 check.py $p quick | tail -4); fi
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
