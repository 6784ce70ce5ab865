#!/bin/bash
# Dev helper: tryseed.sh ID [checks...] : demo on clean tree, then with the patch: tests, demo, checks.
id=$1; shift; d=/verif/seeded/$id; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/seed/clean.log 2>&1; echo "clean demo rc=$? (want 0)"
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/seed/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/seed/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));
bl=b if isinstance(b,list) else b.get('stable',b.get('passed',b))
print('tests passed',len(d['passed']),'failed',d['failed'])"
bash $d/demo.sh >/tmp/seed/demo.log 2>&1; echo "patched demo rc=$? (want !=0)"
for c in "$@"; do (cd /verif; timeout 900 python3 run.py $c >/tmp/seed/$c.log 2>&1; echo "$c rc=$?"; grep -a -m3 -E "VIOLATION|case" /tmp/seed/$c.log|cut -c1-300); done
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
