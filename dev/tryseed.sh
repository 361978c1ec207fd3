#!/bin/bash
# tryseed.sh ID [nocheck]: applies seeded/ID/patch.diff to /repo, builds, tests, runs the demo and the property's check, reverts
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1
cd /repo; D=/tmp/ts_demo.$id; mkdir -p $D; cp -r $d/. $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh >/tmp/ts_demo0.log 2>&1; echo "$id demo clean: $?"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/ts_test.json >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/ts_test.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('$id tests:',len(o['passed']),'passed',o['failed'])"
bash $D/demo.sh >/tmp/ts_demo1.log 2>&1; echo "$id demo patched: $?"
if [ -z "$2" ]; then cd /verif; for p in $prop $(python3 -c "import json;print(*json.load(open('$d/meta.json')).get('also',[]))"); do [ -f checks/$p.py ] && { VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt checks/$p.py >/tmp/ts_check.$id.$p.log 2>&1; echo "$id check $p: rc=$? $(grep -c ^VIOLATION /tmp/ts_check.$id.$p.log) violations"; }; done; fi
git -C /repo checkout -- .
rm -rf "/tmp/ts_demo.$id"
bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1
