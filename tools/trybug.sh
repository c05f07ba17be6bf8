#!/bin/bash
# trybug.sh ID [check]: confirm a planted bug in a scratch copy of /repo (build, tests, demo); with "check", also run its check against /repo with the bug applied
id=$1; s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ "$2" != onlycheck ]; then
git -C /repo apply --check $s/patch.diff || { echo "$id APPLY-FAIL"; exit 1; }
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $s/demo.sh >/tmp/demo.$id.clean 2>&1; echo "$id demo clean rc=$?")
git -C /repo apply $s/patch.diff
(bash /opt/vp/build.sh >/tmp/build.$id.log 2>&1 || echo "$id BUILD-FAIL"; bash /opt/vp/test.sh /tmp/t.$id.json >/dev/null 2>&1; python3 - <<P
import json
d=json.load(open('/tmp/t.$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
import itertools
def names(x):
    return x
print("$id tests:", {k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})
P
cd /repo && bash $s/demo.sh >/tmp/demo.$id.bug 2>&1; echo "$id demo bug rc=$?")
else git -C /repo apply $s/patch.diff; fi
if [ -n "$2" ]; then (cd /verif && python3-vt engine/check.py $prop quick > /tmp/chk.$id 2>&1; rc=$?; echo "$id check $prop rc=$rc $(grep -c VIOLATION /tmp/chk.$id)"; head -4 /tmp/chk.$id | cut -c1-250); fi
git -C /repo checkout -- .
[ "$2" != onlycheck ] && bash /opt/vp/build.sh >/dev/null 2>&1
true
