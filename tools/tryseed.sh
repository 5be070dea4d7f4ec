#!/bin/bash
# tryseed.sh ID... : apply each planted change to /repo, build, test, demo, run its property's check, undo
cd /verif
for id in "$@"; do
 d=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $d/demo.sh >/tmp/demo0.$id 2>&1); c=$?
 git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 if [ -z "$FAST" ]; then bash /opt/vp/test.sh /tmp/o.$id.json >/tmp/t.$id 2>&1; T=$(python3 -c "
import json; o=json.load(open('/tmp/o.$id.json')); b=json.load(open('/opt/vp/BASELINE.json')); s=b.get('stable') or b.get('passed') or b
p=set(map(str,o['passed'])); print('tests', len(p), 'missing', [x for x in map(str, s if isinstance(s,list) else []) if x not in p][:3])"); else bash /opt/vp/build.sh >/tmp/t.$id 2>&1 || T=BUILDFAIL; fi
 (cd /repo && bash $d/demo.sh >/tmp/demo1.$id 2>&1); e=$?
 timeout 900 python3 vp.py check $P > /tmp/chk.$id 2>&1; r=$?
 git -C /repo checkout -q -- .
 echo "$id $P: demo clean=$c patched=$e check=$r $T $(grep -a VIOLATION /tmp/chk.$id | head -2 | tr '\n' ' ')"
done
bash /opt/vp/build.sh >/dev/null 2>&1
