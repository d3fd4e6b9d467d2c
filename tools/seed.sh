#!/bin/bash
# tools/seed.sh ID [noCheck]: validate a planted bug and run its property's check against it
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "clean BUILD FAIL"
bash $D/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply $D/patch.diff || { echo "$1: patch does not apply"; exit 2; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
t=$(python3 -c "
import json;a=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));
b=b.get('passed') or b.get('stable') or b.get('tests') or b
print(len([x for x in b if x not in a['passed']]))" 2>&1 | tail -1)
bash $D/demo.sh >/tmp/demo1.log 2>&1; d1=$?
c=-; v=
if [ -z "$2" ]; then
 (cd /verif; python3-vt check.py $P >/tmp/seedcheck.log 2>&1); c=$?
 v=$(grep -m1 VIOLATION /tmp/seedcheck.log | cut -c1-150)
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/build.log 2>&1
echo "$1 $P demo-clean=$d0 broken-tests=$t demo-patched=$d1 check=$c $v"
[ -z "$2" ] && python3 - "$1" "$P" "$c" "$v" <<'X'
import json,os,sys
f='/verif/seeded/caught.json'
a=json.load(open(f)) if os.path.exists(f) else {}
i,p,c,v=sys.argv[1:]
a[i]=('check '+p) if c=='1' and v else 'missed'
json.dump(dict(sorted(a.items())),open(f,'w'),indent=1)
X
