#!/bin/bash
# tools/seed.sh ID [--nocheck]: confirm a planted bug (patch applies, stable tests pass, demo 0/nonzero) and run its check
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork; mkdir -p $w
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
rm -rf "$w/demo"; cp -r "$d" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $w/demo/demo.sh >$w/out0 2>&1; r0=$?
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
bash /opt/vp/test.sh $w/o.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('$w/o.json'))['passed'])
print(len([x for x in b if x not in o]))")
timeout 300 bash $w/demo/demo.sh >$w/out1 2>&1; r1=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
c=-
if [ "$2" != --nocheck ]; then (cd /verif && timeout 900 python3-vt run.py $p --no-evidence >$w/chk 2>&1); c=$?; fi
git checkout -q -- .
echo "$id: build=$b missing_stable=$miss demo_clean=$r0 demo_patched=$r1 check($p)=$c $(grep -m1 counterexample $w/chk 2>/dev/null | cut -c1-200)"
