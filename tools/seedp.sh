#!/bin/bash
# tools/seedp.sh JOBS ID...: confirm planted bugs and run their checks in copies of /repo, up to 3 at a time (VT_REPO)
J=$1; shift
one() {
  id=$1; d=/verif/seeded/$id; w=/tmp/seedrun/$id
  /bin/rm -rf -- "/tmp/seedrun/$id"; mkdir -p $w; cp -a /repo $w/repo; cp -r $d $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json
  cd $w/repo || exit
  timeout 300 bash $w/demo/demo.sh >$w/out0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; return; }
  PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONINTMAXSTRDIGITS=0 timeout 800 /opt/venv/bin/python -m pytest tests -q --tb=no -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$w/junit.xml >/dev/null 2>&1
  /usr/bin/python3 /opt/vp/results.py $w/o.json junit:$w/junit.xml >/dev/null 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('$w/o.json'))['passed'])
print(len([x for x in b if x not in o]))")
  timeout 300 bash $w/demo/demo.sh >$w/out1 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && VT_REPO=$w/repo timeout 900 python3-vt run.py $p --no-evidence --jobs $J >$w/chk 2>&1); c=$?
  ok=OK; [ "$miss$r0$c" = 001 -a $r1 != 0 ] || ok=LOOK
  echo "$ok $id: missing_stable=$miss demo_clean=$r0 demo_patched=$r1 check($p)=$c $(grep -m1 counterexample $w/chk | cut -c1-160)"
  /bin/rm -rf -- "/tmp/seedrun/$id/repo"
}
export -f one; export J
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
