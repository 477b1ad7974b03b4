#!/bin/bash
# usage: bugtest.sh ID [tests|demo|check|all]: confirm a planted bug in a scratch copy of /repo
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; what=${2:-all}
d=$here/seeded/$id
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/bug_$id.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 3; }
if [ $what = demo ] || [ $what = all ]; then
  (cd /repo && bash "$d/demo.sh" >$w/o 2>&1); a=$?
  [ $a = 0 ] || tail -5 $w/o
  (cd "$w/repo" && bash "$d/demo.sh" >$w/o 2>&1); b=$?
  echo "$id: demo clean=$a patched=$b :: $(tail -1 $w/o)"
fi
if [ $what = tests ] || [ $what = all ]; then
  (. /opt/vp/env.sh; export PYTHONPATH=$w/repo/src; cd "$w/repo"; /opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider -n 8 --timeout=600 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/j.xml" tests >$w/t 2>&1
   python3 /opt/vp/results.py "$w/out.json" "junit:$w/j.xml" >/dev/null 2>&1)
  python3 - "$w/out.json" "$id" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
def names(o):
    for k in ('stable_pass','stable','pass','passed','tests'):
        if isinstance(o,dict) and k in o: return set(o[k])
    return set()
b,p=names(base),names(out)
print(sys.argv[2]+': tests', len(b&p),'of',len(b), 'missing', sorted(b-p)[:3])
P
fi
if [ $what = check ] || [ $what = all ]; then
  VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$w/repo "$here/check.sh" "$prop" quick ${BUG_ARGS} >$w/c 2>&1; rc=$?
  echo "$id: check $prop rc=$rc :: $(grep -E '^(VIOLATION|minimised)' $w/c | head -1 | cut -c1-250) $(tail -1 $w/c | grep -o 'runs=[0-9]*\|wall=.*' | tr '\n' ' ')"
  grep -m2 HARNESS $w/c
fi
