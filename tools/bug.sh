#!/bin/bash
# tools/bug.sh ID FILE < replacements   (needs seeded/ID/{demo.sh,meta.json}; /repo clean)
# writes seeded/ID/patch.diff, confirms tests + demo, runs the property's quick check, restores /repo
id=$1 file=$2 d=/verif/seeded/$1
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
prop=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
[ -n "$CHECK" ] && prop=$CHECK
if [ -n "$file" ]; then
  /opt/venv/bin/python /verif/tools/fx.py "$file" || { git checkout -q .; exit 1; }
  git diff > $d/patch.diff
  git checkout -q .
fi
t=$(mktemp -d); cp -r $d/* $t/; rm -f $t/patch.diff $t/meta.json
timeout 300 bash $t/demo.sh > $t/out0 2>&1; a=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q .' EXIT
f90=; grep -q '^+++.*f95' $d/patch.diff && f90=1
[ -n "$f90" ] && bash /opt/vp/build.sh > /dev/null 2>&1
timeout 300 bash $t/demo.sh > $t/out1 2>&1; b=$?
echo "demo clean=$a patched=$b"; [ $a = 0 ] || tail -3 $t/out0; tail -2 $t/out1 | cut -c1-300
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $t/o.json > /dev/null 2>&1
python3 - $t/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]; print('TESTS BROKEN' if m else 'tests ok', m[:5])
P
fi
(cd /verif; for p in $prop; do bash run.sh $p ${TIER:-quick} 2>&1 | grep "^--\|states=\|   case" | cut -c1-200 | head -${LINES_MAX:-7}; done)
git checkout -q .
[ -n "$f90" ] && bash /opt/vp/build.sh > /dev/null 2>&1
rm -rf $t; trap - EXIT; git status --short
