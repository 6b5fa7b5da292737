#!/bin/bash
# tools/tryseed.sh ID [test]: demo on the clean and the patched tree, the tests, and the check
d=/verif/seeded/$1; w=/tmp/seed-$1
rm -rf "/tmp/seed-$1"; mkdir -p $w; cp -a /repo/. $w/
cd $w; bash $d/demo.sh >$w/.clean 2>&1; c=$?
git -C $w apply $d/patch.diff || { echo "$1 does not apply"; exit 1; }
bash $d/demo.sh > $w/.out 2>&1; p=$?
t=skipped
if [ "$2" = test ]; then t=$(JAX_PLATFORMS=cpu PYTHONPATH=$w/src /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider $w/tests 2>&1 | tail -1); fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$(date +%s); cd /verif; out=$(SMOLGP_SRC=$w/src timeout 900 /opt/venv/bin/python run.py $prop 2>&1); rc=$?
echo "== $1 $prop clean=$c patched=$p check=$rc $(( $(date +%s)-s ))s tests: $t"
echo "$out" | grep -E "obligation |VIOLATION" | head -3
[ $c = 0 ] || tail -3 $w/.clean; [ $p = 0 ] && echo "DEMO DOES NOT FAIL"
rm -rf "/tmp/seed-$1"
