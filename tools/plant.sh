#!/bin/bash
# plant.sh ID: confirm a planted bug. /verif/seeded/ID/{patch.diff,demo.sh,meta.json} exist; works in a scratch copy.
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant.$ID.$$
cp -a /repo $W; cd $W; rm -rf .pytest_cache
export HOME=/root LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC TEST_RUNNING=true
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
timeout 300 bash $S/demo.sh >/tmp/demo.$ID.out 2>&1; r1=$?
/opt/venv/bin/python -m pytest -q -p no:cacheprovider >/tmp/tests.$ID.out 2>&1
t=$(tail -1 /tmp/tests.$ID.out)
git checkout -q -- .
timeout 300 bash $S/demo.sh >/tmp/demo0.$ID.out 2>&1; r0=$?
rm -rf "$W"
echo "$ID: demo unchanged=$r0 patched=$r1 tests: $t"
