#!/bin/bash
# plant.sh ID [nocheck] : validate a planted bug; then its check
id=$1; d=/verif/seeded/$id
W=/tmp/pl_$id; rm -rf "$W"; mkdir -p $W; cp -a /repo $W/a; cp -a /repo $W/b
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd $W/b && git apply $d/patch.diff ) || { echo "$id: patch FAILS"; rm -rf "$W"; exit 1; }
mkdir $W/demo; cp $d/* $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
( cd $W/a && timeout 300 bash $W/demo/demo.sh >$W/da 2>&1 ); ra=$?
( cd $W/b && timeout 300 bash $W/demo/demo.sh >$W/db 2>&1 ); rb=$?
echo "$id: demo unchanged=$ra patched=$rb"
[ $ra = 0 ] || tail -5 $W/da; tail -3 $W/db
if [ "$2" != notest ]; then
( cd $W/b && PYTHONPATH=$W/b LD_LIBRARY_PATH=$W/b/test/data PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HOME=/root LANG=C.UTF-8 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=$W/j.xml test > $W/t 2>&1 )
python3 /opt/vp/results.py $W/r.json junit:$W/j.xml >/dev/null
python3 - $W/r.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(r['passed'])
print(sys.argv[2]+': tests lost', sorted(m)[:5])
P
fi
if [ "$2" != nocheck ]; then
t0=$SECONDS
cd /verif && SIM_REPO=$W/b VERIF_SEED=1 ./check $prop > $W/out 2>&1; rc=$?
grep -aE "^VIOLATION" $W/out | head -3; echo "$id: check $prop rc=$rc $((SECONDS-t0))s"
fi
cp $W/out /tmp/pl_last_$id.txt 2>/dev/null
rm -rf "$W"
