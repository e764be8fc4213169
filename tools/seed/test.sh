#!/bin/bash
# test.sh ID CHECK... : apply, run the tests and the named checks, undo
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/t_$id.json >/tmp/t_$id.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t_$id.json'))
k=b.get('stable') or b.get('passed') or b
P
sed "s#/tmp/t.json#/tmp/t_$id.json#" /tmp/cmp.py > /tmp/cmp_$id.py; python3 /tmp/cmp_$id.py; fi
for c in "$@"; do (cd /verif; timeout 900 ./check $c quick > /tmp/s_$id.$c.out 2>&1; echo "$id $c rc $?"; grep -c VIOLATION /tmp/s_$id.$c.out); done
