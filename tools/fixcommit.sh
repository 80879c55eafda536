#!/bin/bash
# usage: fixcommit.sh <property> "<subject>" [paths]   builds, tests, commits /repo (those paths), records the fix
set -e
p=$1; s=$2; shift 2
bash /opt/vp/build.sh >/tmp/fc.build 2>&1 || { tail -20 /tmp/fc.build; exit 1; }
bash /opt/vp/test.sh /tmp/fc.json >/tmp/fc.test 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/fc.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(map(str,x))
m=names(b)-names(t)
if m: print("missing from pass:",m)
sys.exit(1 if m else 0)
P
if [ $# -gt 0 ]; then git -C /repo commit -q -m "fix: $s" -- "$@"; else git -C /repo commit -qam "fix: $s"; fi
h=$(git -C /repo log -1 --format=%h)
echo "fixed: property=$p $h $s" >> /verif/known_findings.txt
echo "$h"
