#!/bin/bash
# seedtest.sh NAME...: applies each planted bug to /repo, builds, runs the stable tests and the check of its property, and reverts
for N in "$@"; do
S=/verif/seeded/$N; [ -f $S/meta.json ] || continue
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || { echo "$N: DOES NOT APPLY"; continue; }
T=notrun
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1; T=$(python3 -c "
import json;d=json.load(open('/tmp/so.json'));print(len(d['passed']),len(d['failed']))"); fi
(cd /verif && VERIF_SEED=1 python3-vt check.py $P --quick >/tmp/sc.log 2>&1); RC=$?
git -C /repo checkout -- .
echo "$N $P tests=[$T] check rc=$RC $(grep -c VIOLATION /tmp/sc.log) $(grep -m1 -v '^C[0-9]\|^   ' /tmp/sc.log | cut -c1-150)"
done
[ -z "$NOTEST" ] && bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
