#!/bin/bash
# mkseed.sh NAME PROPERTY "needs" "what it breaks" < demo.py body ; takes the uncommitted diff of the worktree /tmp/seedwt as the patch
set -e
N=$1; S=/verif/seeded/$N; mkdir -p "$S"
git -C /tmp/seedwt diff > "$S/patch.diff"
cp /verif/tools/seedkit/demo.sh /verif/tools/seedkit/lib.py /verif/harness/driver.c /verif/harness/h5all.c "$S/"
cat > "$S/demo.py"
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
chmod +x "$S/demo.sh"
cd /repo && bash "$S/demo.sh" >/tmp/demo.out 2>&1 && echo "unchanged: ok" || { echo "UNCHANGED FAILS"; tail -5 /tmp/demo.out; exit 1; }
cd /tmp/seedwt && bash "$S/demo.sh" >/tmp/demo.out 2>&1 && { echo "CHANGED PASSES"; cat /tmp/demo.out|tail -5; exit 1; } || { echo "changed: fails"; tail -2 /tmp/demo.out; }
