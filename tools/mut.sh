#!/bin/bash
# mut.sh CHECK file 'python expr on s' 
cd /tmp/m && git checkout -q -- . && python3 - "$2" "$3" <<'P'
import sys
f=sys.argv[1]; s=open(f).read(); o=s
exec(sys.argv[2])
assert s!=o, 'no change'
open(f,'w').write(s)
P
[ $? = 0 ] || exit 9
for c in $1; do SA_REPO=/tmp/m python3 /verif/check.py $c 2>&1 | tail -${TAIL:-4}; done
