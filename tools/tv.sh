#!/bin/bash
# tv.sh corpus name pids...
d=/tmp/tv_$2; mkdir -p $d; cd /verif
bash tools/var.sh $1 $2 $d >/dev/null 2>&1 
N=$2; shift 2
for p in "$@"; do BLEND_REPO=$d/r timeout 800 python3 check.py $p 2>&1 | grep -a "BROKEN\|VIOL\|ok\|held" | cut -c1-220 | head -5; echo "rc $N $p ${PIPESTATUS[0]}"; done
rm -rf $d
