#!/bin/bash
# seedtest.sh N ID...: in scratch N, confirm each seeded bug: demo passes clean, patch applies, builds, stable tests pass, demo fails
N=$1; shift; S=/tmp/scr$N; V=$S.vp
bash /verif/tools/scratch.sh $N
for id in "$@"; do
  d=/verif/seeded/$id; x=/tmp/sd$N; rm -rf /tmp/sd$N; mkdir -p $x; cp $d/* $x/; sed -i "s#/repo#$S#g; s#/opt/vp/env#$V/env#g" $x/demo.sh
  (cd $S && git checkout -q -- . && git apply $d/patch.diff) || { echo "$id: PATCH FAILS"; continue; }
  (cd $S; bash $V/build.sh > $V/logs/b.log 2>&1) || { echo "$id: BUILD FAILS"; tail -5 $V/logs/b.log; (cd $S; git checkout -q -- .); continue; }
  (cd $S; bash $x/demo.sh > $V/logs/demo_p.log 2>&1); r1=$?
  (cd $S; bash $V/test.sh $V/out.json > $V/logs/t.log 2>&1)
  t=$(python3 - $V/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def st(x):
    for k in('passed','stable','pass','tests'):
        if k in x: return set(x[k])
    return None
m=sorted(st(b)-st(o))
print("tests-ok" if not m else "TESTS-LOST %d %s"%(len(m),m[:6]))
P
)
  (cd $S && git checkout -q -- . && bash $V/build.sh > $V/logs/b0.log 2>&1); (cd $S; bash $x/demo.sh > $V/logs/demo_c.log 2>&1); r0=$?
  echo "$id: clean demo rc=$r0 patched demo rc=$r1 $t"
  cp $V/logs/demo_p.log $V/logs/demo_p.$id.log; cp $V/logs/demo_c.log $V/logs/demo_c.$id.log
done
