#!/bin/bash
# scratch.sh N: (re)create scratch copy /tmp/scrN of /repo with its own build scripts in /tmp/scrN.vp
N=$1; S=/tmp/scr$N
[ -d $S ] || cp -a /repo $S
mkdir -p $S.vp/logs
for f in env.sh build.sh test.sh results.py; do
  sed "s#/repo#$S#g; s#/opt/vp/\(env\|build\|test\|results\|logs\)#$S.vp/\1#g" /opt/vp/$f > $S.vp/$f; done
(cd $S && git checkout -q -- . && git clean -fdq test-suites)
