#!/bin/sh
# autobg.sh OUT N SEED [PATHRE]: auto.py from a copy of the working tree, in the background
d=/tmp/vauto.$$; mkdir -p $d; cp -a /verif/check.py /verif/sa /verif/tools /verif/driver /verif/wasm /verif/known_findings.json /verif/properties.jsonl $d/; mkdir $d/build $d/evidence; cp -a /verif/build/. $d/build/
cd $d; python3 tools/auto.py "$@" > $1.out 2>&1; rm -rf $d
