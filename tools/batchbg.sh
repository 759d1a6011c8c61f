#!/bin/sh
# batchbg.sh SIZE REGEX LOG CORPUS... : batch.py from a copy of the working tree, in the background
d=/tmp/vb.$$; mkdir -p $d; cp -a /verif/check.py /verif/sa /verif/tools /verif/driver /verif/wasm /verif/known_findings.json $d/; mkdir $d/build $d/evidence; cp -a /verif/build/. $d/build/
n=$1; x=$2; l=$3; shift 3; cd $d/tools/mutants; MREPO=/tmp/mb.$$ python3 ../batch.py $n "$x" "$@" > $l 2>&1
rm -rf $d /tmp/mb.$$
