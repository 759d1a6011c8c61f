#!/bin/sh
# mutbg.sh CORPUS REGEX LOG : run a corpus from a copy of the working tree, in the background
d=/tmp/vc.$$; mkdir -p $d; cp -a /verif/check.py /verif/sa /verif/tools /verif/driver /verif/wasm /verif/known_findings.json $d/; mkdir $d/build $d/evidence; cp -a /verif/build/. $d/build/
cd $d; MREPO=/tmp/mr.$$ python3 tools/mut.py tools/mutants/$1 "$2" > $3 2>&1
rm -rf $d /tmp/mr.$$
