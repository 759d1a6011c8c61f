#!/bin/sh
# mechbg.sh LOG MODE... : mech.py from a copy of the working tree, in the background
d=/tmp/vm.$$; mkdir -p $d; cp -a /verif/check.py /verif/sa /verif/tools /verif/driver /verif/wasm /verif/known_findings.json $d/; mkdir $d/build $d/evidence; cp -a /verif/build/. $d/build/
l=$1; shift; cd $d/tools; MREPO=/tmp/mm.$$ python3 mech.py "$@" > $l 2>&1
rm -rf $d /tmp/mm.$$
