#!/bin/sh
# var.sh CORPUS NAME DIR: lay out the variant NAME of a corpus in DIR/r and extract it
python3 - "$@" <<'P'
import sys,os,subprocess,shutil,importlib.util
sys.path.insert(0,os.path.dirname(os.path.abspath(sys.argv[1])))
spec=importlib.util.spec_from_file_location("m",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
d=sys.argv[3]+"/r"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
a=subprocess.Popen(["git","-C","/repo","archive","HEAD"],stdout=subprocess.PIPE); subprocess.run(["tar","x","-C",d],stdin=a.stdout)
for t in m.M:
    if t[0]==sys.argv[2]:
        for f,o,n in (t[2] if isinstance(t[2],list) else [t[2:5]]):
            p=os.path.join(d,f)
            if o is None:
                open(p,"w").write(n); continue
            s=open(p).read(); assert o in s; open(p,"w").write(s.replace(o,n,1))
P
BLEND_REPO=$3/r python3 /verif/check.py setup
