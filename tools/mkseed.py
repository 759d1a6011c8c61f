#!/usr/bin/env python3
"""mkseed.py ID PROP FILE --needs .. --breaks .. : edits given on stdin as OLD\n=====\nNEW (several separated by #####), demo.rs already there"""
import sys, os, subprocess, json, argparse
a = argparse.ArgumentParser()
a.add_argument("id"); a.add_argument("prop"); a.add_argument("needs"); a.add_argument("breaks")
o = a.parse_args()
d = "/verif/seeded/" + o.id
os.makedirs(d, exist_ok=True)
for blk in sys.stdin.read().split("\n#####\n"):
    head, rest = blk.lstrip("\n").split("\n", 1)
    old, new = rest.split("\n=====\n")
    new = new.rstrip("\n")
    p = "/repo/" + head.strip()
    s = open(p).read()
    assert s.count(old) == 1, (head, s.count(old))
    open(p, "w").write(s.replace(old, new))
df = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(df)
json.dump({"property": o.prop, "needs": o.needs, "what_it_breaks": o.breaks}, open(d + "/meta.json", "w"), indent=1)
t = "zz_demo_" + o.id.replace("-", "_").lower()
open(d + "/demo.sh", "w").write('''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T=/repo/test-suites/tests/%s.rs
trap 'rm -f "$T"' EXIT
cp "$D/demo.rs" "$T"
timeout 280 cargo test --workspace --test %s --locked --offline
''' % (t, t))
print(open(d + "/patch.diff").read()[:1500])
