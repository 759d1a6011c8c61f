"""lay out planted bugs: python3 tools/seeds.py FILE ; FILE defines PRE and S = [(id, prop, needs, breaks, [(path, old, new)], demo body)]"""
import sys, os, subprocess, json, importlib.util
R = "/tmp/scr1"
subprocess.run("cd %s && git fetch -q /repo HEAD && git checkout -q -- . && git reset -q --hard FETCH_HEAD" % R, shell=True, check=True)
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
for id, prop, needs, breaks, edits, demo in m.S:
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    bad = False
    for p, o, n in edits:
        p = os.path.join(R, p); s = open(p).read()
        if s.count(o) < 1:
            print(id, "NO MATCH", o[:60]); bad = True; continue
        open(p, "w").write(s.replace(o, n, 1))
    df = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    if bad: continue
    open(d + "/patch.diff", "w").write(df)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write((m.PRE + demo).lstrip("\n"))
    t = "zz_demo_" + id.replace("-", "_").lower()
    open(d + "/demo.sh", "w").write('''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T=/repo/test-suites/tests/%s.rs
trap 'rm -f "$T"' EXIT
cp "$D/demo.rs" "$T"
timeout 280 cargo test --workspace --test %s --locked --offline
''' % (t, t))
    os.chmod(d + "/demo.sh", 0o755)
