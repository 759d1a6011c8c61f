"""survive.py SCRATCH_N CORPUS...: which breaking edits of a corpus compile and pass the existing tests"""
import importlib.util, json, subprocess, sys
n = sys.argv[1]
S, V = "/tmp/scr" + n, "/tmp/scr%s.vp" % n
subprocess.run(["bash", "/verif/tools/scratch.sh", n], check=True)
base = json.load(open("/opt/vp/BASELINE.json"))


def passed(x):
    return set(next(x[k] for k in ("passed", "stable", "pass", "tests") if k in x))


for cf in sys.argv[2:]:
    spec = importlib.util.spec_from_file_location("m", cf)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for t in m.M:
        if t[1] == "quiet":
            continue
        subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
        ok = True
        for f, o, r in (t[2] if isinstance(t[2], list) else [t[2:5]]):
            s = open(S + "/" + f).read()
            ok = ok and o in s
            open(S + "/" + f, "w").write(s.replace(o, r, 1))
        if not ok:
            print(t[0], "edit does not apply", flush=True)
            continue
        with open(V + "/logs/s.log", "w") as lg:
            r = subprocess.run(["bash", V + "/build.sh"], cwd=S, stdout=lg, stderr=lg)
            if r.returncode:
                print(t[0], "DOES NOT BUILD", flush=True)
                continue
            subprocess.run(["bash", V + "/test.sh", V + "/out.json"], cwd=S, stdout=lg, stderr=lg)
        try:
            lost = passed(base) - passed(json.load(open(V + "/out.json")))
        except Exception as x:
            lost = {repr(x)[:60]}
        print(t[0], t[1], "SURVIVES" if not lost else "lost %d %s" % (len(lost), sorted(lost)[0][:70]), flush=True)
