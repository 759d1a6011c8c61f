#!/usr/bin/env python3
"""mech.py MODE...: the behaviour-preserving rewriting MODE (several: A+B) of tools/refac at every site of every file, then all rules (FILES=regex limits the files, PIDS=regex the rules)"""
from concurrent.futures import ThreadPoolExecutor
import glob, os, re, subprocess, sys, time
import mut
V, S, ENV = mut.V, mut.S, mut.ENV
BIN = "/tmp/refac-target/release/refac"


def main():
    sys.path.insert(0, V + "/sa")
    import core, rules.load
    for mode in sys.argv[1:]:
        mut.fresh()
        done = {}
        for d in ("backstop", "pool", "emitter", "pool-factory"):
            for f in sorted(glob.glob("%s/%s/src/**/*.rs" % (S, d), recursive=True)):
                rel = os.path.relpath(f, S)
                if "test" in rel or not re.search(os.environ.get("FILES", ""), rel):
                    continue
                old = open(f).read()
                for m in mode.split("+"):
                    r = [subprocess.run([BIN, x, f], capture_output=True, text=True) for x in (m, "none")]
                    if any(x.returncode for x in r):
                        print("refac fails on", rel, r[0].stderr[-200:])
                    elif r[0].stdout != r[1].stdout:
                        done[rel] = old
                        open(f, "w").write(r[0].stdout)
        while done:
            r = subprocess.run([sys.executable, V + "/check.py", "setup"], env=ENV, capture_output=True, text=True)
            if not r.returncode:
                break
            bad = {x for x in done if re.search(r"--> \S*%s:" % re.escape(x), r.stdout + r.stderr)}
            if not bad:
                print("DOES NOT BUILD", mode, (r.stdout + r.stderr)[-1500:])
                done = {}
                break
            for x in bad:
                open(os.path.join(S, x), "w").write(done.pop(x))
            print("  %s: not for %s" % (mode, " ".join(sorted(bad))), re.findall(r"error.*", r.stdout + r.stderr)[:3])
        if not done:
            continue
        crates = {f.split(os.sep)[0].replace("-", "_") for f in done}
        ps = [p for p in sorted(core.PROPS) if crates & set(core.PROPS[p][1]) and re.search(os.environ.get("PIDS", ""), p)]
        t0 = time.time()
        ex = ThreadPoolExecutor(int(os.environ.get("JOBS", "7")))
        hit, detail = [], []
        for p, pr in [(p, ex.submit(subprocess.run, [sys.executable, V + "/check.py", p], env=ENV, capture_output=True, text=True)) for p in ps]:
            pr = pr.result()
            if pr.returncode:
                hit.append("%s%s" % (p, "" if pr.returncode == 1 else "(rc %d)" % pr.returncode))
                detail += [p + " " + l for l in (pr.stdout + pr.stderr).splitlines() if l.startswith("BROKEN")][:2]
        print("%s %4ds %s (%d files) %s" % ("ALARM" if hit else "ok   ", time.time() - t0, mode, len(done), "=> " + " ".join(hit) if hit else ""))
        for d in detail[:14]:
            print("       ", d[:230])
        sys.stdout.flush()


main()
