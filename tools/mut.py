#!/usr/bin/env python3
"""mut.py FILE [filter]: run the checks on scratch variants of the sources.
FILE defines M = [(name, 'C04,C05' | 'quiet', path, old, new), ...] (old/new may be lists of (path, old, new))."""
from concurrent.futures import ThreadPoolExecutor
import importlib.util, os, subprocess, sys, shutil, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MREPO", "/tmp/mrepo")
ENV = dict(os.environ, BLEND_REPO=S)


def fresh():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    a = subprocess.Popen(["git", "-C", "/repo", "archive", "HEAD"], stdout=subprocess.PIPE)
    subprocess.run(["tar", "x", "-C", S], stdin=a.stdout)


def main():
    spec = importlib.util.spec_from_file_location("m", sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    fresh()
    sys.path.insert(0, V + "/sa")
    import core, rules.load
    allp = sorted(core.PROPS)
    for t in m.M:
        name, want = t[0], t[1]
        if flt and not re.search(flt, name):
            continue
        edits = t[2] if isinstance(t[2], list) else [t[2:5]]
        saved = {}
        bad = None
        for f, old, new in edits:
            p = os.path.join(S, f)
            if old is None:
                saved.setdefault(p, None)
                open(p, "w").write(new)
                continue
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                bad = "edit does not apply: %s %r" % (f, old[:60])
                break
            open(p, "w").write(s.replace(old, new, 1))
        if bad:
            print(name, bad)
        else:
            r = subprocess.run([sys.executable, V + "/check.py", "setup"], env=ENV, capture_output=True, text=True)
            if r.returncode:
                print(name, "DOES NOT BUILD", r.stderr[-600:])
            else:
                crates = {os.path.normpath(f).split(os.sep)[0].replace("-", "_") for f, _, _ in edits}
                ps = [p for p in allp if crates & set(core.PROPS[p][1])] if want == "quiet" else want.split(",")
                if os.environ.get("ALL"):
                    ps = allp
                hit = []
                detail = []
                t0 = time.time()
                ex = ThreadPoolExecutor(int(os.environ.get("JOBS", "7")))
                for p, pr in [(p, ex.submit(subprocess.run, [sys.executable, V + "/check.py", p], env=ENV, capture_output=True, text=True)) for p in ps]:
                    pr = pr.result()
                    o = pr.stdout + pr.stderr
                    if pr.returncode != 0:
                        hit.append("%s%s" % (p, "" if pr.returncode == 1 else "(rc %d)" % pr.returncode))
                        detail += [l for l in o.splitlines() if l.startswith("BROKEN")][:3]
                ok = (not hit) if want == "quiet" else bool(hit)
                print("%s %-34s %4ds %s" % ("ok  " if ok else "MISS" if want != "quiet" else "ALARM", name, time.time() - t0, " ".join(hit)))
                if not ok or "-v" in sys.argv:
                    for d in detail:
                        print("       ", d[:260])
        sys.stdout.flush()
        for p, s in saved.items():
            if s is None:
                os.unlink(p)
            else:
                open(p, "w").write(s)


if __name__ == "__main__":
    main()
