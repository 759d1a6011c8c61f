#!/usr/bin/env python3
"""batch.py SIZE REGEX FILE...: behaviour-preserving edits of the corpora, several at once (an alarm names the group; split it by hand)"""
from concurrent.futures import ThreadPoolExecutor
import importlib.util, os, subprocess, sys, re, time, random
import mut
V, S, ENV = mut.V, mut.S, mut.ENV


def apply(edits):
    """all or nothing"""
    new = {}
    for f, old, n in edits:
        p = os.path.join(S, f)
        s = new.get(p, open(p).read() if os.path.exists(p) else None)
        if old is None:
            if s is not None:
                return False
            new[p] = n
            continue
        if s is None or s.count(old) != 1:
            return False
        new[p] = s.replace(old, n, 1)
    for p, s in new.items():
        open(p, "w").write(s)
    return True


def main():
    k, flt = int(sys.argv[1]), sys.argv[2]
    todo = []
    for f in sys.argv[3:]:
        sys.path.insert(0, os.path.dirname(os.path.abspath(f)))
        spec = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo += [(t[0], t[2] if isinstance(t[2], list) else [t[2:5]]) for t in m.M if t[1] == "quiet" and re.search(flt, t[0])]
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(todo)
    sys.path.insert(0, V + "/sa")
    import core, rules.load
    while todo:
        mut.fresh()
        grp, rest = [], []
        for t in todo:
            if len(grp) >= k or not apply(t[1]):
                rest.append(t)
                continue
            if subprocess.run([sys.executable, V + "/check.py", "setup"], env=ENV, capture_output=True).returncode:
                # does not go together with the rest of the group
                mut.fresh()
                for g in grp:
                    apply(g[1])
                if grp:
                    rest.append(t)
                else:
                    print("DOES NOT BUILD", t[0])
                continue
            grp.append(t)
        if len(rest) == len(todo):
            print("STUCK", [t[0] for t in rest])
            return
        todo = rest
        crates = {os.path.normpath(f).split(os.sep)[0].replace("-", "_") for _, es in grp for f, _, _ in es}
        ps = [p for p in sorted(core.PROPS) if crates & set(core.PROPS[p][1])]
        t0 = time.time()
        ex = ThreadPoolExecutor(int(os.environ.get("JOBS", "7")))
        hit, detail = [], []
        for p, pr in [(p, ex.submit(subprocess.run, [sys.executable, V + "/check.py", p], env=ENV, capture_output=True, text=True)) for p in ps]:
            pr = pr.result()
            if pr.returncode:
                hit.append("%s%s" % (p, "" if pr.returncode == 1 else "(rc %d)" % pr.returncode))
                detail += [p + " " + l for l in (pr.stdout + pr.stderr).splitlines() if l.startswith("BROKEN")][:2]
        print("%s %4ds %s %s" % ("ALARM" if hit else "ok   ", time.time() - t0, " ".join(g[0] for g in grp), "=> " + " ".join(hit) if hit else ""))
        for d in detail[:14]:
            print("       ", d[:230])
        sys.stdout.flush()


main()
