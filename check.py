#!/usr/bin/env python3
"""check.py <property>|all : decide a property from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
import core, extract


def main(argv):
    pid = argv[0]
    if pid == "setup":
        print(extract.extract(True))
        return 0
    if pid == "all":
        import subprocess
        import rules.load
        extract.extract(True)
        rc = 0
        for p in sorted(core.PROPS):
            r = subprocess.run([sys.executable, __file__, p], capture_output=True, text=True)
            if r.returncode or "-v" in argv:
                print(r.stdout[-3000:] + r.stderr[-2000:])
            else:
                print(r.stdout.strip().splitlines()[-1])
            rc = max(rc, r.returncode)
        return rc
    try:
        return core.run(pid, "-v" in argv)
    except extract.ExtractError as ex:
        print("cannot analyse: %s" % ex, file=sys.stderr)
        return 2


if __name__ == "__main__":
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 2)
