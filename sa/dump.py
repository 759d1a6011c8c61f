"""dump.py <crate> <entry> [depth]: print a summary (debugging aid)"""
import sys, threading
sys.setrecursionlimit(200000)
threading.stack_size(512 << 20)
import extract
from core import *


def main():
    crate, entry = sys.argv[1:3]
    dep = int(sys.argv[3]) if len(sys.argv) > 3 else 9
    M = Model(extract.extract())
    s = M.S(crate, entry)
    print("COMMIT", showd(s.commit, dep + 3))
    print("RET", show(s.ret, dep))
    for e in s.effects:
        if e.kind in ("read", "ttl", "view") and "-a" not in sys.argv:
            continue
        if not sat(e.guard):
            continue
        g = assume_guard(e.guard, s.commit)
        print(e.kind, [show(x, dep) if isinstance(x, Node) else tuple(show(y, dep) for y in x) if isinstance(x, tuple) else x for x in e.data],
              "\n      ", e.loc, "loops", [show(l[1]) for l in e.loops], "G:", showd(g, dep))
    for k, v in s.state.items():
        if type(k) is not int and v.op != "map0":
            print("ST", k, show(v, dep))
    for L in s.loops:
        print("LOOP", L.fn, L.line, "depth", L.depth, "bound", show(L.bound), "exits", L.exits)
        for k in L.steps:
            print("   ", k, "init", show(L.inits[k], 5), "\n        step", show(L.steps[k], dep), "\n        post", show(L.post[k], dep))
    print("unknown", s.unknown)


t = threading.Thread(target=main)
t.start()
t.join()
