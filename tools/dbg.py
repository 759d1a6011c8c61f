"""dbg.py PID [ONLYRULE-SUBSTR]: print a witness for each failing comparison (big subterms are named)"""
import sys, os, threading
sys.path.insert(0, "/verif/sa"); sys.dont_write_bytecode = True
sys.setrecursionlimit(200000); threading.stack_size(512 << 20)
import core, spec, extract, terms
from terms import *
names = {}
def nm(n):
    p = {"keyat": "K", "fold": "F", "mu": "M", "ret": "R", "did": "D"}[n.op]
    k = id(n)
    if k not in names:
        names[k] = (N("arg", "%s%d" % (p, len(names)), ty=n.ty), n)
    return names[k][0]
class Nm(Rewriter):
    def leaf(self, n):
        if n.op in ("fold", "mu", "ret", "keyat"): return nm(n)
        return None
orig = core.same
def same(a, b, care=1, *fu):
    r = orig(a, b, care, *fu)
    if not r:
        Z = Nm()
        a, b = assume(a, care), assume(b, care)
        try:
            bad = band(care, bnot(eq(a, b)))
        except Exception as ex:
            print("eq raised", ex); return r
        cube = 1
        f = band(bad, axioms(dvars(bad))) if type(bad) is D else bad
        while type(f) is D:
            l = mkD(f.v, 1, 0)
            if not (type(f.h) is int and f.h == 0): cube = band(cube, l); f = f.h
            else: cube = band(cube, bnot(l)); f = f.l
        print("---- differ:"); print("  A", show(Z(assume(a, cube)), 12)[:1200]); print("  B", show(Z(assume(b, cube)), 12)[:1200])
        cube=Z.guard(cube)
        for x in witness(cube): print("     ", x[:200])
    return r
core.same = same; spec.same = same
def main():
    import rules.load
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("rules.r_"): m.same = same
    fn, cr = core.PROPS[sys.argv[1]]
    c = core.Ctx(sys.argv[1], core.Model(extract.extract()))
    for x in cr: c.M.crate(x)
    c.M.opaque = fn.opaque
    try: fn(c)
    except core.Stop: pass
    print(len(c.bad), "broken")
    for b in c.bad[:20]: print("   ", b["rule"], b["at"][:100])
t = threading.Thread(target=main); t.start(); t.join()
