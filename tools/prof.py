"""prof.py PID: where the time of a check goes"""
import sys, threading, cProfile, pstats
sys.path.insert(0, "/verif/sa"); sys.dont_write_bytecode = True
sys.setrecursionlimit(200000); threading.stack_size(512 << 20)
import core, extract
def main():
    import rules.load
    fn, cr = core.PROPS[sys.argv[1]]
    c = core.Ctx(sys.argv[1], core.Model(extract.extract()))
    for x in cr: c.M.crate(x)
    c.M.opaque = fn.opaque
    p = cProfile.Profile()
    p.enable()
    try: fn(c)
    except core.Stop: pass
    p.disable()
    pstats.Stats(p).sort_stats("tottime").print_stats(25)
    pstats.Stats(p).sort_stats("cumtime").print_stats(45)
t = threading.Thread(target=main); t.start(); t.join()
