"""tim.py PID [SECONDS]: time of every obligation; stack dump when one takes longer than SECONDS"""
import sys, os, threading, time, faulthandler
sys.path.insert(0, "/verif/sa"); sys.dont_write_bytecode = True
sys.setrecursionlimit(200000); threading.stack_size(512 << 20)
import core, extract
lim = float(sys.argv[2]) if len(sys.argv) > 2 else 20
def main():
    import rules.load
    fn, cr = core.PROPS[sys.argv[1]]
    c = core.Ctx(sys.argv[1], core.Model(extract.extract()))
    last = [time.time()]
    ok = c.ok
    def ok2(cond, rule, where, msg, key=None):
        t = time.time()
        print("%6.2f %-5s %-14s %s" % (t - last[0], bool(cond), rule, msg[:150]), flush=True)
        last[0] = t
        faulthandler.dump_traceback_later(lim, exit=True)
        return ok(cond, rule, where, msg, key)
    c.ok = ok2
    for x in cr: c.M.crate(x)
    c.M.opaque = fn.opaque
    try: fn(c)
    except core.Stop: pass
    faulthandler.cancel_dump_traceback_later()
t = threading.Thread(target=main); t.start(); t.join()
