"""eff.py CRATE ENTRY [DEPTH=3] [WIDTH=220]: short listing of effects and loops"""
import sys,threading,os
sys.path.insert(0,'/verif/sa');sys.dont_write_bytecode=True;sys.setrecursionlimit(200000);threading.stack_size(512<<20)
import core,extract
from terms import *
def main():
    M=core.Model(extract.extract())
    import rules.load, rules.r_pool
    if os.environ.get("OP"): M.crate("pool"); M.opaque=rules.r_pool.opaque_std
    D=int(sys.argv[3]) if len(sys.argv)>3 else 3
    W=int(sys.argv[4]) if len(sys.argv)>4 else 220
    s=M.S(sys.argv[1],sys.argv[2])
    print(len(s.effects),'effects',len(s.loops),'loops; ret',show(s.ret,D)[:W] if isinstance(s.ret,Node) else s.ret)
    print('COMMIT',core.txt(s.commit,D)[:W*2])
    for e in s.effects:
        if e.kind in('read','ttl'):continue
        if not sat(e.guard): continue
        ds=[d if isinstance(d,str) else (show(d,D) if isinstance(d,Node) else [show(x,D)[:80] if isinstance(x,Node) else x for x in d] if isinstance(d,tuple) else str(d)) for d in e.data]
        print(('%-6s L%d %s %s | G %s'%(e.kind,len(e.loops),e.loc,ds,core.txt(assume_guard(e.guard,s.commit),D)[:90]))[:W])
    for L in s.loops:
        print('LOOP',L.depth,'bound',show(L.bound,D)[:120],'iota',L.iota,'exits',L.exits,'comp',core.txt(L.comp,D)[:80], L.fn, getattr(L,'line',''))
        for k in L.steps:
            print(('    %s init %s | step %s'%(k,show(L.inits[k],D)[:90],show(L.steps[k],D)))[:W+60])
t=threading.Thread(target=main);t.start();t.join()
