"""across all contracts: integer arithmetic is exact or the call fails"""
from core import *
from spec import *
from rules.r_pool import *
from terms import int_range
import terms

LOSSY = {"narrow", "saturating_add", "saturating_mul", "saturating_pow", "satsub", "wrapping_add", "wrapping_sub", "wrapping_mul",
         "wrapping_div", "wrapping_neg", "wrapping_pow", "bitnot"}
# MIR operations that wrap silently (the checked form is followed by an overflow assertion)
BARE = {"Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}
FLOAT = ("FloatToInt", "IntToFloat", "FloatToFloat")



def lossy_in(x, seen):
    """the lossy operations a value depends on; a saturated product or sum may still be compared"""
    out = []
    stack = [(x, False)]
    while stack:
        x, cmp_ = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend((y, cmp_) for y in x)
        elif isinstance(x, dict):
            stack.extend((y, cmp_) for y in x.values())
        elif isinstance(x, (terms.D, Node)):
            k = (id(x), cmp_)
            if k in seen:
                continue
            seen[k] = x
            if type(x) is terms.D:
                stack.extend(((terms._vars[x.v], True), (x.h, cmp_), (x.l, cmp_)))
            else:
                if x.op in LOSSY and not (cmp_ and x.op in ("saturating_mul", "saturating_add")):
                    out.append(x)
                stack.extend((y, cmp_) for y in x.args)
    return out


def scan(c, s, where):
    seen = {}
    for e in s.effects:
        for x in lossy_in((band(s.commit, e.guard), e.data), seen)[:1]:
            c.fail("exact", e, "%s depends on a result that may have lost its high digits or been clamped: %s" % (where, txt(x)), key="exact|%s|%s" % (where, e.kind))
    rest = [s.commit, s.ret] + [(L.steps, L.inits, L.comp, L.bound) for L in s.loops]
    out = lossy_in(rest, seen)
    c.ok(not out, "exact", s, "%s depends on a result that may have lost its high digits or been clamped: %s" % (where, txt(out[0]) if out else ""),
         key="exact|" + where)


@prop("C39", ["emitter", "backstop", "pool", "pool_factory"], opaque_std)
def exact(c):
    for crate in ("emitter", "backstop", "pool", "pool_factory"):
        C = c.M.crate(crate)
        for entry, s in c.all(crate).items():
            scan(c, s, crate + "::" + entry)
        for f in C.fns.values():
            if not f.local:
                continue
            bad = None
            for b in f.blocks:
                for st in b["s"]:
                    if st[0] != "=":
                        continue
                    r = st[2]
                    if r[0] == "bin" and r[1] in BARE:
                        bad = bad or "unchecked %s" % r[1]
                    elif r[0] == "cast" and r[1] in FLOAT:
                        bad = bad or "floating point"
                t = b["t"]
                if t[0] == "call":
                    n = t[1].get("def", "")
                    if n.startswith("core::num") and n.split("::")[-1].startswith(("wrapping_", "overflowing_", "unchecked_", "unchecked")):
                        bad = bad or n
            c.ok(bad is None, "checked", "%s (%s:%s)" % (f.name, f.file, f.line), "arithmetic that does not fail on overflow: %s" % bad, key="checked|" + f.name)
    for k in opaque_std(c.M, "pool"):
        f = c.M.crate("pool").fns[k]
        scan(c, standalone(c, f), f.name)
