"""Specification vocabulary shared by the rules: exact-once calls, storage deltas, commit conditions."""
from core import *
import terms

ADDR = "soroban_sdk::Address"


def inst(cls, ty=ADDR):
    """instance-storage value"""
    return sel(N("map0", "I", cls), TT, ty)


def args_of(e):
    return e.data[3]


def mapparts(m):
    """bases and keys of a map value (through stores, deletes and gated choices)"""
    bases, keys, seen, todo = {}, {}, set(), [m]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ("store", "del"):
            keys[x.args[1]] = True
            todo.append(x.args[0])
        elif x.op == "ite":
            todo += [t for t in dterms(x.args[0]) if isinstance(t, Node)]
        else:
            bases[x] = True
    return list(bases), list(keys)


def same_map(a, b, care, ty=None):
    """the two maps agree at every key wherever care holds (pointwise: every key either touches, plus a common base)"""
    if a is b:
        return True
    if not sat(care):
        return True
    if type(care) is D:
        a, b = assume(a, care), assume(b, care)
        if a is b:
            return True
    (ba, ka), (bb, kb) = mapparts(a), mapparts(b)
    if len(ba) == 1 and len(bb) == 1 and ba[0] is bb[0]:
        for k in dict.fromkeys(ka + kb):
            ha, hb = has(a, k), has(b, k)
            if not implies(care, eq(B(ha), B(hb))) and not same(B(ha), B(hb), care):
                return False
            c = band(care, ha)
            if not sat(c):
                continue
            t = valty(a, k) or valty(b, k)
            x, y = sel(a, k, t), sel(b, k, t)
            if not same(x, y, c) and not (is_map(x) and is_map(y) and same_map(x, y, c)):
                return False
        return True
    return _split_map(a, b, care)


def is_map(x):
    return x.op in ("store", "del", "map0")


def _split_map(a, b, care):
    for m in (a, b):
        x = m
        while x.op in ("store", "del"):
            x = x.args[0]
        if x.op == "ite":
            v = x.args[0].v
            c = mkD(v, 1, 0)
            for g in (c, bnot(c)):
                cc = band(care, g)
                if sat(cc) and not same_map(assume(a, cc), assume(b, cc), cc):
                    return False
            return True
    return False


def valty(m, k):
    seen, todo = set(), [m]
    while todo:
        m = todo.pop()
        if id(m) in seen:
            continue
        seen.add(id(m))
        if m.op == "store":
            if m.args[2].ty:
                return m.args[2].ty
            if is_int(m.args[2]):
                return "i128"
        if m.op in ("store", "del"):
            todo.append(m.args[0])
        elif m.op == "ite":
            todo += [t for t in dterms(m.args[0]) if isinstance(t, Node)]
    return None


def put(dur, cls, key, val):
    return store(N("map0", dur, cls), key, val)


def expect_store(c, rule, s, want, when=1, only=None, ignore=()):
    """the final contents of every storage class are exactly `want` (others unchanged) when commit & when"""
    care = band(s.commit, when)
    c.ok(sat(care), rule + "/reachable", s, "the operation can succeed under the rule's condition")
    touched = storage_keys(s) | set(want)
    for dc in sorted(touched):
        if dc in ignore or (only is not None and dc not in only):
            continue
        w = want.get(dc, N("map0", *dc))
        f = final(s, *dc)
        ws = [e for e in s.effects if e.kind in ("write", "del") and (e.data[0], e.data[1]) == dc]
        c.ok(same_map(f, w, care), rule + "/storage", ws[0] if ws else s,
             "%s::%s must leave %s/%s = %s; it leaves %s" % (s.crate, s.entry, dc[0], dc[1], txt(assume(w, care)), txt(assume(f, care))),
             key="%s/storage|%s::%s|%s/%s" % (rule, s.crate, s.entry, dc[0], dc[1]))


def untouched(c, rule, s, *classes):
    for cls in classes:
        bad = [e for e in s.effects if e.kind in ("write", "del") and e.data[1] == cls and sat(e.guard)]
        c.ok(not bad, rule, bad[0] if bad else s, "%s::%s must not write %s" % (s.crate, s.entry, cls),
             key="%s|%s::%s|%s" % (rule, s.crate, s.entry, cls))


def exclusive(gs):
    for i in range(len(gs)):
        for j in range(i):
            if sat(band(gs[i], gs[j])):
                return False
    return True


def once(c, rule, s, es, when, match, what):
    """exactly one of the effects es happens when commit & when, none otherwise, and each satisfies match"""
    care = band(s.commit, when)
    tot = 0
    for e in es:
        tot = bor(tot, e.guard)
        c.ok(implies(e.guard, when), rule, e, "%s happens outside its condition %s" % (what, txt(when)),
             key="%s|%s::%s|%s|extra" % (rule, s.crate, s.entry, what))
        m = match(e) if match else True
        c.ok(m is True, rule, e, "%s: wrong contents: %s%s" % (what, effshow(e), "" if m in (True, False) else " (expected %s)" % m),
             key="%s|%s::%s|%s|contents" % (rule, s.crate, s.entry, what))
    c.ok(exclusive([e.guard for e in es]), rule, es[-1] if es else s, "%s can happen twice in one call" % what,
         key="%s|%s::%s|%s|twice" % (rule, s.crate, s.entry, what))
    c.ok(bool(es) and implies(care, tot), rule, es[0] if es else s, "%s does not happen on every successful run (%s)" % (what, txt(when)),
         key="%s|%s::%s|%s|missing" % (rule, s.crate, s.entry, what))


def effshow(e):
    return "%s %s" % (e.kind, [txt(x, 8) if isinstance(x, Node) else [txt(y, 8) for y in x] if isinstance(x, tuple) else x for x in e.data])


def same_args(e, addr, args, care=None):
    """call effect e goes to addr with these args (under its own guard); None = don't care"""
    g = e.guard if care is None else care
    if addr is not None and not same(e.data[1], addr, g):
        return "target " + txt(addr)
    a = e.data[3]
    if len(a) != len(args):
        return "arity"
    for i, (x, y) in enumerate(zip(a, args)):
        if y is None:
            continue
        if not same(x, y, g):
            return "arg %d = %s, not %s" % (i, txt(assume(y, g)), txt(assume(x, g)))
    return True


def calls_only(c, rule, s, methods):
    """the only state-changing external calls are these methods"""
    for e in effs(s, "inv"):
        c.ok(e.data[2] in methods, rule, e, "%s::%s makes an unexpected external call %s" % (s.crate, s.entry, e.data[2]),
             key="%s|%s::%s|call:%s" % (rule, s.crate, s.entry, e.data[2]))


def call_once(c, rule, s, method, addr, args, when=1, others=False):
    es = effs(s, "inv", method=method)
    once(c, rule, s, es, when, lambda e: same_args(e, addr, args) if not e.loops else "not in a loop", "call %s" % method)


def event_once(c, rule, s, name, data, topics=None, when=1):
    es = effs(s, "event", topic=name)

    def m(e):
        if topics is not None:
            t = e.data[0].args[2][1:]
            if len(t) != len(topics) or not all(same(x, y, e.guard) for x, y in zip(t, topics)):
                return "topics " + str([txt(x) for x in topics])
        if data is None:
            return True
        d = e.data[1]
        if isinstance(data, tuple):
            if d.op != "agg":
                xs = tuple(fld(d, i) for i in range(len(data)))
            else:
                xs = d.args[2]
            ok = len(xs) == len(data) and all(y is None or same(x, y, e.guard) for x, y in zip(xs, data))
            return ok or "data " + str([txt(x) if x is not None else "_" for x in data])
        return same(d, data, e.guard) or "data " + txt(data)
    once(c, rule, s, es, when, m, "event %s" % name)


def needs(c, rule, s, cond, why, when=1):
    """every successful run (when ..) satisfies cond"""
    c.ok(implies(bands(s.commit, when, aliases(s, cond)), cond), rule, s, "%s::%s can succeed although: not (%s)  -- requires %s" % (
        s.crate, s.entry, why, txt(cond)), key="%s|%s::%s|%s" % (rule, s.crate, s.entry, why))


def aliases(s, cond):
    """whoever is one of those who authorised the call authorised it, under any name"""
    g = 1
    for v in dvars(cond):
        a = terms._vars[v]
        if a.op != "auth":
            continue
        for e in effs(s, "auth"):
            if e.data[0] is not a.args[0]:
                g = band(g, bor(lit(a), bnot(band(eq(a.args[0], e.data[0]), auth(e.data[0])))))
    return g


def allows(c, rule, s, cond, why):
    """some successful run satisfies cond (no over-restriction)"""
    c.ok(sat(band(s.commit, cond)), rule, s, "%s::%s must remain possible when %s" % (s.crate, s.entry, why),
         key="%s|%s::%s|allows %s" % (rule, s.crate, s.entry, why))


def auth(x):
    return lit(N("auth", x))


def writers(c, crate, cls):
    """entries with a satisfiable write/delete of a storage class"""
    r = {}
    for n, s in c.all(crate).items():
        es = [e for e in s.effects if e.kind in ("write", "del") and e.data[1] == cls and sat(e.guard)]
        if es:
            r[n] = es
    return r


def only_writers(c, rule, crate, cls, allowed):
    w = writers(c, crate, cls)
    for n, es in w.items():
        c.ok(n in allowed, rule, es[0], "%s::%s writes %s; only %s may" % (crate, n, cls, sorted(allowed)),
             key="%s|%s|%s|%s" % (rule, crate, n, cls))
    for n in allowed:
        c.ok(n in w, rule, "%s::%s" % (crate, n), "expected writer of %s no longer writes it" % cls,
             key="%s|%s|%s|%s|gone" % (rule, crate, n, cls))


def only_callers(c, rule, crate, method, allowed):
    for n, s in c.all(crate).items():
        es = effs(s, "inv", method=method)
        if n in allowed:
            c.ok(bool(es), rule, s, "%s no longer calls %s" % (n, method), key="%s|%s|%s|gone" % (rule, n, method))
        for e in es:
            c.ok(n in allowed, rule, e, "%s::%s calls %s; only %s may" % (crate, n, method, sorted(allowed)),
                 key="%s|%s|%s|%s" % (rule, crate, n, method))
