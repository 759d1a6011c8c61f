from core import *
from spec import *
from rules.r_pool import *
from rules.r_submit import *

ORACLE_AGE = 24 * 60 * 60


def nodes_of(t, op, skip=()):
    """every node of this kind in a term (not looking into the nodes of the kinds to skip)"""
    out, seen, todo = set(), set(), [t]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, Node):
            if n.op in skip:
                continue
            if n.op == op:
                out.add(n)
            todo += n.args
        elif type(n) is tuple:
            todo += n
        elif type(n) is D:
            todo += [terms._vars[v] for v in dvars(n)] + [x for x in dterms(n) if isinstance(x, Node)]
    return out


def reserve_list():
    m = N("map0", *RL)
    return ite(has(m, UNIT), sel(m, UNIT, ADDRS), N("vec", (), ty=ADDRS))


def named(table, name):
    return [k for k in table if k.split("::")[-1] == name][0]


def hf_min(scalar, hf, mode):
    return muldiv(mode, mul(scalar, I(hf)), I(S7))


def under(coll, liab, scalar, hf):
    """the position's health factor is below hf (7 decimals)"""
    return band(bnot(isz(liab)), lt(muldiv("floor", mul(coll, scalar), liab), hf_min(scalar, hf, "floor")))


def over(coll, liab, scalar, hf):
    return bor(isz(liab), lt(hf_min(scalar, hf, "ceil"), muldiv("floor", mul(coll, scalar), liab)))


def priced(c, rule, s, L, V0, pk, asset, after=None):
    """the price a step uses for `asset`: the configured oracle's, read once and remembered in the map pk.
    -> price, its timestamp, the step with the remembered price read as that price"""
    calls = {x for k in V0.steps for x in nodes_of(V0.steps[k], "call", ("fold", "mu")) if x.args[1] == "lastprice"}
    c.ok(len(calls) == 1, rule, s, "%s: one price is fetched per reserve" % s.entry)
    if len(calls) != 1:
        raise Stop()
    p = calls.pop()
    stellar = variant(named(terms._ENUMS, "Asset"), 0, [asset])
    c.ok(same(p.args[0], V0(cfg(ORACLE)), V0.w) and len(p.args[2]) == 1 and same(p.args[2][0], stellar, V0.w), rule, s,
         "%s: the price asked for is that of the reserve's asset from the configured oracle: %s" % (s.entry, txt(p)))
    pd = payload(p, 1, 0, named(terms._STRUCT_FIELDS, "PriceData"))
    P, stamp = fld(pd, 0, "i128"), fld(pd, 1, "u64")
    p0 = assume(L.inits[pk], L.reach)
    c.ok(p0.op == "mapnew" or after is not None and (p0 is after.L.post[after.pk] or same(p0, after.L.post[after.pk], L.reach)), rule, s, "%s: prices are fetched in the same call" % s.entry)
    return P, stamp, V0.also(terms.Subst({sel(V0.mus[pk], asset, "i128"): P}))


def fresh(c, rule, s, V, pk, asset, P, stamp, used):
    m, w = V.mus[pk], V.w
    c.ok(implies(bands(w, used, bnot(has(m, asset))), le(NOW, add(stamp, I(ORACLE_AGE)))), rule, s, "%s: a price older than a day is never used" % s.entry)
    c.ok(sat(bands(w, used, bnot(has(m, asset)), eq(NOW, add(stamp, I(ORACLE_AGE))))), rule, s, "%s: a price exactly a day old is still accepted" % s.entry)
    for x, g in leaves_of(V.steps[pk], w):
        c.ok(x is m or same_map(x, store(m, asset, P), g), rule, s, "%s: only the fetched price is remembered for an asset" % s.entry)


def oracle_scalar(c, rule, s, g):
    """the base asset's scalar, as it occurs in g"""
    dec = {x for x in nodes_of(g, "call") if x.args[1] == "decimals"}
    c.ok(len(dec) == 1 and all(same(x.args[0], cfg(ORACLE), s.commit) for x in dec), rule, s, "%s: the price decimals are those of the configured oracle" % s.entry)
    if len(dec) != 1:
        raise Stop()
    return power(I(10), dec.pop())


class Health:
    """a walk over the pool's reserves that totals a user's collateral and liabilities in the oracle's base asset"""

    def __init__(self, c, rule, s, L, liab, coll, need=("coll", "liab"), after=None):
        self.L = L
        ck = inits_of(L, CACHE_T)
        pk = [k for k in inits_of(L, MAI)]
        c.ok(len(ck) == 1 and len(pk) == 1, rule, s, "%s: one walk over the reserves keeps one cache of reserves and one of prices" % s.entry)
        if len(ck) != 1 or len(pk) != 1:
            raise Stop()
        ck, pk = self.ck, self.pk = ck[0], pk[0]
        i = L.iota
        lst = reserve_list()
        w = bands(L.entry_pc, L.comp, lt(i, L.bound))
        c.ok(same(L.bound, vlen(lst), L.reach), rule, s, "%s walks every reserve of the pool" % s.entry)
        asset = assume(at(lst, i, ADDR), w)
        V0 = View(L, w, Filed(L.mus[ck]))
        asset = V0(asset)
        C = Cached(V0.mus[ck], asset)
        V0 = V0.also(C.norm)
        P, stamp, V = priced(c, rule, s, L, V0, pk, asset, after)
        self.V = V
        w = V.w
        C = Under(C, V)
        b, d = V(bal(coll, i)), V(bal(liab, i))
        raw_b, raw_d = fmul("floor", b, C.b_rate, S9), fmul("ceil", d, C.d_rate, S9)
        eff_b, eff_d = fmul("floor", raw_b, C.c_factor, S7), fdiv("ceil", raw_d, C.l_factor, S7)
        hb, hd = lt(I(0), b), lt(I(0), d)
        some = {"coll": ite(hb, fmul("floor", P, eff_b, C.scalar), I(0)), "liab": ite(hd, fmul("ceil", P, eff_d, C.scalar), I(0)),
                "coll_raw": ite(hb, fmul("floor", P, raw_b, C.scalar), I(0)), "liab_raw": ite(hd, fmul("ceil", P, raw_d, C.scalar), I(0))}
        names = {"coll": "effective collateral", "liab": "effective liabilities", "coll_raw": "collateral", "liab_raw": "liabilities"}
        left = [k for k in L.inits if L.inits[k] is I(0) and not same(L.steps[k], add(i, I(1)))]
        self.post = {}
        for n in some:
            ks = [k for k in left if same(V.steps[k], add(V.mus[k], some[n]), w)]
            if n in need:
                c.ok(len(ks) >= 1, rule, s, "%s totals the %s of every reserve exactly: %s per reserve" % (s.entry, names[n], txt(assume(some[n], w))),
                     key="%s|%s|%s" % (rule, s.entry, n))
                if not ks:
                    raise Stop()
            if ks:
                self.post[n] = L.post[ks[0]]
                left.remove(ks[0])
        fresh(c, rule, s, V, pk, asset, P, stamp, bor(hb, hd))

    def scalar_of(self, c, rule, s, g):
        return oracle_scalar(c, rule, s, g)


@prop("C22", ["pool"], opaque_std)
def health_check(c):
    contracts(c)
    S = Sub(c)
    s, L = S.s, S.L
    cached_ok(c, "cache", s)
    flags = [k for k in S.flag if L.inits[k].op == "bdd" or L.inits[k].ty == "bool" or L.inits[k] is B(0)]
    c.ok(len(flags) == 1, "flag", s, "submit remembers whether the position's health must be checked")
    if len(flags) != 1:
        raise Stop()
    fk = flags[0]
    pending0 = truth(L.inits[fk])
    for k in range(10):
        w = band(S.w, eq(S.typ, I(k)))
        V = View(L, w)
        if not sat(V.w):
            c.ok(False, "flag", s, "request type %d can be carried out" % k)
            continue
        t = truth(V.steps[fk])
        if k in (WDC, BOR, FLIQ, FBAD, DEL):
            c.ok(implies(V.w, t), "flag", s, "a request of type %d asks for the health check" % k, key="flag|%d" % k)
        c.ok(implies(band(V.w, truth(V.mus[fk])), t), "flag", s, "a request of type %d keeps a pending health check" % k, key="flag|keep%d" % k)
    walks = [l for l in s.loops if l.depth == 1 and l is not L and inits_of(l, CACHE_T)]
    c.ok(len(walks) == 1, "health", s, "the position's health is computed once, after all requests")
    if len(walks) != 1:
        raise Stop()
    liab, coll = L.post[S.pk[0]], L.post[S.pk[1]]
    L2 = walks[0]
    k2 = inits_of(L2, CACHE_T)[0]
    c.ok(L2.inits[k2] is L.post[S.ck], "health", s, "the health check sees the reserves as the requests left them")
    H = Health(c, "health", s, L2, liab, coll)
    care = bands(s.commit, truth(L.post[fk]), lt(I(0), mlen(liab)))
    c.ok(sat(care), "health", s, "a position with liabilities can pass the health check")
    sc = H.scalar_of(c, "health", s, s.commit)
    c.ok(implies(care, bnot(under(H.post["coll"], H.post["liab"], sc, 10000100))), "health", s,
         "submit succeeds with a health factor below 1.00001 (collateral %s, liabilities %s)" % (txt(H.post["coll"]), txt(H.post["liab"])), key="health|min")
    st = final(s, *POS)
    c.ok(same(sel(st, S.frm, POST), agg(POST, None, tuple(L.post[k] for k in S.pk)), s.commit), "health", s, "the position stored is the one that was checked")


def cached_ok(c, rule, s):
    """in every walk: what is cached under an asset is that asset's reserve, with its fixed parameters and brought up to date.
    (Walks start from an empty cache or from one filled by an earlier walk; each step keeps it.)"""
    posts = {}
    for L in s.loops:
        for k in inits_of(L, CACHE_T):
            posts[L.post[k]] = L
            posts[L.mus[k]] = L
    n = 0
    for L in s.loops:
        for k in inits_of(L, CACHE_T):
            w = bands(L.entry_pc, L.comp, lt(L.iota, L.bound))
            ok = True
            for x, g in leaves_of(L.steps[k], w) + [(x, 1) for x, g in leaves_of(L.inits[k], 1)]:
                U, g2 = settle_care(g) if type(g) is D else (None, g)
                known = posts
                if U is not None:
                    x, g = U(x), g2
                    known = {U(p) for p in posts}
                while x.op == "store":
                    m, K, v = x.args
                    V = Filed(m)
                    gg = V.guard(g)
                    K, v = V(K), V(v)
                    C = Cached(m, K)
                    gg, v = C.norm.guard(gg), C.norm(v)
                    want = C.make()
                    for q, f in enumerate(terms._STRUCT_FIELDS[RES]):
                        if f[0] in ("asset", "index", "scalar", "c_factor", "l_factor", "max_util", "last_time", "b_rate", "d_rate"):
                            n += 1
                            ok = ok and same(fld(v, q, f[1]), C.norm(getattr(C, f[0])), gg)
                    x = m
                ok = ok and (x in known or x.op == "mapnew")
            c.ok(ok, rule, s, "%s: a cached reserve is filed under its own asset and keeps the reserve's parameters (walk at %s:%s)" % (s.entry, L.fn, L.line),
                 key="%s|%s|%s" % (rule, s.entry, L.fn))
    c.ok(n > 0, rule, s, "%s caches reserves" % s.entry)
