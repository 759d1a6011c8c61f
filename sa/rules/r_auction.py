from core import *
from spec import *
from rules.r_pool import *
from rules.r_submit import *
from rules.r_health import *

def afld(a, n):
    fs = [f for f, _ in terms._STRUCT_FIELDS[AUT]]
    i = fs.index(n)
    return fld(a, i, terms._STRUCT_FIELDS[AUT][i][1])


def auction(bid, lot, block):
    d = {"bid": bid, "lot": lot, "block": block}
    return agg(AUT, None, tuple(d[f] for f, _ in terms._STRUCT_FIELDS[AUT]))


def akey(user, kind):
    d = {"user": user, "auct_type": I(kind)}
    return agg(AUK, None, tuple(d[f] for f, _ in terms._STRUCT_FIELDS[AUK]))


def txt_key(k):
    """a stable name for a walk variable"""
    return "/".join(k[0]) if type(k[0]) is tuple else k[0] if type(k[0]) is str else "var"


def walking(s, V, n, depth=2):
    """the inner walks over the n entries of a map (those whose bound is literally n, else those whose bound is provably n)"""
    ls = [l for l in s.loops if l.depth == depth and sat(V.g(l.reach))]
    n = assume(n, V.w)
    r = [l for l in ls if assume(V(l.bound), V.w) is n]
    return r or [l for l in ls if same(V(l.bound), n, V.w)]


def piecewise(f, care, x, at, sym, val):
    """f(view, care) on each side of x == at and on the corner itself, where sym stands for val"""
    C = terms.Subst({sym: val})
    keep = lambda t: t
    return all(not sat(g) or f(v, g) for v, g in ((keep, band(care, lt(x, at))), (keep, band(care, lt(at, x))), (C, C.guard(band(care, eq(x, at))))))


class Fill:
    """a request that fills an auction: what is taken now and what is left"""

    def __init__(self, c, S, k, rule):
        self.S, self.k, self.c = S, k, c
        s, L = S.s, S.L
        V = self.V = S.view(k)
        self.w = V.w
        self.kind = k - FLIQ
        self.user, self.amt = V(S.addr), V(S.amt)
        m0, m1 = V.cell(AU)
        key = self.key = akey(self.user, self.kind)
        self.A = A = V(sel(m0, key, AUT))
        n = "filling an auction of type %d" % self.kind
        c.ok(sat(V.w), rule, s, "%s is possible" % n)
        c.ok(implies(V.w, has(m0, key)), rule, s, "%s needs such an auction of the named user" % n)
        c.ok(implies(V.w, bnot(eq(self.user, S.frm))), rule, s, "%s: nobody fills their own auction" % n)
        c.ok(implies(V.w, band(le(I(1), self.amt), le(self.amt, I(100)))), rule, s, "%s takes 1 to 100 percent" % n)
        block = afld(A, "block")
        dif = sub(SEQ, block)
        c.ok(implies(V.w, le(I(0), dif)), rule, s, "%s is refused before the auction starts" % n)
        bid_mod = ite(lt(I(200), dif), ite(lt(dif, I(400)), sub(I(S7), scale(sub(dif, I(200)), 50000)), I(0)), I(S7))
        lot_mod = ite(lt(I(200), dif), I(S7), scale(dif, 50000))
        self.now, self.rest = {}, {}
        self.loops = []
        for side, mode, mod in (("bid", "ceil", bid_mod), ("lot", "floor", lot_mod)):
            src = afld(A, side)
            got = {}
            for L2 in walking(S.s, V, mlen(src)):
                ks = inits_of(L2, MAI)
                W = View(L2, bands(V.w, V.g(L2.reach), V.g(L2.comp), V.g(lt(L2.iota, L2.bound))), *V.fs)
                x_k = N("keyat", src, V(L2.iota), ty=ADDR)
                x = sel(src, x_k, "i128")
                base = muldiv(mode, mul(x, scale(self.amt, 100000)), I(S7))
                rem = sub(x, base)
                take = muldiv(mode, mul(base, mod), I(S7))
                for kk in ks:
                    if L2.inits[kk].op != "mapnew":
                        continue
                    mu, st = W.mus[kk], W.steps[kk]
                    for nm, v in (("rest", rem), ("now", take)):
                        want = ite(lt(I(0), v), store(mu, x_k, v), mu)
                        at = lambda g, p: piecewise(lambda Z, h: same_map(Z(st), Z(want), h), g, dif, I(p), SEQ, add(block, I(p)))
                        if nm not in got and (same_map(st, want, W.w) or at(band(W.w, lt(dif, I(300))), 200) and at(band(W.w, lt(I(300), dif)), 400)
                                              and same_map(st, want, band(W.w, eq(dif, I(300))))):
                            got[nm] = V(L2.post[kk])
                            self.loops.append(L2)
                            break
            c.ok("now" in got, rule, s, "%s takes of each %s entry exactly its share, scaled by the blocks since the start (%s)" % (n, side, txt(mod)), key="%s|%d|%s|now" % (rule, k, side))
            c.ok("rest" in got, rule, s, "%s leaves of each %s entry exactly what is not taken" % (n, side), key="%s|%d|%s|rest" % (rule, k, side))
            if len(got) < 2:
                raise Stop()
            self.now[side], self.rest[side] = got["now"], got["rest"]
        gone = band(isz(mlen(self.rest["bid"])), isz(mlen(self.rest["lot"])))
        want = ite(gone, delete(m0, key), store(m0, key, auction(self.rest["bid"], self.rest["lot"], block)))
        c.ok(same_map(m1, want, V.w), rule, s, "%s leaves exactly the rest of the auction, or none" % n, key="%s|%d|store" % (rule, k))
        evs = [e for e in S.s.effects if e.kind == "event" and len(e.loops) == 1 and e.loops[0][2] is L.iota and sat(band(V.w, V.g(e.guard)))]
        tot = 0
        for e in evs:
            if topic(e) != "fill_auction":
                continue
            g = band(V.w, V.g(e.guard))
            tot = bor(tot, g)
            t, d = e.data[0].args[2][1:], e.data[1]
            c.ok(len(t) == 2 and same(V(t[0]), self.user, g) and same(V(t[1]), I(self.kind), g) and same(V(fld(d, 0)), S.frm, g) and same(V(fld(d, 1)), self.amt, g),
                 rule, e, "%s is announced with the user, the filler and the percentage" % n)
        c.ok(implies(V.w, tot), rule, s, "%s is announced" % n)
        self.evs = evs


@prop("C25", ["pool"], opaque_std)
def fill_scaling(c):
    contracts(c)
    S = Sub(c)
    for k in (FLIQ, FBAD, FINT):
        Fill(c, S, k, "fill")


class ByIndex:
    """a walk over a position map (reserve index -> amount) instead of one over assets"""

    def __init__(self, m):
        self.m = m


class Moves:
    """a walk over the entries of `src` (asset -> amount) that adds to or removes from one of a user's position maps:
    per entry exactly that amount, in the reserve's totals too, with emissions settled at the old balances first"""

    def __init__(self, c, rule, s, L2, care, fs, src, user, side, sign, held, what):
        mk = inits_of(L2, M32)
        ck = inits_of(L2, CACHE_T)
        c.ok(len(mk) == 1 and len(ck) == 1, rule, s, "%s: one walk changes one position map and the reserves" % what)
        if len(mk) != 1 or len(ck) != 1:
            raise Stop()
        self.L, self.mk, self.ck = L2, mk[0], ck[0]
        mk, ck, i = self.mk, self.ck, L2.iota
        V = View(L2, bands(care, L2.reach, L2.comp, lt(i, L2.bound)), *fs)
        V = V.also(Filed(V.mus[ck]))
        if isinstance(src, ByIndex):
            rid = N("keyat", src.m, i, ty="u32")
            asset, amt = V(at(reserve_list(), rid, ADDR)), V(sel(src.m, rid, "i128"))
        else:
            asset = V(N("keyat", src, i, ty=ADDR))
            amt = V(sel(src, asset, "i128"))
        C = Cached(V.mus[ck], asset)
        V = V.also(C.norm)
        C = Under(C, V)
        w = V.w
        c.ok(sat(w), rule, s, "%s: an entry can be moved" % what)
        m = V.mus[mk]
        b = bal(m, C.index)
        n = add(b, amt) if sign > 0 else sub(b, amt)
        want = store(m, C.index, n) if sign > 0 else setbal(m, C.index, n)
        c.ok(same_map(V.steps[mk], want, w), rule, s, "%s must change the balance to %s; it leaves %s" % (what, txt(assume(n, w)), txt(assume(V.steps[mk], w))), key="%s|%s|balance" % (rule, what))
        if sign < 0:
            c.ok(implies(w, le(I(0), n)), rule, s, "%s never leaves a negative balance" % what)
        tot = "b_supply" if side == 1 else "d_supply"
        t = getattr(C, tot)
        cache = store(V.mus[ck], asset, C.make(**{tot: add(t, amt) if sign > 0 else sub(t, amt)}))
        c.ok(same_map(V.steps[ck], cache, w), rule, s, "%s must change only the reserve's total, by the same amount; it leaves %s" % (what, txt(assume(V.steps[ck], w))), key="%s|%s|reserve" % (rule, what))
        ed0, ed1 = V.cell(ED)
        ue0, ue1 = V.cell(UE)
        rid = scale(C.index, 2) if side == 0 else add(scale(C.index, 2), I(1))
        h = b if held is None else add(b, bal(V(held), C.index))
        E = settle(rid, t, C.scalar, V(user), h, ed0, ue0)
        c.ok(same_map(ed1, E.ed, w), rule, s, "%s: the token's emissions are brought up to date before the balance changes" % what, key="%s|%s|emis" % (rule, what))
        c.ok(same_map(ue1, E.ue, w), rule, s, "%s: the user's emissions are settled at the old balance" % what, key="%s|%s|uemis" % (rule, what))
        tk = [k for k in inits_of(L2, ADDRS)]
        c.ok(len(tk) == 1, rule, s, "%s: one list of reserves to store" % what)
        if len(tk) != 1:
            raise Stop()
        self.tk = tk[0]
        listed(c, rule, s, V.mus[self.tk], V.steps[self.tk], asset, w)
        for k in L2.steps:
            if k in (mk, ck, self.tk) or k[0] in (("st",) + ED, ("st",) + UE) or same(L2.steps[k], add(i, I(1))):
                continue
            c.ok(same(V.steps[k], V.mus[k], w), rule, s, "%s changes nothing else" % what, key="%s|%s|frame" % (rule, what))

    def cell(self, dc, at="post"):
        for k in self.L.inits:
            if k[0] == ("st",) + dc:
                return self.L.post[k] if at == "post" else self.L.inits[k]
        return None


def chained(c, rule, s, pairs, care, what):
    for x, y in pairs:
        c.ok(x is y or x is not None and y is not None and (same(x, y, care) or same_map(x, y, care)), rule, s, what)


HF_MAX, HF_MIN = 11500000, 10300000


@prop("C26", ["pool"], opaque_std)
def new_liquidation(c):
    contracts(c)
    s = c.S("pool", "new_liquidation_auction")
    user, pct = arg(s, 0), arg(s, 1)
    cm = s.commit
    cached_ok(c, "cache", s)
    key = akey(user, 0)
    needs(c, "open", s, bnot(has(N("map0", *AU), key)), "the user has no liquidation auction yet")
    needs(c, "open", s, band(le(I(1), pct), le(pct, I(100))), "the percentage is 1 to 100")
    needs(c, "open", s, bnot(eq(user, SELF)), "the pool itself is never liquidated")
    needs(c, "open", s, bnot(eq(user, inst("Backstop"))), "the backstop is never liquidated")
    liab, coll = pos(user, 0), pos(user, 1)
    hs = [l for l in s.loops if inits_of(l, CACHE_T) and inits_of(l, MAI)]
    rm = [l for l in s.loops if inits_of(l, CACHE_T) and not inits_of(l, MAI)]
    c.ok(len(hs) == 2 and len(rm) == 2, "walk", s, "the position's health is computed twice, with the liquidated part removed in between (%d, %d)" % (len(hs), len(rm)))
    if len(hs) != 2 or len(rm) != 2:
        raise Stop()
    full = eq(pct, I(100))
    H = Health(c, "health", s, hs[0], liab, coll, need=("coll", "liab", "coll_raw", "liab_raw"))
    cb, lb, cr, lr = [H.post[k] for k in ("coll", "liab", "coll_raw", "liab_raw")]
    sc = H.scalar_of(c, "health", s, cm)
    c.ok(implies(cm, le(cb, lb)), "open", s, "a liquidation needs liabilities of at least the collateral (%s, %s)" % (txt(cb), txt(lb)))
    c.ok(implies(cm, hs[0].reach), "open", s, "the health is computed on every path")
    # the estimate of what the liquidated share of the debt costs in collateral
    part = muldiv("trunc", mul(pct, sc), I(100))
    avg_cf = muldiv("floor", mul(cb, sc), cr)
    avg_lf = muldiv("floor", mul(lb, sc), lr)
    prem = add(muldiv("ceil", mul(sub(sc, muldiv("ceil", mul(avg_cf, sc), avg_lf)), sc), scale(sc, 2)), sc)
    est = muldiv("floor", mul(muldiv("floor", mul(lr, part), sc), prem), sc)
    est_pct = imin(muldiv("ceil", mul(est, sc), cr), sc)
    out = {}
    for m, side, share in ((coll, "lot", est_pct), (liab, "bid", part)):
        got = None
        for l in [x for x in s.loops if inits_of(x, MAI) and not inits_of(x, CACHE_T)]:
            if not same(l.bound, mlen(m), l.reach):
                continue
            W = View(l, bands(l.reach, l.comp, lt(l.iota, l.bound)))
            rid = N("keyat", m, l.iota, ty="u32")
            asset = at(reserve_list(), rid, ADDR)
            amt = muldiv("ceil", mul(sel(m, rid, "i128"), share), sc)
            for k in inits_of(l, MAI):
                if l.inits[k].op == "mapnew" and got is None and same_map(W.steps[k], store(W.mus[k], W(asset), W(amt)), W.w):
                    got = l.post[k]
                    c.ok(implies(cm, l.reach), "quote", s, "the %s is filled on every path" % side)
        c.ok(got is not None, "quote", s, "the %s holds ceil(balance x %s) of every %s position" % (side, txt(share), "collateral" if side == "lot" else "liability"), key="quote|" + side)
        if got is None:
            raise Stop()
        out[side] = got
    A = auction(out["bid"], out["lot"], add(SEQ, I(1)))
    c.ok(implies(band(cm, full), le(cr, est)), "size", s, "a liquidation of 100 percent needs an estimate of at least the whole collateral")
    # what is left after a partial liquidation
    part_w = band(cm, bnot(full))
    fs = []
    M = []
    for l, src, side, held in ((rm[0], out["lot"], 1, pos(user, 2)), (rm[1], out["bid"], 0, None)):
        c.ok(same(l.bound, mlen(src), l.reach), "left", s, "every entry of the quote is removed from the position")
        M.append(Moves(c, "left", s, l, l.reach, fs, src, user, side, -1, held, "removing the %s from the position" % ("lot" if side else "bid")))
        c.ok(implies(part_w, l.reach), "left", s, "a partial liquidation is judged by what it leaves")
    e0, u0 = N("map0", *ED), N("map0", *UE)
    chained(c, "left", s, [(M[0].L.inits[M[0].mk], coll), (M[1].L.inits[M[1].mk], liab), (M[0].L.inits[M[0].ck], H.L.post[H.ck]), (M[1].L.inits[M[1].ck], M[0].L.post[M[0].ck])], part_w,
            "the removal starts from the stored position and reserves")
    chained(c, "left", s, [(M[0].cell(ED, "init"), e0), (M[0].cell(UE, "init"), u0), (M[1].cell(ED, "init"), M[0].cell(ED)), (M[1].cell(UE, "init"), M[0].cell(UE))], part_w,
            "emissions are settled one after the other")
    H2 = Health(c, "after", s, hs[1], M[1].L.post[M[1].mk], M[0].L.post[M[0].mk], after=H)
    c.ok(same(H2.L.inits[H2.ck], M[1].L.post[M[1].ck], part_w), "after", s, "the health after the liquidation uses the same reserves")
    c.ok(implies(part_w, hs[1].reach), "after", s, "a partial liquidation is judged by the health it leaves")
    cb2, lb2 = H2.post["coll"], H2.post["liab"]
    c.ok(implies(part_w, bnot(over(cb2, lb2, sc, HF_MAX))), "size", s, "a partial liquidation never leaves a health factor above 1.15", key="size|max")
    c.ok(implies(part_w, bnot(under(cb2, lb2, sc, HF_MIN))), "size", s, "a partial liquidation never leaves a health factor below 1.03", key="size|min")
    c.ok(sat(part_w) and sat(band(cm, full)), "open", s, "partial and full liquidations are possible")
    chained(c, "store", s, [(final(s, *ED), ite(full, e0, M[1].cell(ED))), (final(s, *UE), ite(full, u0, M[1].cell(UE)))], cm, "no other emissions change")
    expect_store(c, "store", s, {AU: put(*AU, key, A)}, ignore={ED, UE})
    c.ok(same(s.ret, A, cm), "store", s, "the auction stored is the one returned")
    event_once(c, "event", s, "new_liquidation_auction", A, [user])
    calls_only(c, "calls", s, set())


class Shift:
    """what filling an auction moves: the walks that take from / give to position maps, in the order they run"""

    def __init__(self, c, rule, F, jobs):
        """jobs: (src map, user, side, sign, start of the position map, the other map that earns the same token, what[, only when])"""
        S, V = F.S, F.V
        s = S.s
        self.M = {}
        cells = {k: v for k, v in V.mus.items() if k in (S.ck, S.tk) or k[0] in (("st",) + ED, ("st",) + UE)}
        walks = {}
        jobs = [j if len(j) == 8 else j + (1,) for j in jobs]
        for j, (src, user, side, sign, m, held, what, when) in enumerate(jobs):
            if m is None:
                m = self.begin(j, walks, V)
            got = []
            for l in walking(s, V, mlen(src.m if isinstance(src, ByIndex) else src)):
                mk = inits_of(l, M32)
                if len(mk) == 1 and not [x for x in walks.values() if x is l] and (V(l.inits[mk[0]]) is m or same_map(V(l.inits[mk[0]]), m, band(V.w, V.g(l.reach)))):
                    got.append(l)
            c.ok(len(got) == 1, rule, s, "%s happens once (%d)" % (what, len(got)), key="%s|%s|once" % (rule, what))
            if len(got) != 1:
                raise Stop()
            walks[j] = got[0]
        # in the order the reserves pass through them
        cur = {"c": V.mus[S.ck], "t": V.mus[S.tk], "d": V.cell(ED)[0], "u": V.cell(UE)[0]}
        todo = dict(walks)
        while todo:
            nxt = [j for j, l in todo.items() if same_map(V(l.inits[inits_of(l, CACHE_T)[0]]), cur["c"], band(V.w, V.g(l.reach)))]
            c.ok(len(nxt) == 1, rule, s, "the moves of a fill work on the same reserves, one after the other")
            if len(nxt) != 1:
                raise Stop()
            j = nxt[0]
            l = todo.pop(j)
            src, user, side, sign, m, held, what, when = jobs[j]
            M = self.M[j] = Moves(c, rule, s, l, V.w, V.fs, src, user, side, sign, held, what)
            g = V.g(l.reach)
            if type(when) is not int:
                c.ok(implies(band(V.w, g), when), rule, s, "%s happens only then" % what, key="%s|%s|only" % (rule, what))
            c.ok(implies(band(V.w, when), g), rule, s, "%s is never skipped" % what, key="%s|%s|skip" % (rule, what))
            chained(c, rule, s, [(V(l.inits[M.tk]), cur["t"]), (V(M.cell(ED, "init")), cur["d"]), (V(M.cell(UE, "init")), cur["u"])], band(V.w, when),
                    "%s goes on from the state the request started with" % what)
            new = {"c": V(l.post[M.ck]), "t": V(l.post[M.tk]), "d": V(M.cell(ED)), "u": V(M.cell(UE))}
            cur = {k: ite(when, new[k], cur[k]) for k in cur}
        chained(c, rule, s, [(V.steps[S.ck], cur["c"]), (V.steps[S.tk], cur["t"]), (V.cell(ED)[1], cur["d"]), (V.cell(UE)[1], cur["u"])], V.w,
                "filling an auction changes no reserve and no emissions but through its moves")

    def post(self, F, j):
        return F.V(self.M[j].L.post[self.M[j].mk])


def world_of(F):
    """the state of other contracts before the request"""
    ks = [k for k in F.S.other if k[0] == "world"]
    return F.V.mus[ks[0]] if ks else N("w0")


def call_after(w, addr, method, args):
    return terms._sel_dd(lambda t: N("w", t, N("did", addr, method, tuple(args))), w.args[0]) if w.op == "ite" else N("w", w, N("did", addr, method, tuple(args)))


def fill_rest(c, rule, F, mine, cells, events=("fill_auction",), world=None):
    """what else a fill does: the filler's positions become `mine`, the storage cells `cells`; nothing else"""
    S, V = F.S, F.V
    s = S.s
    n = "filling an auction of type %d" % F.kind
    for i, nm in enumerate(("liabilities", "collateral", "supply")):
        want = mine.get(i, V.mus[S.pk[i]])
        c.ok(same_map(V.steps[S.pk[i]], want, V.w), rule, s, "%s must leave the filler's %s = %s; it leaves %s" % (n, nm, txt(assume(want, V.w)), txt(assume(V.steps[S.pk[i]], V.w))),
             key="%s|%d|%s" % (rule, F.k, nm))
    for k in (S.ik, S.ok_):
        c.ok(same_map(V.steps[k], V.mus[k], V.w), rule, s, "%s adds nothing to what is collected or paid at the end" % n)
    seen = {("st",) + x for x in (ED, UE, AU)} | {("st",) + x for x in cells}
    for k in S.other:
        if k[0] == "world":
            seen.add("world")
            if world == "any":
                continue
            want = V.mus[k] if world is None else world
            c.ok(same(V.steps[k], want, V.w), rule, s, "%s makes exactly the calls it should: %s, not %s" % (n, txt(assume(want, V.w)), txt(assume(V.steps[k], V.w))), key="%s|%d|world" % (rule, F.k))
    for dc, want in cells.items():
        c.ok(same_map(V.cell(dc)[1], want, V.w), rule, s, "%s must leave %s = %s; it leaves %s" % (n, dc[1], txt(assume(want, V.w)), txt(assume(V.cell(dc)[1], V.w))), key="%s|%d|%s" % (rule, F.k, dc[1]))
    for k in S.other:
        if k[0] in seen or k in S.flag:
            continue
        c.ok(same(V.steps[k], V.mus[k], V.w), rule, s, "%s must not change %s" % (n, txt_key(k)), key="%s|%d|frame" % (rule, F.k))
    for e in s.effects:
        if e.kind == "event" and e.loops and e.loops[0][2] is S.L.iota and topic(e) not in events:
            c.ok(not sat(band(V.w, V.g(e.guard))), rule, e, "%s announces nothing else" % n)


def invs_in(F, depth=None):
    S, V = F.S, F.V
    return [e for e in S.s.effects if e.kind == "inv" and e.loops and e.loops[0][2] is S.L.iota and sat(band(V.w, V.g(e.guard))) and (depth is None or len(e.loops) == depth)]


@prop("C27", ["pool"], opaque_std)
def fill_liquidation(c):
    contracts(c)
    S = Sub(c)
    fill_positions(c, S)
    stored_back(c, "stored", S.s, S.L)


def fill_positions(c, S):
    F = Fill(c, S, FLIQ, "fill")
    V = F.V
    P0 = V.cell(POS)[0]
    u = [pos(F.user, i, P0) for i in range(3)]
    mine = [V.mus[p] for p in S.pk]
    lot, bid = F.now["lot"], F.now["bid"]
    T = Shift(c, "move", F, [
        (lot, F.user, 1, -1, u[1], u[2], "taking the lot from the user's collateral"),
        (bid, F.user, 0, -1, u[0], None, "taking the bid from the user's liabilities"),
        (lot, S.frm, 1, 1, mine[1], mine[2], "adding the lot to the filler's collateral"),
        (bid, S.frm, 0, 1, mine[0], None, "adding the bid to the filler's liabilities")])
    after = agg(POST, None, (T.post(F, 1), T.post(F, 0), u[2]))
    fill_rest(c, "rest", F, {0: T.post(F, 3), 1: T.post(F, 2)}, {POS: store(P0, F.user, after)})
    for e in invs_in(F):
        c.ok(False, "calls", e, "filling a liquidation moves positions only, no tokens: %s" % effshow(e))


def quoted(c, rule, s, L, m, key_asset, amt, some, what, health=False):
    """a walk that files `amt` under the asset, where `some` holds, and totals its value.
    -> the map it leaves, the total value"""
    mk = [k for k in inits_of(L, MAI)]
    w = bands(L.reach, L.comp, lt(L.iota, L.bound))
    out = val = None
    V0 = View(L, w)
    asset = V0(key_asset)
    for pk in mk:
        if not any(x.args[1] == "lastprice" for x in nodes_of(L.steps[pk], "call", ("fold", "mu"))):
            continue
        P, stamp, V = priced(c, rule, s, L, V0, pk, asset)
        R = OpaqueRes(asset)
        lot, on = V(amt(R)), V.g(some(R))
        for k in mk:
            if k is pk:
                continue
            mu = V.mus[k]
            first = bnot(has(mu, asset)) if m is None else 1
            want = ite(band(on, first), store(mu, asset, lot), mu)
            if L.inits[k].op == "mapnew" and same_map(V.steps[k], want, V.w):
                out = L.post[k]
                fresh(c, rule, s, V, pk, asset, P, stamp, band(on, first))
                v = ite(band(on, first), V(fmul("floor", P, amt(R, True), R.scalar)), I(0))
                vs = [x for x in L.inits if L.inits[x] is I(0) and not same(L.steps[x], add(L.iota, I(1))) and same(V.steps[x], add(V.mus[x], v), V.w)]
                c.ok(len(vs) == 1, rule, s, "the value of %s is totalled exactly" % what, key="%s|%s|value" % (rule, what))
                if len(vs) != 1:
                    raise Stop()
                val = L.post[vs[0]]
        break
    c.ok(out is not None, rule, s, "%s is auctioned, exactly" % what, key="%s|%s" % (rule, what))
    if out is None:
        raise Stop()
    return out, val


def lp_value(usdc, tokens, sc):
    """value of one backstop token (7 decimals) in the oracle's base"""
    return muldiv("floor", mul(scale(muldiv("floor", mul(usdc, sc), I(S7)), 5), I(S7)), tokens)


def in_lp(value, usdc, tokens, sc):
    """1.4 times a value, in backstop tokens"""
    return muldiv("floor", mul(muldiv("floor", scale(value, 14000000), I(S7)), I(S7)), lp_value(usdc, tokens, sc))


def bstoken():
    return N("call", inst("Backstop"), "backstop_token", (), N("w*"), ty=ADDR)


@prop("C28", ["pool"], opaque_std)
def new_bad_debt(c):
    contracts(c)
    s = c.S("pool", "new_bad_debt_auction")
    cm, bs = s.commit, inst("Backstop")
    key = akey(bs, 1)
    needs(c, "open", s, bnot(has(N("map0", *AU), key)), "there is no bad-debt auction yet")
    liab = pos(bs, 0)
    Ls = [l for l in s.loops if l.depth == 1]
    c.ok(len(Ls) == 1 and same(Ls[0].bound, mlen(liab), Ls[0].reach), "quote", s, "every liability of the backstop is looked at")
    if len(Ls) != 1:
        raise Stop()
    L = Ls[0]
    rid = N("keyat", liab, L.iota, ty="u32")
    x = sel(liab, rid, "i128")
    bid, debt = quoted(c, "quote", s, L, liab, at(reserve_list(), rid, ADDR), lambda R, v=False: fmul("ceil", x, R.d_rate, S9) if v else x, lambda R: lt(I(0), x), "every debt of the backstop")
    c.ok(implies(cm, L.reach), "quote", s, "the debts are looked at on every path")
    c.ok(implies(cm, bnot(isz(mlen(bid)))), "open", s, "there is bad debt to auction")
    sc = oracle_scalar(c, "quote", s, s.ret)
    blnd, q, tokens, usdc = bdata()
    lot = imin(tokens, in_lp(debt, usdc, tokens, sc))
    A = auction(bid, store(N("mapnew", ty=MAI), bstoken(), lot), add(SEQ, I(1)))
    got = sel(final(s, *AU), key, AUT)
    c.ok(same(afld(got, "bid"), bid, cm), "store", s, "the bid is the backstop's debts")
    c.ok(same_map(afld(got, "lot"), afld(A, "lot"), cm), "store", s, "the lot is 1.4 times the debt's value in backstop tokens, at most all of the pool's: %s" % txt(assume(afld(got, "lot"), cm)), key="store|lot")
    c.ok(same(afld(got, "block"), add(SEQ, I(1)), cm), "store", s, "the auction starts in the next block")
    expect_store(c, "store", s, {AU: put(*AU, key, got)})
    c.ok(same(s.ret, got, cm), "store", s, "the auction stored is the one returned")
    event_once(c, "event", s, "new_auction", got, [I(1)])
    calls_only(c, "calls", s, set())


@prop("C29", ["pool"], opaque_std)
def fill_bad_debt(c):
    contracts(c)
    S = Sub(c)
    fill_debt(c, S)
    stored_back(c, "stored", S.s, S.L)


def fill_debt(c, S):
    s = S.s
    F = Fill(c, S, FBAD, "fill")
    V, w = F.V, F.V.w
    bs = V(inst("Backstop"))
    P0 = V.cell(POS)[0]
    c.ok(implies(w, bnot(eq(S.frm, bs))), "open", s, "the backstop cannot fill its own bad debt")
    mine = [V.mus[p] for p in S.pk]
    u = [V(pos(bs, i, P0)) for i in range(3)]
    bid, lot = F.now["bid"], F.now["lot"]
    tok = V(bstoken())
    pay = bal(lot, tok)
    w0 = world_of(F)
    paid = lt(I(0), pay)
    w1 = ite(paid, call_after(w0, bs, "draw", (SELF, pay, S.frm)), w0)
    # what the backstop still owes after the fill
    take = [l for l in walking(s, V, mlen(bid)) if len(inits_of(l, M32)) == 1 and same_map(V(l.inits[inits_of(l, M32)[0]]), u[0], band(w, V.g(l.reach)))]
    c.ok(len(take) == 1, "move", s, "the bid is taken from the backstop's liabilities once")
    if len(take) != 1:
        raise Stop()
    left = V(take[0].post[inits_of(take[0], M32)[0]])
    build = [l for l in walking(s, V, mlen(left)) if inits_of(l, MAI) and not inits_of(l, CACHE_T)]
    direct = [l for l in walking(s, V, mlen(left)) if len(inits_of(l, M32)) == 1 and inits_of(l, CACHE_T) and not inits_of(l, MAI)]
    fused = not build and len(direct) == 1
    build = direct if fused else build
    c.ok(len(build) == 1, "burn", s, "what the backstop still owes is written off in one go (%d)" % len(build))
    if len(build) != 1:
        raise Stop()
    B_ = build[0]
    W = View(B_, bands(w, V.g(B_.reach), V.g(B_.comp), V.g(lt(B_.iota, B_.bound))), *V.fs)
    rid = N("keyat", left, V(B_.iota), ty="u32")
    x = W(sel(left, rid, "i128"))
    asset = W(at(reserve_list(), rid, ADDR))
    bk = inits_of(B_, MAI)
    c.ok(fused or len(bk) == 1 and B_.inits[bk[0]].op == "mapnew" and same_map(W.steps[bk[0]], store(W.mus[bk[0]], asset, x), W.w), "burn", s, "all of each remaining debt is written off")
    burn = ByIndex(left) if fused else V(B_.post[bk[0]])
    es = [e for e in s.effects if e.kind == "event" and topic(e) == "bad_debt"]
    c.ok(len(es) == 1 and es[0].loops[-1][2] is B_.iota and implies(W.w, W.g(es[0].guard)), "burn", es[0] if es else s, "each debt written off is announced")
    for e in es:
        c.ok(same(W(e.data[0].args[2][1]), bs, W.w) and same(W(fld(e.data[1], 0)), asset, W.w) and same(W(fld(e.data[1], 1)), x, W.w), "burn", e, "the write-off names the backstop, the asset and the amount")
    d1 = bdata(w1) if w1.op != "ite" else None
    if d1 is None:
        cd = terms._sel_dd(lambda t: N("call", bs, "pool_data", (SELF,), t, ty=BDT), w1.args[0])
        d1 = [fld(cd, i, "i128") for i in range(4)]
    met = backed(atoms_of(V.g(B_.reach)), V(d1[0]), V(d1[3]), 3, w)
    when = band(bnot(met), bnot(isz(mlen(left))))
    c.ok(sat(band(w, met)) and sat(band(w, when)), "burn", s, "what the backstop still owes is written off when its holdings, after paying the lot, are below 0.0000003 of the threshold")
    ent = V.g(B_.reach)
    c.ok(implies(band(w, ent), when), "burn", s, "debt is written off only when the backstop is nearly empty and still owes", key="burn|only")
    c.ok(implies(band(w, when), ent), "burn", s, "debt of a nearly empty backstop is always written off", key="burn|always")
    T = Shift(c, "move", F, [
        (bid, bs, 0, -1, u[0], None, "taking the bid from the backstop's liabilities"),
        (bid, S.frm, 0, 1, mine[0], None, "adding the bid to the filler's liabilities"),
        (burn, bs, 0, -1, left, None, "writing off the backstop's remaining liabilities", when)])
    after = agg(POST, None, (ite(when, T.post(F, 2), left), u[1], u[2]))
    fill_rest(c, "rest", F, {0: T.post(F, 1)}, {POS: store(P0, bs, after)}, events=("fill_auction", "bad_debt"), world=w1)
    for e in invs_in(F):
        g = band(w, V.g(e.guard))
        c.ok(e.data[2] == "draw" and len(e.loops) == 1 and same(V(e.data[1]), bs, g) and implies(g, paid), "calls", e, "filling a bad-debt auction only draws the lot from the backstop: %s" % effshow(e))


@prop("C30", ["pool"], opaque_std)
def new_interest(c):
    contracts(c)
    s = c.S("pool", "new_interest_auction")
    cm, bs = s.commit, inst("Backstop")
    assets = arg(s, 0)
    key = akey(bs, 2)
    needs(c, "open", s, bnot(has(N("map0", *AU), key)), "there is no interest auction yet")
    Ls = [l for l in s.loops if l.depth == 1]
    c.ok(len(Ls) == 1 and same(Ls[0].bound, vlen(assets), Ls[0].reach), "quote", s, "every asset asked for is looked at")
    if len(Ls) != 1:
        raise Stop()
    L = Ls[0]
    lot, value = quoted(c, "quote", s, L, None, at(assets, L.iota, ADDR), lambda R, v=False: R.credit, lambda R: lt(I(0), R.credit), "all of the backstop's credit in an asset")
    c.ok(implies(cm, L.reach), "quote", s, "the assets are looked at on every path")
    sc = oracle_scalar(c, "quote", s, s.commit)
    c.ok(implies(cm, lt(scale(sc, 200), value)), "open", s, "an interest auction needs interest worth more than 200 of the base asset")
    blnd, q, tokens, usdc = bdata()
    got = sel(final(s, *AU), key, AUT)
    bid = store(N("mapnew", ty=MAI), bstoken(), in_lp(value, usdc, tokens, sc))
    c.ok(same(afld(got, "lot"), lot, cm), "store", s, "the lot is the backstop's credit")
    c.ok(same_map(afld(got, "bid"), bid, cm), "store", s, "the bid is 1.4 times the interest's value in backstop tokens: %s" % txt(assume(afld(got, "bid"), cm)), key="store|bid")
    c.ok(same(afld(got, "block"), add(SEQ, I(1)), cm), "store", s, "the auction starts in the next block")
    expect_store(c, "store", s, {AU: put(*AU, key, got)})
    c.ok(same(s.ret, got, cm), "store", s, "the auction stored is the one returned")
    event_once(c, "event", s, "new_auction", got, [I(2)])
    calls_only(c, "calls", s, set())


@prop("C31", ["pool"], opaque_std)
def fill_interest(c):
    contracts(c)
    S = Sub(c)
    fill_credit(c, S)
    stored_back(c, "stored", S.s, S.L)


def fill_credit(c, S):
    s = S.s
    F = Fill(c, S, FINT, "fill")
    V, w = F.V, F.V.w
    bs = V(inst("Backstop"))
    c.ok(implies(w, bnot(eq(S.frm, bs))), "open", s, "the backstop cannot fill its own auction")
    bid, lot = F.now["bid"], F.now["lot"]
    due = bal(bid, V(bstoken()))
    Ls = [l for l in walking(s, V, mlen(lot)) if inits_of(l, CACHE_T)]
    c.ok(len(Ls) == 1 and implies(w, V.g(Ls[0].reach)), "lot", s, "every lot entry is paid out, once")
    if len(Ls) != 1:
        raise Stop()
    L2 = Ls[0]
    ck, tk = inits_of(L2, CACHE_T)[0], inits_of(L2, ADDRS)[0]
    i = L2.iota
    asset = N("keyat", lot, i, ty=ADDR)
    W = View(L2, bands(w, V.g(L2.reach), V.g(L2.comp), V.g(lt(i, L2.bound))), *V.fs)
    W = W.also(Filed(W.mus[ck]))
    asset = W(asset)
    amt = W(sel(lot, asset, "i128"))
    C = Cached(W.mus[ck], asset)
    W = W.also(C.norm)
    C = Under(C, W)
    c.ok(sat(W.w), "lot", s, "a lot entry can be paid out")
    c.ok(same_map(W.steps[ck], store(W.mus[ck], asset, C.make(backstop_credit=sub(C.backstop_credit, amt))), W.w), "lot", s,
         "the reserve's backstop credit falls by exactly the lot taken, and nothing else of it changes: %s" % txt(assume(W.steps[ck], W.w)), key="lot|credit")
    listed(c, "lot", s, W.mus[tk], W.steps[tk], asset, W.w)
    for k in L2.steps:
        if k in (ck, tk) or k[0] == "world" or same(L2.steps[k], add(i, I(1))):
            continue
        c.ok(same(W.steps[k], W.mus[k], W.w), "lot", s, "paying out a lot entry changes nothing else", key="lot|frame")
    chained(c, "lot", s, [(V(L2.inits[ck]), V.mus[S.ck]), (V(L2.inits[tk]), V.mus[S.tk]), (V.steps[S.ck], V(L2.post[ck])), (V.steps[S.tk], V(L2.post[tk]))], w,
            "filling an interest auction changes no reserve but through its lot")
    for dc in (ED, UE):
        chained(c, "rest", s, [V.cell(dc)], w, "filling an interest auction leaves emissions alone")
    fill_rest(c, "rest", F, {}, {}, world="any")
    don = pay = 0
    for e in invs_in(F):
        g = band(w, V.g(e.guard))
        if e.data[2] == "donate" and len(e.loops) == 1:
            a = [V(x) for x in e.data[3]]
            c.ok(same(V(e.data[1]), bs, g) and same(a[0], S.frm, g) and a[1] is SELF and same(a[2], due, g) and not sat(band(don, g)), "calls", e, "the filler donates exactly the bid to the backstop, for this pool: %s" % effshow(e), key="calls|donate")
            c.ok(implies(g, lt(I(0), due)), "calls", e, "an empty bid is not donated")
            don = bor(don, g)
        elif e.data[2] == "transfer" and len(e.loops) == 2 and e.loops[1][2] is i:
            g = W.g(e.guard)
            a = [W(x) for x in e.data[3]]
            g = band(W.w, g)
            c.ok(same(W(e.data[1]), asset, g) and a[0] is SELF and same(a[1], S.frm, g) and same(a[2], amt, g) and not sat(band(pay, g)), "calls", e, "exactly the lot is paid to the filler: %s" % effshow(e), key="calls|transfer")
            pay = bor(pay, g)
        else:
            c.ok(False, "calls", e, "filling an interest auction makes no other call: %s" % effshow(e))
    c.ok(implies(band(w, lt(I(0), due)), don), "calls", s, "the bid is always donated")
    c.ok(implies(W.w, pay), "calls", s, "every lot entry is paid")


@prop("C32", ["pool"], opaque_std)
def auction_lifecycle(c):
    contracts(c)
    S = Sub(c)
    s = S.s
    V = S.view(DEL)
    w = V.w
    m0, m1 = V.cell(AU)
    key = akey(S.frm, 0)
    c.ok(sat(w), "delete", s, "a liquidation can be deleted")
    c.ok(implies(w, has(m0, key)), "delete", s, "only an existing liquidation of the user itself is deleted")
    c.ok(same_map(m1, delete(m0, key), w), "delete", s, "deleting a liquidation removes exactly the user's own: it leaves %s" % txt(assume(m1, w)), key="delete|store")
    for k in V.steps:
        if k[0] == ("st",) + AU or k in S.flag or same(S.L.steps[k], add(S.L.iota, I(1))):
            continue
        c.ok(same(V.steps[k], V.mus[k], w), "delete", s, "deleting a liquidation changes nothing else", key="delete|frame|" + txt_key(k))
    tot = 0
    for e in s.effects:
        if e.kind == "event" and e.loops and e.loops[0][2] is S.L.iota:
            g = band(w, V.g(e.guard))
            if not sat(g):
                continue
            t = e.data[0].args[2]
            c.ok(topic(e) == "delete_liquidation_auction" and same(V(t[1]), S.frm, g), "delete", e, "a deletion is announced for the user, and nothing else: %s" % effshow(e))
            tot = bor(tot, g)
    c.ok(implies(w, tot), "delete", s, "a deletion is announced")
    # who may change auctions at all
    only_writers(c, "writers", "pool", AU[1], {"submit", "new_liquidation_auction", "new_bad_debt_auction", "new_interest_auction"})
    w = band(S.w, lt(S.typ, I(FLIQ)))
    V = View(S.L, w)
    m0, m1 = V.cell(AU)
    c.ok(same_map(m1, m0, V.w), "writers", s, "requests that neither fill nor delete leave every auction as it is")
    for n, k in (("new_liquidation_auction", 0), ("new_bad_debt_auction", 1), ("new_interest_auction", 2)):
        x = c.S("pool", n)
        user = arg(x, 0) if k == 0 else inst("Backstop")
        m = N("map0", *AU)
        needs(c, "create", x, bnot(has(m, akey(user, k))), "an auction is never replaced by a new one")
        got = final(x, *AU)
        c.ok(same_map(got, store(m, akey(user, k), sel(got, akey(user, k), AUT)), x.commit), "create", x, "%s creates that auction only" % n)
        c.ok(same(afld(sel(got, akey(user, k), AUT), "block"), add(SEQ, I(1)), x.commit), "create", x, "an auction starts in the block after its creation")
    g = c.S("pool", "get_auction")
    kk = agg(AUK, None, tuple({"auct_type": arg(g, 0), "user": arg(g, 1)}[f] for f, _ in terms._STRUCT_FIELDS[AUK]))
    c.ok(same(g.ret, sel(N("map0", *AU), kk, AUT), g.commit), "view", g, "get_auction reports the stored auction")
