from core import *
from spec import *
from rules.r_pool import *
from rules.r_health import reserve_list

M64 = "soroban_sdk::Map<u32, u64>"
META = "emissions::manager::ReserveEmissionMetadata"


def walk(c, rule, s, bound, what):
    Ls = [L for L in s.loops if L.depth == 1 and sat(L.reach) and same(L.bound, bound, L.reach)]
    c.ok(len(Ls) == 1, rule, s, what)
    if len(Ls) != 1:
        raise Stop()
    return Ls[0]


def totals(V, L):
    """the running sums of a walk"""
    return [k for k in L.steps if is_int(L.inits[k]) and same(L.inits[k], I(0)) and is_int(V.mus[k]) and L.steps[k] != add(L.iota, I(1))]


def cases(w, *gs):
    """w split on every given guard"""
    out = [w]
    for g in gs:
        out = [x for y in out for x in (band(y, g), band(y, bnot(g))) if sat(x)]
    return out


def grows(V, k, gain, w):
    return all(same(sub(assume(V.steps[k], g), V.mus[k]), assume(gain, g), g) for g in w)


@prop("C33", ["pool"])
def claim(c):
    s = c.S("pool", "claim")
    who, ids, to = [arg(s, i) for i in range(3)]
    cm = s.commit
    needs(c, "auth", s, auth(who), "the claimer authorised the claim")
    L = walk(c, "walk", s, vlen(ids), "the listed reserve tokens are walked once")
    i = L.iota
    rid = at(ids, i, "u32")
    w = bands(L.reach, L.comp, L.back_pc, lt(i, L.bound))
    lst = reserve_list()
    c.ok(sat(w), "walk", s, "a reserve token can be claimed")
    tot = None
    for kind in (0, 1):
        # every id is 2 * index + kind
        idx = N("sym", "index", ty="u32")
        V = View(L, bands(w, le(I(0), rid)), terms.Subst({rid: add(scale(idx, 2), I(kind))}))
        k = V.w
        rd = add(scale(idx, 2), I(kind))
        nm = ("debt", "supply")[kind]
        c.ok(implies(k, lt(idx, vlen(lst))), "walk", s, "only tokens of listed reserves can be claimed")
        asset = at(lst, idx, ADDR)
        bl = bal(pos(who, 0), idx) if kind == 0 else add(bal(pos(who, 1), idx), bal(pos(who, 2), idx))
        sup = rdat(asset)[4 if kind == 0 else 3]
        sc = power(I(10), rcfg(asset)[1])
        ed0, ed1 = V.cell(ED)
        ue0, ue1 = V.cell(UE)
        E = PEmis(rd, sup, sc, ed0)
        m = E.user(who, bl, claim=True, m=ue0)
        k = bands(k, E.wf(), E.mono, le(I(0), bl), le(I(0), sup), lt(I(0), sc))
        c.ok(sat(k), "step", s, "%s tokens can be claimed" % nm)
        for g, what in ((E.on, "with emissions"), (bnot(E.on), "without emissions"), (band(E.on, bnot(E.skip)), "while emissions run")):
            c.ok(sat(band(k, g)), "step", s, "%s tokens %s can be claimed" % (nm, what))
        c.ok(same_map(ed1, E.data_map, k), "index", s, "claiming %s tokens must bring the emission index up to date; it leaves %s" % (nm, txt(assume(ed1, k))), key="index|" + nm)
        c.ok(same_map(ue1, m, k), "user", s, "claiming %s tokens must settle the user at that index and zero what accrued; it leaves %s" % (nm, txt(assume(ue1, k))), key="user|" + nm)
        held = [has(N("map0", *POS), who)] + [has(pos(who, j), idx) for j in ((0,) if kind == 0 else (1, 2))]
        parts = cases(k, *held, E.on, E.skip, has(ue0, uekey(who, rd)), isz(bl))
        ts = [x for x in totals(V, L) if grows(V, x, E.due, parts)]
        c.ok(len(ts) >= 1, "total", s, "the claimed total must grow by exactly what accrued on %s tokens" % nm, key="total|" + nm)
        if not ts:
            raise Stop()
        tot = ts if tot is None else [t for t in tot if t in ts]
    c.ok(len(tot) == 1, "total", s, "one total counts both kinds of token")
    if not tot:
        raise Stop()
    total = L.post[tot[0]]
    call_once(c, "pay", s, "transfer_from", inst("BLNDTkn"), (SELF, inst("Backstop"), to, total), when=lt(I(0), total))
    calls_only(c, "pay", s, {"transfer_from"})
    for e in effs(s, "inv"):
        c.ok(not sat(bands(cm, e.guard, le(total, I(0)))), "pay", e, "nothing is paid when nothing accrued")
    c.ok(same(s.ret, total, cm), "report", s, "claim returns exactly what it paid")
    event_once(c, "report", s, "claim", agg("tuple", None, (ids, total)), (who,))
    for e in s.effects:
        if e.kind in ("write", "del") and sat(band(cm, e.guard)):
            c.ok((e.data[0], e.data[1]) in (ED, UE), "frame", e, "claim changes nothing but emission bookkeeping")
    expect_frame(c, s, L, {ED, UE})


def expect_frame(c, s, L, cells):
    for dc in cells:
        k = [x for x in L.post if x[0] == ("st",) + dc]
        f = final(s, *dc)
        c.ok(bool(k) and (same(f, L.post[k[0]], s.commit) or same_map(f, L.post[k[0]], s.commit)), "frame", s, "%s leaves %s as the walk left it" % (s.entry, dc[1]), key="frame|" + dc[1])
        c.ok(bool(k) and same(L.inits[k[0]], N("map0", *dc)), "frame", s, "%s starts from the stored %s" % (s.entry, dc[1]), key="frame0|" + dc[1])


@prop("C34", ["pool"])
def settlement(c):
    """how the index and a user's accrual move, and who may move them"""
    settle_contract(c)
    only_writers(c, "writers", "pool", EC[1], {"gulp_emissions"})
    only_writers(c, "writers", "pool", PE[1], {"set_emissions_config"})
    only_writers(c, "writers", "pool", ED[1], {"gulp_emissions", "claim", "submit", "bad_debt", "new_liquidation_auction"})
    only_writers(c, "writers", "pool", UE[1], {"claim", "submit", "bad_debt", "new_liquidation_auction"})


@prop("C35", ["pool"])
def gulp(c):
    s = c.S("pool", "gulp_emissions")
    cm = s.commit
    call_once(c, "draw", s, "gulp_pool_emissions", inst("Backstop"), (SELF,))
    new = [e for e in effs(s, "inv") if sat(band(cm, e.guard))]
    c.ok(len(new) == 1, "draw", s, "the emissions are drawn by one call")
    new = N("ret", inst("Backstop"), "gulp_pool_emissions", new[0].data[3], N("w0"), ty="i128")
    c.ok(same(s.ret, new, cm), "report", s, "gulp_emissions returns what was drawn")
    needs(c, "least", s, le(I(S7), new), "at least one whole token must be drawn")
    PEmap = ite(has(N("map0", *PE), UNIT), sel(N("map0", *PE), UNIT, M64), N("mapnew", ty=M64))
    L = walk(c, "walk", s, mlen(PEmap), "every entry of the emission split is visited once")
    i = L.iota
    idx = N("sym", "index", ty="u32")
    lst = reserve_list()
    key = N("keyat", PEmap, i, ty="u32")
    w = bands(L.reach, L.comp, L.back_pc, lt(i, L.bound))
    c.ok(sat(w), "walk", s, "emissions can be gulped")
    for kind in (0, 1):
        nm = ("debt", "supply")[kind]
        rd = add(scale(idx, 2), I(kind))
        V = View(L, w, terms.Subst({key: rd}))
        share = sel(PEmap, rd, "u64")
        asset = at(lst, idx, ADDR)
        ed0, ed1 = V.cell(ED)
        ec0, ec1 = V.cell(EC)
        sup = rdat(asset)[4 if kind == 0 else 3]
        E = PEmis(rd, sup, power(I(10), rcfg(asset)[1]), ed0, ec0)
        k = bands(V.w, E.wf(), le(I(0), sup), le(I(0), share), le(I(S7), V(new)))
        c.ok(implies(V.w, lt(idx, vlen(lst))), "walk", s, "only listed reserves receive emissions")
        for g, what in ((bnot(E.on), "for the first time"), (band(E.on, lt(NOW, E.exp)), "before the last schedule ended"), (band(E.on, le(E.exp, NOW)), "after the last schedule ended")):
            c.ok(sat(band(k, g)), "step", s, "%s tokens can receive emissions %s" % (nm, what))
        left = ite(band(E.on, lt(NOW, E.exp)), mul(E.eps, sub(E.exp, NOW)), I(0))
        eps = muldiv("trunc", add(fmul("floor", share, V(new), I(S7)), left), I(WEEK))
        exp = add(NOW, I(WEEK))
        want = store(ed0, rd, agg(EDT, None, (ite(E.on, E.idx, I(0)), NOW)))
        c.ok(same_map(ed1, want, k), "index", s, "%s tokens: the index is settled under the old schedule up to now (new tokens start at 0); it leaves %s" % (nm, txt(assume(ed1, k))), key="index|" + nm)
        c.ok(same_map(ec1, store(ec0, rd, agg(ECT, None, (exp, eps))), k), "schedule", s, "%s tokens: the new rate spreads the share and what the old schedule still owed over a week; it stores %s" % (nm, txt(assume(ec1, k))), key="schedule|" + nm)
        es = [e for e in effs(s, "event") if topic(e) == "reserve_emission_update"]
        c.ok(len(es) > 0, "report", s, "each new schedule is announced")
        tot = 0
        for e in es:
            g = V.g(e.guard)
            c.ok(not sat(bands(k, g, tot)), "report", e, "a schedule is announced once")
            tot = bor(tot, g)
            c.ok(same(V(e.data[1]), agg("tuple", None, (rd, eps, exp)), band(k, g)), "report", e, "the announcement names the token, its rate and its expiry")
        c.ok(implies(k, tot), "report", s, "each new schedule is announced", key="announced|" + nm)
    event_once(c, "report", s, "update_emissions", new)
    for e in s.effects:
        if e.kind in ("write", "del") and sat(band(cm, e.guard)):
            c.ok((e.data[0], e.data[1]) in (ED, EC), "frame", e, "gulp_emissions changes nothing but emission schedules and indexes")
    expect_frame(c, s, L, (ED, EC))


@prop("C36", ["pool"])
def emission_config(c):
    s = c.S("pool", "set_emissions_config")
    cm = s.commit
    v = arg(s, 0)
    needs(c, "auth", s, auth(inst("Admin")), "the admin authorised the emission split")
    L = walk(c, "walk", s, vlen(v), "every listed share is visited once")
    w = bands(L.reach, L.comp, L.back_pc, lt(L.iota, L.bound))
    c.ok(sat(w), "walk", s, "a split can be set")
    x = at(v, L.iota, "emissions::manager::ReserveEmissionMetadata")
    idx, kind, share = [fld(x, j, t) for j, t in ((0, "u32"), (1, "u32"), (2, "u64"))]
    c.ok(implies(band(w, le(I(0), kind)), le(kind, I(1))), "type", s, "a share is for a reserve's debt (0) or supply (1)")
    c.ok(implies(w, lt(idx, vlen(reserve_list()))), "listed", s, "a share is for a listed reserve")
    for g, what in ((eq(kind, I(0)), "debt"), (eq(kind, I(1)), "supply")):
        c.ok(sat(band(w, g)), "type", s, "a share can be for a reserve's %s" % what)
    V = View(L, w)
    k = bands(V.w, le(I(0), share), le(I(0), idx), le(I(0), kind))
    key = add(scale(idx, 2), kind)
    sums = [t for t in totals(V, L) if same(V.steps[t], add(V.mus[t], share), k)]
    c.ok(len(sums) == 1, "total", s, "the shares are added up")
    maps = [t for t in L.steps if L.inits[t].op == "mapnew" and same_map(V.steps[t], store(V.mus[t], key, share), k)]
    c.ok(len(maps) == 1, "split", s, "each share is filed under 2 * index + type")
    if len(sums) != 1 or len(maps) != 1:
        raise Stop()
    needs(c, "total", s, le(L.post[sums[0]], I(S7)), "the shares add up to at most 1")
    c.ok(sat(bands(cm, eq(L.post[sums[0]], I(S7)))), "total", s, "shares adding up to 1 are accepted")

    expect_store(c, "store", s, {PE: put(PE[0], PE[1], UNIT, L.post[maps[0]])})
    calls_only(c, "frame", s, set())
