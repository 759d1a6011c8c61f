"""C46: a reserve's share totals and the shares held move together"""
from core import *
from spec import *
from rules.r_pool import *
from rules.r_submit import *
from rules.r_health import *
from rules.r_auction import fill_positions, fill_debt, fill_credit


@prop("C46", ["pool"], opaque_std)
def totals(c):
    contracts(c)
    only_writers(c, "writers", "pool", POS[1], {"submit", "bad_debt"})
    only_writers(c, "writers", "pool", RD[1], {"submit", "bad_debt", "set_reserve"})
    S = Sub(c)
    s = S.s
    # plain requests: the totals move by what the user's balances of that reserve move by
    for k in range(6):
        T = S.step(k)
        V, C, idx, w = T.V, T.C, T.idx, T.w
        c.ok(sat(w), "request", s, "a %s request can be carried out" % NAMES[k])
        got = sel(V.steps[S.ck], T.addr, RES)
        new = [V.steps[p] for p in S.pk]
        d = [sub(bal(m, idx), b) for m, b in zip(new, T.b)]
        for n, moved, what in (("d_supply", d[0], "debt"), ("b_supply", add(d[1], d[2]), "supply")):
            g = rfld(got, n)
            want = add(getattr(C, n), moved)
            c.ok(same(g, want, w), "request", s, "%s: the reserve's %s total must become %s, as the user's balances do; it becomes %s" % (
                NAMES[k], what, txt(assume(want, w)), txt(assume(g, w))), key="request|%s|%s" % (NAMES[k], what))
        for i, (m, o) in enumerate(zip(new, T.mine)):
            want = ite(has(m, idx), store(o, idx, sel(m, idx, "i128")), delete(o, idx))
            c.ok(same_map(m, want, w), "request", s, "%s changes no balance but the one of its reserve" % NAMES[k], key="request|%s|other|%d" % (NAMES[k], i))
        want = store(V.mus[S.ck], T.addr, got)
        c.ok(same_map(V.steps[S.ck], want, w), "request", s, "%s changes no reserve but its own" % NAMES[k], key="request|%s|reserves" % NAMES[k])
        listed(c, "request", s, V.mus[S.tk], V.steps[S.tk], T.addr, w)
        c.ok(same(V.cell(POS)[1], V.cell(POS)[0], w), "request", s, "%s stores nobody else's positions" % NAMES[k], key="request|%s|pos" % NAMES[k])
    # fills: every entry moved changes the totals by the same amount; deleting an auction moves nothing
    fill_positions(c, S)
    fill_debt(c, S)
    fill_credit(c, S)
    V = S.view(DEL)
    for k in [S.ck] + S.pk:
        c.ok(same(V.steps[k], V.mus[k], V.w), "request", s, "deleting an auction moves no shares", key="request|delete")
    stored_back(c, "stored", s, S.L)
    want = agg(POST, None, tuple(S.L.post[k] for k in S.pk))
    c.ok(same(sel(final(s, *POS), S.frm, POST), want, s.commit), "stored", s, "the user's resulting positions are stored")
    for i, k in enumerate(S.pk):
        c.ok(same(S.L.inits[k], pos(S.frm, i), s.commit), "stored", s, "the walk starts from the user's stored positions")
    # bad debt moves from the user to the backstop
    b = c.S("pool", "bad_debt")
    user, bs = arg(b, 0), inst("Backstop")
    debt_moves(c, b, user, bs, pos(user, 0), pos(user, 1))
    # a reserve starts with no shares, and reconfiguring one moves none
    s = c.S("pool", "set_reserve")
    asset = arg(s, 0)
    m = N("map0", *RD)
    f = final(s, *RD)
    old = has(N("map0", *RC), asset)
    for nm in ("b_supply", "d_supply"):
        i_ = [n for n, _ in terms._STRUCT_FIELDS[RDT]].index(nm)
        now, was = fld(sel(f, asset, RDT), i_, "i128"), fld(sel(m, asset, RDT), i_, "i128")
        c.ok(same(now, was, band(s.commit, old)), "reserve", s, "reconfiguring a reserve keeps its %s" % nm, key="reserve|keep|" + nm)
        c.ok(same(now, I(0), band(s.commit, bnot(old))), "reserve", s, "a new reserve starts with %s 0" % nm, key="reserve|new|" + nm)
    c.ok(same_map(f, store(m, asset, sel(f, asset, RDT)), s.commit), "reserve", s, "set_reserve touches that reserve only")
    cf, l0 = final(s, *RC), reserve_list()
    oldi = fld(sel(N("map0", *RC), asset, RCT), 0, "u32")
    c.ok(same(fld(sel(cf, asset, RCT), 0, "u32"), ite(old, oldi, vlen(l0)), s.commit), "reserve", s, "a reserve keeps its index; a new one takes the next free one", key="reserve|index")
