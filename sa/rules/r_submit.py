from core import *
from spec import *
from rules.r_pool import *
from rules import r_pool

REQ = "pool::actions::Request"
MAI = "soroban_sdk::Map<soroban_sdk::Address, i128>"
SUP, WD, SUPC, WDC, BOR, REP, FLIQ, FBAD, FINT, DEL = range(10)
NAMES = ("supply", "withdraw", "supply_collateral", "withdraw_collateral", "borrow", "repay", "fill_auction", "fill_auction", "fill_auction", "delete_liquidation_auction")


class Sub:
    """the walk over the requests of a submit call, with its variables identified by where they start and where they end"""

    def __init__(self, c, rule="walk"):
        s = self.s = c.S("pool", "submit")
        self.c = c
        self.frm, self.spender, self.to, self.reqs = [arg(s, i) for i in range(4)]
        Ls = [L for L in s.loops if L.depth == 1 and same(L.bound, vlen(self.reqs)) and inits_of(L, CACHE_T)]
        c.ok(len(Ls) == 1, rule, s, "the requests are walked once, in order")
        if len(Ls) != 1:
            raise Stop()
        L = self.L = Ls[0]
        r = self.r = at(self.reqs, L.iota, REQ)
        f = [n for n, _ in terms._STRUCT_FIELDS[REQ]]
        self.typ, self.addr, self.amt = fld(r, f.index("request_type"), "u32"), fld(r, f.index("address"), ADDR), fld(r, f.index("amount"), "i128")
        self.ck = self.one(inits_of(L, CACHE_T), "cache of reserves", rule)
        self.tk = self.one([k for k in inits_of(L, ADDRS)], "list of reserves to store", rule)
        m32 = inits_of(L, M32)
        self.pk = [self.one([k for k in m32 if L.inits[k] is pos(self.frm, i) or same(L.inits[k], pos(self.frm, i), s.commit)],
                            ("liabilities", "collateral", "supply")[i] + " of the user", rule) for i in range(3)]
        maps = inits_of(L, MAI)
        tin = [e for e in effs(s, "inv", method="transfer") if len(e.loops) == 1 and same(e.data[3][0], self.spender, e.guard)
               and not same(e.data[3][0], SELF, e.guard)]
        tout = [e for e in effs(s, "inv", method="transfer") if len(e.loops) == 1 and same(e.data[3][0], SELF, e.guard) and e.loops[0][2] is not L.iota]
        self.tin, self.tout = tin, tout
        self.ik = self.one([k for k in maps if tin and same(tin[0].loops[0][1], mlen(L.post[k]))], "tokens to collect", rule)
        self.ok_ = self.one([k for k in maps if tout and same(tout[0].loops[0][1], mlen(L.post[k]))], "tokens to pay out", rule)
        self.other = [k for k in L.steps if k not in [self.ck, self.tk, self.ik, self.ok_] + self.pk and not same(L.steps[k], add(L.iota, I(1)))]
        # the health flag: the remaining plain variable
        self.flag = [k for k in self.other if type(k[0]) is int]
        self.w = bands(L.reach, L.comp, lt(L.iota, L.bound))

    def one(self, ks, what, rule):
        self.c.ok(len(ks) == 1, rule, self.s, "submit tracks the %s" % what)
        if len(ks) != 1:
            raise Stop()
        return ks[0]

    def step(self, k):
        """the walk's step for a request of type k on one reserve"""
        C = Cached(self.L.mus[self.ck], self.addr)
        return Step(self, k, C, self.view(k, C.norm))

    def view(self, k, *norms):
        """the walk's step for a request of type k"""
        return View(self.L, band(self.w, eq(self.typ, I(k))), terms.Subst({self.typ: I(k)}), *norms)


class Step:
    def __init__(self, S, k, C, V):
        self.S, self.k, self.V = S, k, V
        self.C = Under(C, V)
        self.w = V.w
        self.addr, self.amt = V(S.addr), V(S.amt)
        self.idx = self.C.index
        self.mine = [V.mus[p] for p in S.pk]
        self.b = [bal(m, self.idx) for m in self.mine]
        self.events = [e for e in S.s.effects if e.kind == "event" and any(l[2] is S.L.iota for l in e.loops) and sat(band(V.w, V.g(e.guard)))]

    def collect(self, amt):
        m = self.V.mus[self.S.ik]
        return store(m, self.addr, add(amt, bal(m, self.addr)))

    def pay(self, amt):
        m = self.V.mus[self.S.ok_]
        return store(m, self.addr, add(amt, bal(m, self.addr)))

    def check(self, c, rule, pos_=None, cache=None, tin=None, tout=None, settles=None, flag=False, event=None, also=(), why=""):
        S, V, s, w, L = self.S, self.V, self.S.s, self.w, self.S.L
        n = NAMES[self.k]
        c.ok(sat(w), rule, s, "a %s request can be carried out" % n)
        pos_ = pos_ or {}
        for i, nm in enumerate(("liabilities", "collateral", "supply")):
            want = pos_.get(i, self.mine[i])
            c.ok(same_map(V.steps[S.pk[i]], want, w), rule, s, "%s must leave the user's %s = %s; it leaves %s" % (
                n, nm, txt(assume(want, w)), txt(assume(V.steps[S.pk[i]], w))), key="%s|%s|%s" % (rule, n, nm))
        want = store(V.mus[S.ck], self.addr, self.C.make(**(cache or {})))
        c.ok(same_map(V.steps[S.ck], want, w), rule, s, "%s must leave the reserve %s; it leaves %s" % (
            n, txt(assume(want, w)), txt(assume(V.steps[S.ck], w))), key="%s|%s|reserve" % (rule, n))
        listed(c, rule, s, V.mus[S.tk], V.steps[S.tk], self.addr, w)
        for k, want, nm in ((S.ik, tin, "collects"), (S.ok_, tout, "pays out")):
            want = V.mus[k] if want is None else want
            c.ok(same_map(V.steps[k], want, w), rule, s, "%s %s %s, not %s" % (n, nm, txt(assume(V.steps[k], w)), txt(assume(want, w))), key="%s|%s|%s" % (rule, n, nm))
        if settles is not None:
            ed0, ed1 = V.cell(ED)
            ue0, ue1 = V.cell(UE)
            E = settle(settles[0], settles[1], self.C.scalar, S.frm, settles[2], ed0, ue0)
            c.ok(same_map(ed1, E.ed, w), rule, s, "%s: the reserve token's emissions are brought up to date before the balance changes" % n, key="%s|%s|emis" % (rule, n))
            c.ok(same_map(ue1, E.ue, w), rule, s, "%s: the user's emissions are settled at the old balance" % n, key="%s|%s|uemis" % (rule, n))
        done = {("st",) + ED, ("st",) + UE} if settles is not None else set()
        for k in S.other:
            if k[0] in done or k in S.flag:
                continue
            c.ok(same(V.steps[k], V.mus[k], w) or same_map(V.steps[k], V.mus[k], w), rule, s, "%s must not change %s" % (n, k[0] if type(k[0]) is not int else "other state"),
                 key="%s|%s|frame|%s" % (rule, n, k[0] if type(k[0]) is not int else ""))
        if event is not None:
            good = [e for e in self.events if topic(e) == event[0]]
            c.ok(len(good) == len(self.events), rule, (self.events or [s])[0], "%s is announced as %s and nothing else" % (n, event[0]))
            tot = 0
            for e in good:
                g = band(w, V.g(e.guard))
                tot = bor(tot, g)
                t, d = e.data[0].args[2][1:], e.data[1]
                okk = len(t) == len(event[1]) and all(same(V(x), y, g) for x, y in zip(t, event[1])) and all(same(V(fld(d, i)), y, g) for i, y in enumerate(event[2]))
                c.ok(okk, rule, e, "%s is announced with the exact amounts: %s" % (n, effshow(e)), key="%s|%s|event" % (rule, n))
            c.ok(implies(w, tot), rule, s, "%s is announced" % n, key="%s|%s|announced" % (rule, n))


@prop("C19", ["pool"], opaque_std)
def supply_withdraw(c):
    contracts(c)
    S = Sub(c)
    for k, i in ((SUP, 2), (SUPC, 1)):
        T = S.step(k)
        C, idx = T.C, T.idx
        mint = fdiv("floor", T.amt, C.b_rate, S9)
        held = add(T.b[1], T.b[2])
        T.check(c, "supply", {i: store(T.mine[i], idx, add(T.b[i], mint))}, dict(b_supply=add(C.b_supply, mint)), tin=T.collect(T.amt),
                settles=(add(scale(idx, 2), I(1)), C.b_supply, held), event=(NAMES[k], (T.addr, S.frm), (T.amt, mint)))
        c.ok(implies(T.w, bnot(isz(mint))), "supply", S.s, "%s never mints zero shares" % NAMES[k])
        c.ok(implies(T.w, le(I(0), T.amt)), "supply", S.s, "%s never takes a negative amount" % NAMES[k])
    for k, i in ((WD, 2), (WDC, 1)):
        T = S.step(k)
        C, idx = T.C, T.idx
        up = fdiv("ceil", T.amt, C.b_rate, S9)
        capped = lt(T.b[i], up)
        burn = ite(capped, T.b[i], up)
        out = ite(capped, fmul("floor", T.b[i], C.b_rate, S9), T.amt)
        held = add(T.b[1], T.b[2])
        T.check(c, "withdraw", {i: setbal(T.mine[i], idx, sub(T.b[i], burn))}, dict(b_supply=sub(C.b_supply, burn)), tout=T.pay(out),
                settles=(add(scale(idx, 2), I(1)), C.b_supply, held), event=(NAMES[k], (T.addr, S.frm), (out, burn)))
        c.ok(implies(T.w, bnot(isz(burn))), "withdraw", S.s, "%s never burns zero shares" % NAMES[k])
        c.ok(implies(T.w, le(I(0), T.amt)), "withdraw", S.s, "%s never takes a negative amount" % NAMES[k])
        c.ok(sat(band(T.w, capped)), "withdraw", S.s, "%s may name more than the balance and then pays the whole balance" % NAMES[k])
    stored_back(c, "stored", S.s, S.L)


@prop("C20", ["pool"], opaque_std)
def borrow_repay(c):
    contracts(c)
    S = Sub(c)
    T = S.step(BOR)
    C, idx = T.C, T.idx
    mint = fdiv("ceil", T.amt, C.d_rate, S9)
    ds = add(C.d_supply, mint)
    T.check(c, "borrow", {0: store(T.mine[0], idx, add(T.b[0], mint))}, dict(d_supply=ds), tout=T.pay(T.amt),
            settles=(scale(idx, 2), C.d_supply, T.b[0]), event=("borrow", (T.addr, S.frm), (T.amt, mint)))
    c.ok(implies(T.w, bnot(isz(mint))), "borrow", S.s, "borrow never mints zero debt shares")
    util = fdiv("ceil", fmul("ceil", ds, C.d_rate, S9), fmul("floor", C.b_supply, C.b_rate, S9), S7)
    c.ok(implies(T.w, le(util, C.max_util)), "borrow", S.s, "a borrow leaves the reserve's utilisation at or below its maximum")
    c.ok(implies(T.w, le(I(0), T.amt)), "borrow", S.s, "borrow never takes a negative amount")
    T = S.step(REP)
    C, idx = T.C, T.idx
    down = fdiv("floor", T.amt, C.d_rate, S9)
    capped = lt(T.b[0], down)
    burn = ite(capped, T.b[0], down)
    owed = fmul("ceil", T.b[0], C.d_rate, S9)
    refund = sub(T.amt, owed)
    paid = ite(capped, owed, T.amt)
    T.check(c, "repay", {0: setbal(T.mine[0], idx, sub(T.b[0], burn))}, dict(d_supply=sub(C.d_supply, burn)), tin=T.collect(T.amt),
            tout=ite(capped, T.pay(refund), T.V.mus[S.ok_]),
            settles=(scale(idx, 2), C.d_supply, T.b[0]), event=("repay", (T.addr, S.frm), (paid, burn)))
    c.ok(implies(T.w, bnot(isz(burn))), "repay", S.s, "repay never burns zero debt shares")
    c.ok(implies(band(T.w, capped), le(I(0), refund)), "repay", S.s, "a refund is never negative")
    c.ok(implies(T.w, le(I(0), T.amt)), "repay", S.s, "repay never takes a negative amount")
    stored_back(c, "stored", S.s, S.L)


@prop("C21", ["pool"], opaque_std)
def submit_moves(c):
    contracts(c)
    S = Sub(c)
    s, L = S.s, S.L
    needs(c, "auth", s, auth(S.spender), "the spender authorised the call")
    needs(c, "auth", s, bor(auth(S.frm), eq(S.frm, S.spender)), "the user whose positions change authorised the call")
    for x, n in ((S.frm, "user"), (S.spender, "spender"), (S.to, "recipient")):
        needs(c, "auth", s, bnot(eq(x, SELF)), "the %s is not the pool itself" % n)
    for e in effs(s, "auth"):
        c.ok(same(e.data[0], S.spender, e.guard) or same(e.data[0], S.frm, e.guard), "auth", e, "submit asks only the spender and the user for authorization")
    for es, k, ends, n in ((S.tin, S.ik, (S.spender, SELF), "collected from the spender"), (S.tout, S.ok_, (SELF, S.to), "paid to the recipient")):
        m = L.post[k]
        c.ok(len(es) == 1, "transfer", es[-1] if es else s, "tokens are %s in one walk over the totals" % n)
        for e in es:
            d, b, i = e.loops[0]
            L2 = loop_of(s, e)
            key = N("keyat", m, i, ty=ADDR)
            c.ok(b is mlen(m) or same(b, mlen(m), e.guard), "transfer", e, "every token due is %s" % n)
            r = same_args(e, key, (ends[0], ends[1], sel(m, key, "i128")))
            c.ok(r is True, "transfer", e, "exactly the total due is %s: %s" % (n, r))
            c.ok(L2 is not None and implies(bands(s.commit, L2.comp, lt(i, b)), e.guard), "transfer", e, "no token due is skipped when tokens are %s" % n)
        c.ok(L.inits[k].op == "mapnew", "transfer", s, "nothing is due before the first request")
    for e in effs(s, "inv"):
        if e in S.tin or e in S.tout:
            continue
        okk = bool(e.loops) and e.loops[0][2] is L.iota and implies(e.guard, bor(eq(S.typ, I(FBAD)), eq(S.typ, I(FINT))))
        c.ok(okk, "transfer", e, "submit makes no other call than filling a backstop auction needs: %s" % effshow(e))
    want = agg(POST, None, tuple(L.post[k] for k in S.pk))
    c.ok(same(sel(final(s, *POS), S.frm, POST), want, s.commit), "positions", s, "the user's resulting positions are stored")
    c.ok(same(s.ret, want, s.commit), "positions", s, "the user's resulting positions are returned")
    for e in effs(s, "write") + effs(s, "del"):
        cls = (e.data[0], e.data[1])
        c.ok(cls in (POS, RD, ED, UE, AU), "frame", e, "submit writes only positions, reserves, emissions and auctions")
        if cls == POS:
            okk = e.kind == "write" and (same(e.data[2], S.frm, e.guard) or (bool(e.loops) and implies(e.guard, bor(eq(S.typ, I(FLIQ)), eq(S.typ, I(FBAD))))))
            c.ok(okk, "frame", e, "submit changes the positions of the user, and of an auctioned user when an auction is filled, and of nobody else")
        if cls == AU:
            c.ok(bool(e.loops) and implies(e.guard, bands(le(I(FLIQ), S.typ), le(S.typ, I(DEL)))), "frame", e, "auctions change only by fill and delete requests")


@prop("C23", ["pool"], opaque_std)
def submit_gates(c):
    contracts(c)
    S = Sub(c)
    s, L = S.s, S.L
    st = cfg(STATUS)
    V = View(L, S.w)
    typ, amt, st = V(S.typ), V(S.amt), V(cfg(STATUS))
    c.ok(implies(V.w, lt(typ, I(10))), "types", s, "a request of an unknown type is refused")
    c.ok(implies(V.w, le(I(0), amt)), "types", s, "a request for a negative amount is refused")
    frozen, inactive = lt(I(3), st), lt(I(1), st)
    for k in range(10):
        w = band(V.w, eq(typ, I(k)))
        c.ok(sat(w), "status", s, "a request of type %d can be carried out" % k)
        if k in (BOR, DEL):
            c.ok(implies(w, bnot(inactive)), "status", s, "a request of type %d is refused unless the pool is active" % k)
            okst = (0, 1)
        elif k in (SUP, SUPC):
            c.ok(implies(w, bnot(frozen)), "status", s, "a request of type %d is refused when the pool is frozen" % k)
            okst = (0, 1, 2, 3)
        else:
            okst = range(7)
        for x in okst:
            c.ok(sat(band(w, eq(st, I(x)))), "open", s, "a request of type %d stays possible at pool status %d" % (k, x))


@prop("C24", ["pool"], opaque_std)
def max_positions(c):
    contracts(c)
    S = Sub(c)
    s, L = S.s, S.L
    m = cfg(MAXPOS)
    before = add(mlen(pos(S.frm, 0)), mlen(pos(S.frm, 1)))
    after = add(mlen(L.post[S.pk[0]]), mlen(L.post[S.pk[1]]))
    c.ok(implies(s.commit, bor(le(after, m), le(after, before))), "limit", s, "a user ends with more positions than before and than the pool's maximum")
    c.ok(sat(bands(s.commit, lt(m, after))), "limit", s, "a user above a lowered maximum can still reduce positions")
    c.ok(same(sel(final(s, *POS), S.frm, POST), agg(POST, None, tuple(L.post[k] for k in S.pk)), s.commit), "limit", s, "the positions counted are the ones stored")
