from core import *
from spec import *

PB = ("P", "BackstopDataKey::PoolBalance")
UB = ("P", "BackstopDataKey::UserBalance")
EC = ("P", "BackstopDataKey::BEmisCfg")
ED = ("P", "BackstopDataKey::BEmisData")
UE = ("P", "BackstopDataKey::UEmisData")
PE = ("P", "BackstopDataKey::PoolEmis")
RZ = ("P", "RZ")
LD = ("P", "LastDist")
TV = ("P", "LPTknVal")
PBT, UBT, Q4WT = "backstop::pool::PoolBalance", "backstop::user::UserBalance", "backstop::user::Q4W"
Q4WV = "soroban_sdk::Vec<%s>" % Q4WT
ECT, EDT, UET = "storage::BackstopEmissionConfig", "storage::BackstopEmissionsData", "storage::UserEmissionData"
KEY = "storage::PoolUserKey"
S7 = 10 ** 7
EMIS = {EC, ED, UE}
Q4W_DAYS = 21 * 24 * 3600


def ukey(pool, user):
    return agg(KEY, None, (pool, user))


def pool_bal(pool, m=None):
    m = m or N("map0", *PB)
    h = has(m, pool)
    x = sel(m, pool, PBT)
    return tuple(ite(h, fld(x, i, "i128"), I(0)) for i in range(3))


def user_bal(pool, user, m=None):
    m = m or N("map0", *UB)
    k = ukey(pool, user)
    h = has(m, k)
    x = sel(m, k, UBT)
    return ite(h, fld(x, 0, "i128"), I(0)), ite(h, fld(x, 1, Q4WV), vec_op_empty())


def vec_op_empty():
    return N("vec", (), ty=Q4WV)


def pbal(sh, tk, q):
    return agg(PBT, None, (sh, tk, q))


def ubal(sh, q):
    return agg(UBT, None, (sh, q))


def sane(pool, user=None):
    """what every reachable state satisfies (C06 checks that it is preserved)"""
    sh, tk, q = pool_bal(pool)
    g = bands(le(I(0), sh), le(I(0), tk), le(I(0), q), le(q, sh))
    if user is not None:
        us, _ = user_bal(pool, user)
        g = band(g, le(I(0), us))
    return g


def optget(dc, key, ty):
    """stored Option<T>: (present, payload)"""
    m = N("map0", *dc)
    return has(m, key), sel(m, key, ty)


def isz(x):
    return eq(x, I(0))


class Emis:
    """the emission accrual the property prescribes, for one pool (and one user)"""

    def __init__(self, pool, sh, q4, ed=None, ec=None):
        self.pool = pool
        ec = N("map0", *EC) if ec is None else ec
        b = N("map0", *ED) if ed is None else ed
        self.on, cfg = has(ec, pool), sel(ec, pool, ECT)
        self.hasd, data = has(b, pool), sel(b, pool, EDT)
        self.exp, self.eps = fld(cfg, 0), fld(cfg, 1)
        self.idx0, self.last = fld(data, 0), fld(data, 1)
        un = sub(sh, q4)
        self.skip = bors(le(self.exp, self.last), eq(NOW, self.last), isz(self.eps), isz(sh), isz(un))
        end = imin(NOW, self.exp)
        self.idx1 = add(self.idx0, muldiv("floor", muls(sub(end, self.last), self.eps, I(S7)), un))
        self.idx = ite(self.skip, self.idx0, self.idx1)
        self.data_map = ite(band(self.on, bnot(self.skip)), store(b, pool, agg(EDT, None, (self.idx1, NOW))), b)

    def user(self, user, ush, claim=False, m=None):
        k = ukey(self.pool, user)
        b = N("map0", *UE) if m is None else m
        have, u = has(b, k), sel(b, k, UET)
        ui, ua = fld(u, 0), fld(u, 1)
        prior = ite(have, ui, I(0))
        acc = add(ite(have, ua, I(0)), muldiv("floor", mul(ush, sub(self.idx, prior)), I(S7)))
        self.delta = sub(self.idx, prior)
        self.accrued = ite(self.on, acc, I(0))
        new = agg(UET, None, (self.idx, I(0) if claim else acc))
        return ite(self.on, store(b, k, new), b)

    def wf(self):
        """config and data are written together"""
        return bor(bnot(self.on), self.hasd)


def accrues_first(c, rule, s, pool, user, when=1):
    """emissions of (pool, user) are settled at the balances held before the operation"""
    sh, tk, q = pool_bal(pool)
    ush, _ = user_bal(pool, user)
    E = Emis(pool, sh, q)
    w = bands(when, sane(pool, user), E.wf())
    expect_store(c, rule, s, {ED: E.data_map, UE: E.user(user, ush)}, when=w, only={ED, UE, EC, PE})
    return bands(w, E.on, lt(E.last, E.exp), lt(E.last, NOW), lt(I(0), E.eps), lt(I(0), sh), eq(sh, q))


def moves(c, rule, s, when=1):
    """net token movements are given by the calls listed; here: no other token call"""


@prop("C04", ["backstop"])
def deposit(c):
    s = c.S("backstop", "deposit")
    who, pool, amt = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    ush, uq = user_bal(pool, who)
    w = sane(pool, who)
    needs(c, "auth", s, auth(who), "the depositor authorised the deposit")
    needs(c, "amount", s, le(I(0), amt), "the amount is not negative")
    needs(c, "self", s, bnot(eq(who, pool)), "the depositor is not the pool")
    needs(c, "self", s, bnot(eq(who, SELF)), "the depositor is not the backstop")
    minted = ite(isz(sh), amt, muldiv("floor", mul(amt, sh), tk))
    w2 = band(w, bor(isz(sh), lt(I(0), tk)))
    needs(c, "nonzero", s, lt(I(0), minted), "at least one share is minted", when=w2)
    known = [e for e in effs(s, "view", method="is_pool")] + [e for e in effs(s, "inv", method="is_pool")]
    needs(c, "worthless", s, bor(isz(sh), lt(I(0), tk)), "the pool's shares are backed by tokens, or there are none", when=w)
    isp = 0
    for e in known:
        if same(e.data[1], inst("PoolFact"), e.guard) and same(e.data[3][0], pool, e.guard):
            isp = bor(isp, truth(N("call", e.data[1], "is_pool", e.data[3], N("w0"), ty="bool")))
    needs(c, "factory", s, isp, "the pool was deployed by the pool factory", when=band(w, isz(sh)))
    call_once(c, "transfer", s, "transfer", inst("BToken"), (who, SELF, amt), when=1)
    calls_only(c, "transfer", s, {"transfer", "is_pool"})
    expect_store(c, "shares", s, {PB: put(*PB, pool, pbal(add(sh, minted), add(tk, amt), q)),
                                  UB: put(*UB, ukey(pool, who), ubal(add(ush, minted), uq))},
                 when=w2, ignore=EMIS)
    c.ok(same(s.ret, minted, band(s.commit, w2)), "return", s, "deposit returns the shares minted")
    event_once(c, "event", s, "deposit", (amt, s.ret), topics=(pool, who))


# ------------------------------------------------------------------ withdrawal queue

class ExitView(Rewriter):
    """values after loop L, read at the moment of leaving it.  early: through a `break` (its exists-literal is the exit
    condition in that iteration); otherwise at the natural end (no exit condition held; folds satisfy the loop invariant)"""

    def __init__(self, L, early):
        super().__init__()
        self.L, self.early = L, early

    def atom(self, a):
        if a.op in ("ex", "all") and a.args[0] == self.L.depth and a.args[1] is self.L.bound:
            if self.early:
                return self.guard(truth(a.args[2]))
            return 0 if a.op == "ex" else 1
        return super().atom(a)

    def leaf(self, n):
        for k, p in self.L.post.items():
            if n is p and p.op in ("fold", "vdrop"):
                return self.L.mus[k]
            if n.op == "sum" and n.args[0] == self.L.depth and n.args[1] is self.L.bound and is_int(p):
                d = to_poly(sub(p, self.L.inits[k]))        # an accumulator: final - initial = +-sum
                if len(d) == 1 and ((n, 1),) in d and d[((n, 1),)] in (1, -1):
                    return scale(sub(self.L.mus[k], self.L.inits[k]), d[((n, 1),)])
        return None


def exits(L, commit):
    """(guard, view) for each way of leaving L"""
    ex = 0
    for v in dvars(commit):
        a = terms._vars[v]
        if a.op == "ex" and a.args[0] == L.depth and a.args[1] is L.bound:
            ex = bor(ex, lit(a))
    out = []
    for early in (True, False):
        V = ExitView(L, early)
        g = V.guard(band(commit, ex) if early else commit)
        if not early:
            g = band(g, getattr(L, "only", 1))
        if sat(g):
            out.append((g, V))
    return out


def vsum(v, f):
    """linear functional: sum of f over the elements"""
    if v.op == "vec":
        return adds(*[f(x) for x in v.args[0]])
    if v.op == "vpush":
        return add(vsum(v.args[0], f), f(v.args[1]))
    if v.op == "vpushf":
        return add(vsum(v.args[0], f), f(v.args[1]))
    if v.op == "vpopf":
        return sub(vsum(v.args[0], f), f(at(v.args[0], I(0), Q4WT)))
    if v.op == "vdrop":
        c = to_poly(v.args[1]).get((), 0)
        if type(c) is int and c >= 1:
            n = sub(v.args[1], I(1))
            return sub(vsum(vdrop(v.args[0], n), f), f(at(v.args[0], n, Q4WT)))
    if v.op == "vset":
        return add(sub(vsum(v.args[0], f), f(at(v.args[0], v.args[1], Q4WT))), f(v.args[2]))
    if v.op == "ite":
        return from_dd_int(dmap(lambda t: vsum(t, f), v.args[0]))
    return N("vsum", v, ty="i128")


def q_amt(x):
    return fld(x, 0, "i128")


def q_exp(x):
    return fld(x, 1, "u64")


def fifo(c, rule, s, user, pool, amt, locked):
    """the user's queue loses exactly `amt`, oldest entries first, touching only unlocked ones if `locked`"""
    k = ukey(pool, user)
    _, q0 = user_bal(pool, user)
    uf = sel(final(s, *UB), k, UBT)
    qf = fld(uf, 1, Q4WV)
    Ls = [L for L in s.loops if any(is_q(v) for v in L.inits.values())]
    c.ok(len(Ls) == 1, rule, s, "%s walks the withdrawal queue once" % s.entry)
    if len(Ls) != 1:
        return
    L = Ls[0]
    vk = [x for x, v in L.inits.items() if is_q(v)]
    ik = [x for x, v in L.inits.items() if same(v, amt)]
    c.ok(len(vk) == 1 and len(ik) == 1, rule, s, "the walk carries the queue and the amount left")
    if len(vk) != 1 or len(ik) != 1:
        return
    mv, ml = L.mus[vk[0]], L.mus[ik[0]]
    front = at(mv, I(0), Q4WT)
    # left >= 0 is inductive
    inv = le(I(0), ml)
    c.ok(implies(s.commit, le(I(0), amt)), rule, s, "the amount starts non-negative")
    st = bands(L.back_pc, inv)
    c.ok(implies(st, le(I(0), L.steps[ik[0]])), rule, s, "%s: the amount left never goes below zero" % s.entry)
    # sum(queue) - left is preserved by every step that continues
    d1 = sub(vsum(L.steps[vk[0]], q_amt), vsum(mv, q_amt))
    d2 = sub(L.steps[ik[0]], ml)
    c.ok(same(d1, d2, st), rule, s, "%s: entries removed from the queue must be charged against the amount" % s.entry)
    qn = assume(L.steps[vk[0]], st)
    for t in (dterms(qn.args[0]) if qn.op == "ite" else {qn: 1}):
        gt = band(st, _when_leaf(qn, t))
        if t.op == "vset" and t.args[0] is mv and t.args[1] is I(0):
            part(c, rule, s, t, front, gt)
            c.ok(implies(gt, isz(L.steps[ik[0]])), rule, s, "%s: an entry is left partially used only when the amount is used up" % s.entry)
        else:
            c.ok(same(t, vec_op("vpopf", mv), gt), rule, s, "%s: fully used entries leave from the front (oldest first)" % s.entry)
    if locked:
        c.ok(implies(L.back_pc, le(q_exp(front), NOW)), rule, s, "%s: only entries whose lock has expired may be consumed" % s.entry)
    # at the end: sum(final) = sum(initial) - amt
    views = exits(L, s.commit)
    c.ok(bool(views), rule, s, "%s: the walk can be left" % s.entry)
    every = [(band(g, inv), V(qf)) for g, V in views]
    edge = eq(q_exp(front), NOW) if locked else 1
    for cond, what in ((lt(ml, q_amt(front)), "part of the oldest entry"), (eq(ml, q_amt(front)), "exactly the oldest entry")):
        c.ok(sat(bands(st, lt(I(0), ml), cond, edge)) or any(sat(bands(g, lt(I(0), ml), cond, edge, bnot(same_vec(q, mv)))) for g, q in every), rule, s, "%s: using up %s must remain possible%s" % (s.entry, what, " the moment its lock expires" if locked else ""))
    c.ok(sat(bands(st, lt(I(0), L.steps[ik[0]]), edge)), rule, s, "%s: more than the oldest entry may be used in one call" % s.entry)
    for g, V in views:
        g = band(g, inv)
        qv = V(qf)
        total = sub(vsum(qv, q_amt), vsum(mv, q_amt))       # = -(left) at the leaving iteration
        c.ok(same(total, neg(ml), g), rule, s, "%s: the queue must shrink by exactly the amount: change %s, left %s" % (s.entry, txt(assume(total, g)), txt(ml)))
        # which entries the last step touches
        leaves = dterms(qv.args[0]) if qv.op == "ite" else {qv: True}
        for t in leaves:
            if not isinstance(t, Node):
                continue
            gt = band(g, _when_leaf(qv, t))
            if not sat(gt):
                continue
            if t is mv:
                continue
            if t is vec_op("vpopf", mv):
                pass
            elif t.op == "vset" and t.args[0] is mv and t.args[1] is I(0):
                part(c, rule, s, t, front, gt)
            else:
                c.ok(False, rule, s, "%s: unexpected change of the queue: %s" % (s.entry, txt(t)))
                continue
            if locked:
                c.ok(implies(gt, le(q_exp(front), NOW)), rule, s, "%s: only entries whose lock has expired may be consumed (last entry)" % s.entry)


def part(c, rule, s, t, front, gt):
    c.ok(same(q_exp(t.args[2]), q_exp(front), gt), rule, s, "%s: a partially used entry keeps its unlock time" % s.entry)
    c.ok(implies(gt, lt(I(0), q_amt(t.args[2]))), rule, s, "%s: a partially used entry keeps a positive remainder" % s.entry)


def same_vec(q, mv):
    """the guard under which q is the queue mv, untouched"""
    return 1 if q is mv else _when_leaf(q, mv)


def _when_leaf(x, t):
    if x.op != "ite":
        return 1 if x is t else 0
    return dmap(lambda y: 1 if y is t else 0, x.args[0])


def is_q(v):
    return isinstance(v, Node) and (v.ty == Q4WV or (v.op == "ite" and any(isinstance(t, Node) and t.ty == Q4WV for t in dterms(v.args[0]))))


@prop("C05", ["backstop"])
def queue(c):
    s = c.S("backstop", "queue_withdrawal")
    who, pool, amt = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    ush, uq = user_bal(pool, who)
    w = sane(pool, who)
    needs(c, "queue-auth", s, auth(who), "the depositor authorised the call")
    needs(c, "queue-amount", s, le(I(0), amt), "the amount is not negative")
    needs(c, "queue-balance", s, le(amt, ush), "the user owns that many unqueued shares")
    needs(c, "queue-size", s, le(vlen(uq), I(20)), "at most 20 entries are queued already")
    allows(c, "queue-size", s, eq(vlen(uq), I(20)), "20 entries are queued")
    new = agg(Q4WT, None, (amt, add(NOW, I(Q4W_DAYS))))
    expect_store(c, "queue", s, {PB: put(*PB, pool, pbal(sh, tk, add(q, amt))),
                                 UB: put(*UB, ukey(pool, who), ubal(sub(ush, amt), vec_op("vpush", uq, new)))}, when=w, ignore=EMIS)
    calls_only(c, "queue", s, set())
    c.ok(same(s.ret, new, s.commit), "queue", s, "the new entry is returned")
    event_once(c, "queue-event", s, "queue_withdrawal", (amt, add(NOW, I(Q4W_DAYS))), topics=(pool, who))

    s = c.S("backstop", "dequeue_withdrawal")
    who, pool, amt = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    ush, uq = user_bal(pool, who)
    needs(c, "dequeue-auth", s, auth(who), "the depositor authorised the call")
    needs(c, "dequeue-amount", s, le(I(0), amt), "the amount is not negative")
    needs(c, "dequeue-total", s, le(amt, q), "the pool has that many queued shares")
    w = sane(pool, who)
    uf = fld(sel(final(s, *UB), ukey(pool, who), UBT), 1, Q4WV)
    expect_store(c, "dequeue", s, {PB: put(*PB, pool, pbal(sh, tk, sub(q, amt))),
                                   UB: put(*UB, ukey(pool, who), ubal(add(ush, amt), uf))}, when=w, ignore=EMIS)
    fifo(c, "dequeue-fifo", s, who, pool, amt, False)
    calls_only(c, "dequeue", s, set())
    event_once(c, "dequeue-event", s, "dequeue_withdrawal", amt, topics=(pool, who))

    s = c.S("backstop", "withdraw")
    who, pool, amt = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    ush, uq = user_bal(pool, who)
    w = sane(pool, who)
    paid = ite(isz(sh), amt, muldiv("floor", mul(amt, tk), sh))
    needs(c, "withdraw-auth", s, auth(who), "the depositor authorised the call")
    needs(c, "withdraw-amount", s, le(I(0), amt), "the amount is not negative")
    needs(c, "withdraw-nonzero", s, lt(I(0), paid), "a positive amount of tokens is returned", when=w)
    needs(c, "withdraw-total", s, bands(le(amt, q), le(amt, sh), le(paid, tk)), "the pool covers shares, queue and tokens", when=w)
    uf = fld(sel(final(s, *UB), ukey(pool, who), UBT), 1, Q4WV)
    expect_store(c, "withdraw", s, {PB: put(*PB, pool, pbal(sub(sh, amt), sub(tk, paid), sub(q, amt))),
                                    UB: put(*UB, ukey(pool, who), ubal(ush, uf))}, when=w)
    fifo(c, "withdraw-fifo", s, who, pool, amt, True)
    call_once(c, "withdraw-pay", s, "transfer", inst("BToken"), (SELF, who, paid), when=1)
    calls_only(c, "withdraw-pay", s, {"transfer"})
    c.ok(same(s.ret, paid, band(s.commit, w)), "withdraw", s, "withdraw returns the tokens paid")
    event_once(c, "withdraw-event", s, "withdraw", (amt, s.ret), topics=(pool, who))
    # nobody else takes shares out of a user's balance or queue
    only_writers(c, "writers", "backstop", UB[1], {"deposit", "queue_withdrawal", "dequeue_withdrawal", "withdraw", "claim"})
    g = c.S("backstop", "user_balance")
    gsh, gq = user_bal(arg(g, 0), arg(g, 1))
    c.ok(same(fld(g.ret, 0), gsh, g.commit) and same(fld(g.ret, 1), gq, g.commit), "getter", g, "user_balance reports the stored balance")


@prop("C06", ["backstop"])
def draw_donate(c):
    s = c.S("backstop", "draw")
    pool, amt, to = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    needs(c, "draw-auth", s, auth(pool), "the pool itself authorised the draw")
    needs(c, "draw-amount", s, bands(le(I(0), amt), le(amt, tk)), "0 <= amount <= the pool's backstop tokens")
    expect_store(c, "draw", s, {PB: put(*PB, pool, pbal(sh, sub(tk, amt), q))})
    call_once(c, "draw-pay", s, "transfer", inst("BToken"), (SELF, to, amt), when=1)
    calls_only(c, "draw-pay", s, {"transfer"})
    event_once(c, "draw-event", s, "draw", (to, amt), topics=(pool,))
    s = c.S("backstop", "donate")
    who, pool, amt = arg(s, 0), arg(s, 1), arg(s, 2)
    sh, tk, q = pool_bal(pool)
    needs(c, "donate-auth", s, band(auth(who), auth(pool)), "both the donor and the pool authorised the donation")
    needs(c, "donate-amount", s, le(I(0), amt), "the amount is not negative")
    needs(c, "donate-self", s, band(bnot(eq(who, pool)), bnot(eq(who, SELF))), "the donor is neither the pool nor the backstop")
    isp = is_pool(s, pool)
    needs(c, "donate-factory", s, isp, "the pool was deployed by the pool factory", when=band(sane(pool), isz(sh)))
    expect_store(c, "donate", s, {PB: put(*PB, pool, pbal(sh, add(tk, amt), q))})
    call_once(c, "donate-pay", s, "transfer", inst("BToken"), (who, SELF, amt), when=1)
    calls_only(c, "donate-pay", s, {"transfer"})
    event_once(c, "donate-event", s, "donate", amt, topics=(pool, who))
    only_writers(c, "writers", "backstop", PB[1], {"deposit", "queue_withdrawal", "dequeue_withdrawal", "withdraw", "claim", "draw", "donate"})


def is_pool(s, pool):
    g = 0
    for e in effs(s, "view", method="is_pool") + effs(s, "inv", method="is_pool"):
        if same(e.data[1], inst("PoolFact"), e.guard) and same(e.data[3][0], pool, e.guard):
            g = bor(g, truth(N("call", e.data[1], "is_pool", e.data[3], N("w0"), ty="bool")))
    return g


# ------------------------------------------------------------------ claim

def cont_change(after, before, valf):
    """linear functional on containers: change of the summed payload between two values of a map or vector"""
    if after is before:
        return I(0)
    if after.op == "store":
        m, k, v = after.args
        old = ite(has(m, k), valf(sel(m, k, valty(after, k))), I(0))
        return add(cont_change(m, before, valf), sub(valf(v), old))
    if after.op in ("vpush", "vpushf"):
        v = after.args[0] if after.op == "vpush" else after.args[0]
        return add(cont_change(v, before, valf), valf(after.args[1]))
    if after.op == "ite":
        return from_dd_int(dmap(lambda t: cont_change(t, before, valf), after.args[0]))
    return None


def auth_calls(e):
    """(contract, function, args) triples an `authorize_as_current_contract` grants"""
    out, todo, seen = [], [e.data[0]], set()
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if type(n) is tuple:
            todo += list(n)
        elif isinstance(n, Node):
            if n.op == "agg" and n.ty and n.ty.endswith("ContractContext"):
                out.append(n.args[2])
            elif n.op in ("agg", "enum", "vec"):
                todo += list(n.args)
            elif n.op != "int":
                out.append(None)
    return out


def loop_of(c, rule, s, cells):
    """the loop(s) of s that carry one of the storage classes"""
    return [L for L in s.loops if any(k[0] == ("st",) + d for k in L.steps for d in cells)]


def cell(L, dc):
    for k in L.steps:
        if k[0] == ("st",) + dc:
            return k
    return None


def mucell(L, dc):
    """(value at the start of an iteration, value at its end) of a storage class in loop L"""
    k = cell(L, dc)
    if k is None:
        return N("map0", *dc), N("map0", *dc)
    return L.mus[k], L.steps[k]


@prop("C07", ["backstop"])
def claim(c):
    s = c.S("backstop", "claim")
    who, pools, to = arg(s, 0), arg(s, 1), arg(s, 2)
    needs(c, "auth", s, auth(who), "the claimer authorised the claim")
    needs(c, "nonempty", s, lt(I(0), vlen(pools)), "at least one pool is listed")
    Ls = [L for L in s.loops if same(L.bound, vlen(pools))]
    c.ok(len(Ls) == 1, "per-pool", s, "claim walks the listed pools once")
    Lm = [L for L in s.loops if cell(L, PB)]
    c.ok(len(Lm) == 1, "per-pool", s, "claim credits the claimed pools in one walk")
    if len(Ls) != 1 or len(Lm) != 1:
        return
    L = Ls[0]
    # 1. each listed pool: accrue, then pay out what accrued
    i = N("iota", L.depth) if not isinstance(L.iota, Node) else L.iota
    pool = at(pools, i, ADDR)
    ed0, ed1 = mucell(L, ED)
    ue0, ue1 = mucell(L, UE)
    sh, tk, q = pool_bal(pool)
    ush, _ = user_bal(pool, who)
    E = Emis(pool, sh, q, ed0)
    w = bands(L.comp, lt(i, L.bound), sane(pool, who), E.wf())
    c.ok(sat(w), "per-pool", s, "a pool can be claimed")
    c.ok(same_map(ed1, E.data_map, w), "accrue/pool", s, "claim must bring the pool's emission index up to date")
    um = E.user(who, ush, claim=True, m=ue0)
    c.ok(same_map(ue1, um, w), "accrue/user", s, "claim must settle the user's emissions at the current index and zero the accrued amount")
    ct = [k for k in L.steps if type(k[0]) is int and is_int(L.steps[k]) and same(L.inits[k], I(0)) and not same(L.steps[k], add(i, I(1)))]
    cand = []
    for k in ct:
        m = L.mus[k]
        if is_int(m) and same(sub(L.steps[k], m), E.accrued, w):
            cand.append((k, m))
    c.ok(bool(cand), "total", s, "the claimed total must grow by exactly the user's accrued emissions of each pool")
    if not cand:
        return
    tot = s.ret
    c.ok(tot.op == "fold" or same(tot, L.post.get(cand[0][0], tot)), "total", s, "claim returns the total claimed")
    c.ok(same(L.post[cand[0][0]], tot, s.commit), "total", s, "claim returns the total claimed: %s" % txt(tot, 3))
    # 2. the per-pool record sums to the total
    M = Lm[0]
    j = M.iota
    conts = [k for k in L.steps if type(k[0]) is int and not is_int(L.steps[k])]
    rec = None
    for k in conts:
        d = cont_change(L.steps[k], L.mus[k], lambda v: v if is_int(v) else fld(v, 1, "i128"))
        if d is not None and same(d, E.accrued, w):
            rec = L.post[k]
    c.ok(rec is not None, "record", s, "the per-pool amounts credited must sum to the total claimed")
    if rec is None:
        return
    isvec = rec.ty and rec.ty.startswith("soroban_sdk::Vec")
    n = vlen(rec) if isvec else mlen(rec)
    c.ok(same(M.bound, n), "record", s, "every recorded pool is credited")
    if isvec:
        x = at(rec, j, rec.ty[len("soroban_sdk::Vec<"):-1])
        pk, amt = fld(x, 0, ADDR), fld(x, 1, "i128")
    else:
        pk = N("keyat", rec, j, ty=ADDR)
        amt = sel(rec, pk, "i128")
    # 3. the Comet join
    pos = band(s.commit, lt(I(0), tot))
    care = lt(I(0), tot)
    call_once(c, "join", s, "dep_tokn_amt_in_get_lp_tokns_out", inst("BToken"), (inst("BLNDTkn"), tot, I(0), SELF), when=care)
    calls_only(c, "join", s, {"dep_tokn_amt_in_get_lp_tokns_out"})
    aes = effs(s, "auth_as")

    def grants(e):
        a = auth_calls(e)
        if len(a) != 1 or a[0] is None:
            return "a single grant"
        x = a[0]
        if not (same(x[0], inst("BLNDTkn"), e.guard) and x[1].op == "sym" and x[1].args[0] == "approve" and x[2].op == "vec" and len(x[2].args[0]) == 4):
            return "approve on the BLND token"
        y = x[2].args[0]
        ledger = mul(add(muldiv("floor", SEQ, I(100000)), I(1)), I(100000))
        for p, q_ in zip(y, (SELF, inst("BToken"), tot, ledger)):
            if not same(p, q_, e.guard):
                return "approve argument " + txt(q_, 3)
        return True
    once(c, "approve", s, aes, care, grants, "the approval granted to the Comet pool")
    es = effs(s, "inv", method="dep_tokn_amt_in_get_lp_tokns_out")
    if not es:
        return
    # 4. each pool is credited floor(lp * share / total) and `to` gets the matching shares
    lp = [e for e in es]
    ret = [x for x in collect(M.steps[cell(M, PB)], "ret") if x.args[1] == "dep_tokn_amt_in_get_lp_tokns_out"]
    c.ok(len(set(ret)) == 1, "credit", s, "the credit is computed from the LP tokens the join returned")
    if len(set(ret)) != 1:
        return
    credit = muldiv("floor", mul(ret[0], amt), tot)
    pb0, pb1 = mucell(M, PB)
    ub0, ub1 = mucell(M, UB)
    ed0, ed1 = mucell(M, ED)
    ue0, ue1 = mucell(M, UE)
    sh, tk, q = pool_bal(pk, pb0)
    ush, uq = user_bal(pk, to, ub0)
    E = Emis(pk, sh, q, ed0)
    minted = ite(isz(sh), credit, muldiv("floor", mul(credit, sh), tk))
    w = bands(M.comp, lt(j, M.bound), care, le(I(0), sh), le(I(0), tk), le(I(0), q), le(q, sh), le(I(0), ush), bor(isz(sh), lt(I(0), tk)), E.wf())
    c.ok(sat(w), "credit", s, "a pool can be credited")
    bad = bands(M.comp, lt(j, M.bound), care, le(I(0), tk), lt(I(0), sh), bnot(lt(I(0), tk)))
    c.ok(not sat(bad), "worthless", s, "a pool whose shares have no tokens behind them cannot be credited")
    c.ok(same_map(pb1, store(pb0, pk, pbal(add(sh, minted), add(tk, credit), q)), w), "credit/pool", s,
         "the pool's balance must grow by floor(lp * its claim / total) tokens and the matching shares")
    c.ok(same_map(ub1, store(ub0, ukey(pk, to), ubal(add(ush, minted), uq)), w), "credit/user", s,
         "the recipient must receive exactly the shares minted")
    c.ok(same_map(ed1, E.data_map, w), "settle/pool", s, "the pool's emission index is brought up to date before its shares change")
    c.ok(same_map(ue1, E.user(to, ush, m=ue0), w), "settle/user", s,
         "the recipient's emissions must be settled at the shares held before the credit")
    ws = storage_keys(s)
    c.ok(ws <= {PB, UB, ED, UE}, "frame", s, "claim changes nothing but balances and emission data: %s" % sorted(ws - {PB, UB, ED, UE}))
    for dc in (PB, UB):
        c.ok(cell(L, dc) is None, "frame", s, "balances do not change while emissions are collected")
    event_once(c, "event", s, "claim", tot, topics=(who,))
    dep = effs(s, "event", topic="deposit")
    c.ok(len(dep) >= 1, "event", s, "a deposit event is published for each pool credited")
    for e in dep:
        t = e.data[0].args[2][1:]
        g = bands(e.guard, w)
        c.ok(len(t) == 2 and same(t[0], pk, g) and same(t[1], to, g) and same(fld(e.data[1], 0), credit, g) and same(fld(e.data[1], 1), minted, g),
             "event", e, "deposit event must report the pool, the recipient, the tokens and the shares")


def collect(n, op):
    r, todo, seen = [], [n], set()
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, Node):
            if n.op == op:
                r.append(n)
            todo += list(n.args)
        elif type(n) is tuple:
            todo += list(n)
        elif type(n) is D:
            todo += [terms._vars[n.v], n.h, n.l]
    return r


# ------------------------------------------------------------------ emissions

@prop("C08", ["backstop"])
def accrual(c):
    for n in ("deposit", "queue_withdrawal", "dequeue_withdrawal"):
        s = c.S("backstop", n)
        allq = accrues_first(c, n, s, arg(s, 1), arg(s, 0))
        if n != "queue_withdrawal":
            allows(c, "all-queued", s, allq, "every share of the pool is queued for withdrawal while emissions run")
    s = c.S("backstop", "withdraw")
    untouched(c, "withdraw", s, ED[1], UE[1], EC[1])
    # withdrawing moves neither the user's unqueued shares nor the pool's
    pool, who = arg(s, 1), arg(s, 0)
    sh, tk, q = pool_bal(pool)
    ush, _ = user_bal(pool, who)
    b1 = pool_bal(pool, final(s, *PB))
    u1, _ = user_bal(pool, who, final(s, *UB))
    c.ok(same(sub(b1[0], b1[2]), sub(sh, q), s.commit), "withdraw", s, "withdraw leaves the pool's unqueued shares alone")
    c.ok(same(u1, ush, s.commit), "withdraw", s, "withdraw leaves the user's unqueued shares alone")
    only_writers(c, "writers", "backstop", UE[1], {"deposit", "queue_withdrawal", "dequeue_withdrawal", "claim"})
    only_writers(c, "writers", "backstop", ED[1], {"deposit", "queue_withdrawal", "dequeue_withdrawal", "claim", "gulp_emissions"})
    only_writers(c, "writers", "backstop", EC[1], {"gulp_emissions"})


def one_loop(c, rule, s, pred, what):
    Ls = [L for L in s.loops if pred(L)]
    c.ok(len(Ls) == 1, rule, s, what)
    if len(Ls) != 1:
        raise Stop()
    return Ls[0]


RZT = "soroban_sdk::Vec<soroban_sdk::Address>"
MAX_GAP = 3600


@prop("C09", ["backstop"])
def gulp(c):
    s = c.S("backstop", "gulp_emissions")
    u = UNIT
    rz = sel(N("map0", *RZ), u, RZT)
    needs(c, "nonempty", s, band(has(N("map0", *RZ), u), lt(I(0), vlen(rz))), "the reward zone has a pool")
    hl, ld = has(N("map0", *LD), u), sel(N("map0", *LD), u, "u64")
    last = ite(hl, ld, I(0))
    now = N("call", inst("Emitter"), "get_last_distro", (SELF,), N("w0"), ty="u64")
    needs(c, "gap", s, lt(add(last, I(MAX_GAP)), now), "the emitter distributed more than an hour after the last gulp")
    allows(c, "gap", s, eq(now, add(last, I(MAX_GAP + 1))), "one second more than an hour has passed")
    calls_only(c, "calls", s, set())
    expect_store(c, "clock", s, {LD: put(*LD, u, now)}, only={LD, RZ, PB, UB, TV, UE})
    new = scale(sub(now, last), S7)
    bs = muldiv("floor", scale(new, 7), I(10))
    pl = muldiv("floor", scale(new, 3), I(10))

    def nonq(pool):
        sh, tk, q = pool_bal(pool)
        return sub(tk, ite(isz(sh), q, muldiv("floor", mul(q, tk), sh)))
    c.ok(same(s.ret, UNIT) or same(s.ret, new, s.commit), "return", s, "the emissions assigned are reported")
    event_once(c, "event", s, "gulp_emissions", new)
    # total weight
    n = vlen(rz)
    Ls = [L for L in s.loops if same(L.bound, n, band(L.entry_pc, s.commit))]
    tot = []
    for L in Ls:
        pool = at(rz, L.iota, ADDR)
        w = bands(L.comp, lt(L.iota, L.bound), sane(pool))
        for k in L.steps:
            if is_int(L.steps[k]) and L.inits[k] is I(0) and same(sub(L.steps[k], L.mus[k]), nonq(pool), w):
                tot.append(L.post[k])
    c.ok(len(tot) == 1, "weight", s, "the weights must be the tokens not queued for withdrawal, summed over the whole reward zone")
    Lm = [L for L in Ls if cell(L, PE)]
    c.ok(len(Lm) == 1 and all(cell(Lm[0], d) for d in (EC, ED)), "assign", s, "each reward-zone pool is assigned emissions once")
    if len(tot) != 1 or len(Lm) != 1 or not all(cell(Lm[0], d) for d in (EC, ED)):
        return
    M, T = Lm[0], tot[0]
    i = M.iota
    pool = at(rz, i, ADDR)
    sh, tk, q = pool_bal(pool)
    share = muldiv("floor", scale(nonq(pool), S7), T)
    pe0, pe1 = mucell(M, PE)
    ec0, ec1 = mucell(M, EC)
    ed0, ed1 = mucell(M, ED)
    w = bands(M.comp, lt(i, M.bound), M.entry_pc, sane(pool), lt(add(last, I(MAX_GAP)), now), lt(I(0), T))
    E = Emis(pool, sh, q, ed0, ec0)
    w = band(w, E.wf())
    c.ok(sat(w), "assign", s, "emissions can be assigned")
    c.ok(implies(s.commit, M.reach), "assign", s, "emissions are assigned on every path: none is passed over")
    c.ok(not sat(bands(M.comp, lt(i, M.bound), M.entry_pc, sane(pool), isz(T))), "assign", s, "emissions are not passed over when everything is queued for withdrawal")
    old = ite(has(pe0, pool), sel(pe0, pool, "i128"), I(0))
    c.ok(same_map(pe1, store(pe0, pool, add(old, muldiv("floor", mul(share, pl), I(S7)))), w), "assign/pool", s,
         "each pool's emissions must grow by floor(share * 30%% of the new emissions); got %s" % txt(assume(pe1, w), 9))
    c.ok(same_map(ed1, store(ed0, pool, agg(EDT, None, (ite(E.on, E.idx, I(0)), NOW))), w), "assign/index", s,
         "the index is brought up to date under the old rate before a new rate starts now")
    left = ite(band(E.on, lt(NOW, E.exp)), mul(E.eps, sub(E.exp, NOW)), I(0))
    eps = muldiv("trunc", add(muldiv("floor", mul(share, bs), I(S7)), left), I(604800))
    c.ok(same_map(ec1, store(ec0, pool, agg(ECT, None, (add(NOW, I(604800)), eps))), w), "assign/rate", s,
         "the new rate must emit floor(share * 70%%) plus what the old rate had left, over 7 days; got %s" % txt(assume(ec1, w), 9))
    # handing a pool its emissions
    s = c.S("backstop", "gulp_pool_emissions")
    pool = arg(s, 0)
    h, x = has(N("map0", *PE), pool), sel(N("map0", *PE), pool, "i128")
    pe = ite(h, x, I(0))
    needs(c, "pool-auth", s, auth(pool), "the pool itself authorised the call")
    needs(c, "pool-nonzero", s, bnot(isz(pe)), "the pool has unclaimed emissions")
    expect_store(c, "pool-zero", s, {PE: put(*PE, pool, I(0))})
    b = inst("BLNDTkn")
    allowance = N("call", b, "allowance", (SELF, pool), N("w0"), ty="i128")
    call_once(c, "pool-approve", s, "approve", b, (SELF, pool, add(allowance, pe), None))
    calls_only(c, "pool-approve", s, {"approve"})
    c.ok(same(s.ret, pe, s.commit), "pool-return", s, "the emissions handed over are returned")
    only_writers(c, "writers", "backstop", PE[1], {"gulp_emissions", "gulp_pool_emissions"})
    only_writers(c, "writers", "backstop", LD[1], {"gulp_emissions", "initialize"})


@prop("C10", ["backstop"])
def reward_zone(c):
    s = c.S("backstop", "add_reward")
    add_, rem = arg(s, 0), arg(s, 1)
    u = UNIT
    h = has(N("map0", *RZ), u)
    rz = ite(h, sel(N("map0", *RZ), u, RZT), N("vec", (), ty=RZT))
    inzone = truth(N("contains", rz, add_, ty="bool")) if rz.op != "ite" else None
    n = vlen(rz)
    E0 = 1713139200
    age = sub(NOW, I(E0))
    size = ite(lt(NOW, I(E0)), I(10), add(I(10), muldiv("floor", age, I(1 << 23))))
    room = lt(n, size)
    g = s.commit
    cont = band(h, lit(N("contains", sel(N("map0", *RZ), u, RZT), add_)))
    needs(c, "twice", s, bnot(cont), "the pool is not in the reward zone yet")
    sh, tk, q = pool_bal(add_)
    tv = sel(N("map0", *TV), u, "(i128, i128)")
    blnd = muldiv("trunc", muldiv("floor", mul(tk, fld(tv, 0, "i128")), I(S7)), I(S7))
    usdc = muldiv("trunc", muldiv("floor", mul(tk, fld(tv, 1, "i128")), I(S7)), I(S7))
    th = threshold(c, s, blnd, usdc, sane(add_))
    needs(c, "threshold", s, th, "the pool's backstop holds the threshold of underlying tokens")
    allows(c, "threshold", s, th, "the threshold is met")
    full = bnot(room)
    r0 = sel(N("map0", *RZ), u, RZT)
    rtk = pool_bal(rem)[1]
    ld = ite(has(N("map0", *LD), u), sel(N("map0", *LD), u, "u64"), I(0))
    needs(c, "swap", s, lt(rtk, tk), "a pool can only replace one with strictly fewer backstop tokens", when=full)
    needs(c, "swap-recent", s, le(sub(NOW, I(86400)), ld), "emissions were assigned within the last 24 hours", when=full)
    f = sel(final(s, *RZ), u, RZT)
    f1 = assume(f, band(s.commit, room))
    c.ok(same(f, vec_op("vpushf", rz, add_), band(s.commit, room)), "add", s, "with room the pool is added and every other entry kept: %s" % txt(f1))
    f2 = assume(f, band(s.commit, full))
    okf = f2.op == "vset" and f2.args[0] is r0 and f2.args[2] is add_
    c.ok(okf, "replace", s, "when full exactly one entry is replaced by the pool: %s" % txt(f2))
    if okf:
        ix = f2.args[1]
        c.ok(same(at(r0, ix, ADDR), rem, band(s.commit, full)) or (ix.op == "indexof" and ix.args[1] is rem), "replace", s, "the entry replaced is the one named: %s" % txt(ix))
    expect_store(c, "frame", s, {}, only={PB, UB, LD, PE, EC, ED, UE, TV})
    calls_only(c, "frame", s, set())
    event_once(c, "event", s, "rw_zone", (add_, rem))
    only_writers(c, "writers", "backstop", RZ[1], {"add_reward"})


THRESH = 320000000000000000000000000


def threshold(c, s, blnd, usdc, when):
    """guard of 'saturating blnd^4 * usdc >= 3.2e26': the comparison in the code whose factors are exactly these"""
    r = 0
    for v in dvars(s.commit):
        a = terms._vars[v]
        if a.op != "lt" or a.args[0].op != "saturating_mul":
            continue
        leaves, todo = [], [a.args[0]]
        while todo:
            x = todo.pop()
            if x.op == "saturating_mul":
                todo += list(x.args)
            else:
                leaves.append(x)
        nb = sum(1 for x in leaves if same(x, blnd, when))
        nu = sum(1 for x in leaves if same(x, usdc, when))
        if a.args[1] == THRESH and len(leaves) == 5 and nb == 4 and nu == 1:
            r = bor(r, bnot(lit(a)))
    return r


@prop("C11", ["backstop"])
def data_view(c):
    s = c.S("backstop", "pool_data")
    pool = arg(s, 0)
    sh, tk, q = pool_bal(pool)
    tv = sel(N("map0", *TV), UNIT, "(i128, i128)")
    r = s.ret
    w = band(s.commit, sane(pool))
    c.ok(same(fld(r, 0), tk, w), "tokens", s, "pool_data reports the pool's backstop tokens")
    c.ok(same(fld(r, 1), ite(isz(sh), I(0), muldiv("ceil", scale(q, S7), sh)), w), "q4w", s, "the queued share is rounded up")
    for i, n in ((0, "blnd"), (1, "usdc")):
        c.ok(same(fld(r, 2 + i), muldiv("floor", mul(tk, fld(tv, i, "i128")), I(S7)), w), n, s, "the %s value is tokens * value per token, rounded down" % n)
    s = c.S("backstop", "update_tkn_val")
    lp = inst("BToken")
    w0 = N("w0")
    tot = N("call", lp, "get_total_supply", (), w0, ty="i128")
    vals = [muldiv("floor", scale(N("call", inst(t), "balance", (lp,), w0, ty="i128"), S7), tot) for t in ("BLNDTkn", "USDCTkn")]
    expect_store(c, "token-value", s, {TV: put(*TV, UNIT, agg("(i128, i128)", None, tuple(vals)))}, when=lt(I(0), tot))
    calls_only(c, "token-value", s, set())
    only_writers(c, "writers", "backstop", TV[1], {"update_tkn_val"})
    s = c.S("backstop", "backstop_token")
    c.ok(same(s.ret, inst("BToken"), s.commit), "token", s, "backstop_token reports the LP token fixed at initialisation")
