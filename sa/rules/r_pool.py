from core import *
from spec import *

POS = ("P", "PoolDataKey::Positions")
RC = ("P", "PoolDataKey::ResConfig")
RD = ("P", "PoolDataKey::ResData")
RL = ("P", "ResList")
EC = ("P", "PoolDataKey::EmisConfig")
ED = ("P", "PoolDataKey::EmisData")
UE = ("P", "PoolDataKey::UserEmis")
PE = ("P", "PoolEmis")
AU = ("T", "PoolDataKey::Auction")
RI = ("T", "PoolDataKey::ResInit")
CF = ("I", "Config")
POST, RCT, RDT, CFT = "pool::user::Positions", "storage::ReserveConfig", "storage::ReserveData", "storage::PoolConfig"
RIT, AUT, AUK = "storage::QueuedReserveInit", "auctions::auction::AuctionData", "storage::AuctionKey"
EDT, ECT, UET, UEK = "storage::ReserveEmissionsData", "storage::ReserveEmissionsConfig", "storage::UserEmissionData", "storage::UserReserveKey"
RES = "pool::reserve::Reserve"
ADDRS = "soroban_sdk::Vec<soroban_sdk::Address>"
S7, S9 = 10 ** 7, 10 ** 9
WEEK = 7 * 24 * 3600
YEAR = 31536000
EMIS = {EC, ED, UE, PE}


def cfg(i):
    return fld(inst("Config", CFT), i, ADDR if i == 0 else "u32")


ORACLE, BSTOP_RATE, STATUS, MAXPOS = range(4)


def isz(x):
    return eq(x, I(0))


def rcfg(asset, m=None):
    x = sel(m or N("map0", *RC), asset, RCT)
    return [fld(x, i, "u32") for i in range(11)]


def rdat(asset, m=None):
    x = sel(m or N("map0", *RD), asset, RDT)
    return [fld(x, i, "i128" if i < 6 else "u64") for i in range(7)]


def fmul(mode, a, b, s):
    return muldiv(mode, mul(a, b), I(s) if type(s) is int else s)


def fdiv(mode, a, b, s):
    return muldiv(mode, mul(a, I(s) if type(s) is int else s), b)


# ---------------------------------------------------------------- configuration

@prop("C12", ["emitter", "backstop", "pool", "pool_factory"], lambda M, crate: opaque_std(M, crate))
def init_once(c):
    framed(c)
    s = c.S("pool", "initialize")
    admin, name, oracle, rate, mx, bs, blnd = [arg(s, i) for i in range(7)]
    new = agg(CFT, None, (oracle, rate, I(6), mx))
    init = ("I", "IsInit")
    expect_store(c, "pool-init", s, {("I", "Admin"): put("I", "Admin", TT, admin), ("I", "Name"): put("I", "Name", TT, name),
                                     ("I", "Backstop"): put("I", "Backstop", TT, bs), ("I", "BLNDTkn"): put("I", "BLNDTkn", TT, blnd),
                                     CF: put(*CF, TT, new), init: put(*init, TT, TRUE)})
    needs(c, "pool-init", s, auth(admin), "the admin authorised the initialization")
    needs(c, "pool-init", s, lt(rate, I(S7)), "the backstop take rate is below 100%")
    needs(c, "pool-init", s, le(I(2), mx), "at least two positions are allowed")
    for crate in ("emitter", "backstop", "pool", "pool_factory"):
        s = c.S(crate, "initialize")
        needs(c, "once", s, bnot(has(N("map0", *init), TT)), "the contract was not initialized before")
        f = final(s, *init)
        c.ok(implies(s.commit, has(f, TT)), "once", s, "initialization is recorded")
        only_writers(c, "init-flag", crate, "IsInit", {"initialize"})
        for e in [e for es in writers(c, crate, "IsInit").values() for e in es]:
            c.ok(e.kind == "write", "init-flag", e, "the initialization record is never removed")
    fixed = {"emitter": ["BLNDTkn"], "backstop": ["BToken", "BLNDTkn", "USDCTkn", "PoolFact", "Emitter"],
             "pool": ["Name", "Backstop", "BLNDTkn"], "pool_factory": ["PoolMeta"]}
    for crate, cls in fixed.items():
        for x in cls:
            only_writers(c, "fixed", crate, x, {"initialize"})
    for crate in ("emitter", "backstop", "pool", "pool_factory"):
        for n in sorted(c.M.entries(crate)):
            s = c.S(crate, n)
            for e in effs(s, "foreign"):
                c.fail("code", e, "no operation replaces the contract's code or uses the host outside the modelled interface: %s" % e.data[0])
            c.ok(True, "code", s, "no operation replaces the contract's code")
        for f in c.M.crate(crate).fns.values():
            for b in f.blocks:
                if b["t"][0] == "call" and b["t"][1].get("def", "").endswith("update_current_contract_wasm"):
                    c.fail("code", "%s:%s" % (b.get("fl", f.name), b.get("l")), "%s replaces the contract's code" % f.name)
    s = c.S("emitter", "initialize")
    blnd, bs, bt = [arg(s, i) for i in range(3)]
    LD = ("P", "EmitterDataKey::LastDistro")
    expect_store(c, "emitter-init", s, {("I", "BLNDTkn"): put("I", "BLNDTkn", TT, blnd), ("I", "Backstop"): put("I", "Backstop", TT, bs),
                                        ("I", "BToken"): put("I", "BToken", TT, bt), init: put(*init, TT, TRUE),
                                        LD: put(*LD, bs, NOW)})
    s = c.S("backstop", "initialize")
    bt, em, usdc, blnd, fact, drop = [arg(s, i) for i in range(6)]
    expect_store(c, "backstop-init", s, {("I", "BToken"): put("I", "BToken", TT, bt), ("I", "Emitter"): put("I", "Emitter", TT, em),
                                         ("I", "USDCTkn"): put("I", "USDCTkn", TT, usdc), ("I", "BLNDTkn"): put("I", "BLNDTkn", TT, blnd),
                                         ("I", "PoolFact"): put("I", "PoolFact", TT, fact), init: put(*init, TT, TRUE),
                                         ("T", "DropList"): put("T", "DropList", TT, drop)}, ignore={("P", "LastDist")})
    s = c.S("pool_factory", "initialize")
    expect_store(c, "factory-init", s, {("I", "PoolMeta"): put("I", "PoolMeta", TT, arg(s, 0)), init: put(*init, TT, TRUE)})


@prop("C13", ["pool"], lambda M, crate: opaque_std(M, crate))
def admin_only(c):
    framed(c)
    A = inst("Admin")
    for n in ("set_admin", "update_pool", "queue_set_reserve", "cancel_set_reserve", "set_status", "set_emissions_config"):
        s = c.S("pool", n)
        needs(c, "admin", s, auth(A), "the current admin authorised the call")
        calls_only(c, "admin-calls", s, set())
    s = c.S("pool", "set_admin")
    needs(c, "admin", s, auth(arg(s, 0)), "the new admin authorised the call")
    expect_store(c, "set_admin", s, {("I", "Admin"): put("I", "Admin", TT, arg(s, 0))})
    event_once(c, "events", s, "set_admin", arg(s, 0), topics=(A,))
    s = c.S("pool", "update_pool")
    needs(c, "update_pool", s, lt(arg(s, 0), I(S7)), "the backstop take rate is below 100%")
    expect_store(c, "update_pool", s, {CF: put(*CF, TT, agg(CFT, None, (cfg(0), arg(s, 0), cfg(2), arg(s, 1))))})
    event_once(c, "events", s, "update_pool", (arg(s, 0), arg(s, 1)), topics=(A,))
    s = c.S("pool", "cancel_set_reserve")
    expect_store(c, "cancel", s, {RI: delete(N("map0", *RI), arg(s, 0))})
    event_once(c, "events", s, "cancel_set_reserve", arg(s, 0), topics=(A,))
    only_writers(c, "writers", "pool", "Admin", {"initialize", "set_admin"})
    only_writers(c, "writers", "pool", "Config", {"initialize", "update_pool", "set_status", "update_status"})
    only_writers(c, "writers", "pool", RI[1], {"queue_set_reserve", "cancel_set_reserve", "set_reserve"})
    only_writers(c, "writers", "pool", "PoolEmis", {"set_emissions_config"})
    only_writers(c, "writers", "pool", RC[1], {"set_reserve"})
    only_writers(c, "writers", "pool", "ResList", {"set_reserve"})
    for n, s in c.all("pool", but=("initialize", "update_pool", "set_status", "update_status")).items():
        pass
    # the operations anyone may call change no setting an admin owns beyond the status machine / a queued reserve
    s = c.S("pool", "update_status")
    f = sel(final(s, *CF), TT, CFT)
    for i, n in ((0, "oracle"), (1, "take rate"), (3, "max positions")):
        c.ok(same(fld(f, i), cfg(i), s.commit), "update_status", s, "update_status must not change the " + n)


@prop("C14", ["pool"], lambda M, crate: opaque_std(M, crate))
def reserve_config(c):
    framed(c)
    s = c.S("pool", "queue_set_reserve")
    asset, md = arg(s, 0), arg(s, 1)
    f = [fld(md, i, "u32") for i in range(11)]
    needs(c, "valid", s, le(f[1], I(18)), "decimals <= 18")
    needs(c, "valid", s, le(f[2], I(S7)), "collateral factor <= 100%")
    needs(c, "valid", s, le(f[3], I(S7)), "liability factor <= 100%")
    needs(c, "valid", s, le(f[4], I(9500000)), "target utilisation <= 95%")
    needs(c, "valid", s, le(f[5], I(S7)), "max utilisation <= 100%")
    needs(c, "valid", s, lt(f[4], f[5]), "max utilisation above the target")
    needs(c, "valid", s, band(lt(f[6], I(S7)), le(I(1000), f[6])), "base rate in [0.01%, 100%)")
    needs(c, "valid", s, band(le(f[7], f[8]), le(f[8], f[9])), "rates are ordered r_one <= r_two <= r_three")
    needs(c, "valid", s, le(f[10], I(1000)), "reactivity <= 0.0001")
    needs(c, "queue", s, bnot(has(N("map0", *RI), asset)), "no change is queued for this asset")
    needs(c, "queue", s, auth(inst("Admin")), "the admin authorised it")
    at_edge = bands(eq(f[1], I(18)), eq(f[2], I(S7)), eq(f[3], I(S7)), eq(f[4], I(9500000)), eq(f[5], I(S7)), eq(f[6], I(1000)),
                    eq(f[7], f[8]), eq(f[8], f[9]), eq(f[10], I(1000)))
    allows(c, "valid", s, at_edge, "every parameter is at its limit")
    unlock = ite(eq(cfg(STATUS), I(6)), NOW, add(NOW, I(WEEK)))
    expect_store(c, "timelock", s, {RI: put(*RI, asset, agg(RIT, None, (md, unlock)))})
    event_once(c, "events", s, "queue_set_reserve", (asset, md))

    s = c.S("pool", "set_reserve")
    asset = arg(s, 0)
    q = sel(N("map0", *RI), asset, RIT)
    n = fld(q, 0, RCT)
    nf = [fld(n, i, "u32") for i in range(11)]
    needs(c, "apply", s, has(N("map0", *RI), asset), "a change is queued for this asset")
    needs(c, "apply", s, le(fld(q, 1, "u64"), NOW), "its unlock time has passed")
    old = has(N("map0", *RC), asset)
    of = rcfg(asset)
    needs(c, "apply", s, eq(of[1], nf[1]), "an existing reserve keeps its decimals", when=old)
    lst = sel(N("map0", *RL), TT, ADDRS)
    hl = has(N("map0", *RL), TT)
    first = ite(hl, vlen(lst), I(0))
    idx = ite(old, of[0], first)
    newc = agg(RCT, None, (idx,) + tuple(nf[1:]))
    expect_store(c, "apply", s, {RI: delete(N("map0", *RI), asset), RC: put(*RC, asset, newc)}, ignore={RD, RL})
    fresh = agg(RDT, None, (I(S9), I(S9), I(S9), I(0), I(0), I(0), NOW))
    grown = ite(hl, vec_op("vpush", lst, asset), vec_op("vpush", N("vec", (), ty=ADDRS), asset))
    expect_store(c, "new-reserve", s, {RD: put(*RD, asset, fresh), RL: put(*RL, TT, grown)}, when=bnot(old), ignore={RI, RC})
    expect_store(c, "old-reserve", s, {}, when=old, ignore={RI, RC, RD})
    got = sel(final(s, *RD), asset, RDT)
    was = rdat(asset)
    for i in (3, 4):
        c.ok(same(fld(got, i), was[i], band(s.commit, old)), "old-reserve", s, "reconfiguring a reserve must not change its supplies")
    ir_changed = bors(*[bnot(eq(of[i], nf[i])) for i in (4, 6, 7, 8, 9)])
    c.ok(same(fld(got, 2), I(S9), bands(s.commit, old, ir_changed)), "ir-reset", s, "changed interest parameters reset the rate modifier to 1")
    c.ok(same(s.ret, idx, s.commit), "apply", s, "set_reserve returns the reserve's index")
    event_once(c, "events", s, "set_reserve", (asset, idx))
    calls_only(c, "calls", s, set())
    only_writers(c, "writers", "pool", RC[1], {"set_reserve"})
    only_writers(c, "writers", "pool", RL[1], {"set_reserve"})


# ---------------------------------------------------------------- status

BDT = "dependencies::backstop::PoolBackstopData"
THRESH = 320_000_000_000_000_000_000_000_000


def bdata(world=None):
    """backstop.pool_data(this pool): (blnd, q4w_pct, tokens, usdc)"""
    x = N("call", inst("Backstop"), "pool_data", (SELF,), world or N("w0"), ty=BDT)
    return [fld(x, i, "i128") for i in range(4)]


def atoms_of(*roots):
    """literals of every guard inside the given terms / guards"""
    out, seen, todo = {}, set(), list(roots)
    while todo:
        x = todo.pop()
        if id(x) in seen or type(x) is int:
            continue
        seen.add(id(x))
        if type(x) is D:
            for v in dvars(x):
                a = terms._vars[v]
                out[a] = True
                todo.append(a)
            todo += [t for t in dterms(x) if isinstance(t, Node)]
        elif type(x) is tuple:
            todo += list(x)
        elif isinstance(x, Node):
            todo += list(x.args)
    return list(out)


def factors(x):
    if x.op in ("saturating_mul",):
        return factors(x.args[0]) + factors(x.args[1])
    return [x]


def backed(atoms, blnd, usdc, pct7, care=1):
    """guard of 'floor(blnd)^4 * floor(usdc) (saturating) reaches pct7/1e7 of the 200k^5 threshold', as compared in the code"""
    wb, wu = muldiv("trunc", blnd, I(S7)), muldiv("trunc", usdc, I(S7))
    r = 0
    for a in atoms:
        if a.op != "lt":
            continue
        q, k = a.args[0], a.args[1]
        den = 1
        if q.op == "muldiv" and q.args[0] in ("trunc", "floor"):
            den = to_poly(q.args[2]).get((), 0) if len(to_poly(q.args[2])) == 1 else 0
            q = q.args[1]
        if q.op != "saturating_mul" or type(den) is not int or type(k) is not int:
            continue
        F, rest = 1, []
        for x in factors(q):
            p = to_poly(x)
            if set(p) <= {()} and type(p.get((), 0)) is int:
                F *= p.get((), 0)
            else:
                rest.append(x)
        if len(rest) == 5 and sum(same(x, wb, care) for x in rest) == 4 and sum(same(x, wu, care) for x in rest) == 1:
            if F > 0 and k * den * S7 == pct7 * THRESH * F:
                r = bor(r, bnot(lit(a)))
    return r


@prop("C15", ["pool"], lambda M, crate: opaque_std(M, crate))
def status(c):
    framed(c)
    blnd, q, tok, usdc = bdata()
    st = cfg(STATUS)

    def newst(s):
        return fld(sel(final(s, *CF), TT, CFT), 2, "u32")

    s = c.S("pool", "update_status")
    ns = newst(s)
    met = backed(atoms_of(ns, s.commit), blnd, usdc, S7)
    c.ok(sat(met) and sat(bnot(met)), "threshold", s, "update_status compares the backstop's holdings with the 200k threshold")
    needs(c, "update-refuses", s, bnot(eq(st, I(6))), "the pool is not in setup")
    needs(c, "update-refuses", s, bnot(eq(st, I(4))), "the pool is not frozen by the admin")
    other = ite(le(I(6000000), q), I(5), ite(bor(le(I(3000000), q), bnot(met)), I(3), I(1)))
    want = ite(eq(st, I(2)), ite(le(I(7500000), q), I(5), st),
               ite(eq(st, I(0)), ite(bor(bnot(met), le(I(5000000), q)), I(3), st), other))
    new = agg(CFT, None, (cfg(0), cfg(1), want, cfg(3)))
    expect_store(c, "update", s, {CF: put(*CF, TT, new)})
    for k, n in ((0, "admin active"), (1, "active"), (2, "admin on ice"), (3, "on ice"), (5, "frozen")):
        allows(c, "update-live", s, eq(st, I(k)), "the pool is " + n)
    c.ok(same(s.ret, ns, s.commit), "update", s, "update_status returns the new status")
    event_once(c, "events", s, "set_status", ns)
    calls_only(c, "calls", s, set())

    s = c.S("pool", "set_status")
    a = arg(s, 0)
    met = backed(atoms_of(s.commit), blnd, usdc, S7)
    needs(c, "set-admin", s, auth(inst("Admin")), "the admin authorised it")
    needs(c, "set-target", s, bors(*[eq(a, I(k)) for k in (0, 2, 3, 4)]), "the target is admin active, admin on ice, on ice or admin frozen")
    needs(c, "set-active", s, met, "the backstop threshold is met to activate", when=eq(a, I(0)))
    needs(c, "set-active", s, lt(q, I(5000000)), "under 50% of the backstop is queued to activate", when=eq(a, I(0)))
    needs(c, "set-ice", s, lt(q, I(7500000)), "under 75% of the backstop is queued to put on ice", when=bor(eq(a, I(2)), eq(a, I(3))))
    for k, when, n in ((0, 1, "activate"), (2, le(I(7499999), q), "put on admin ice at just under 75%"), (3, le(I(7499999), q), "put on ice at just under 75%"),
                       (4, le(I(S7), q), "freeze, whatever the backstop's state")):
        allows(c, "set-live", s, band(eq(a, I(k)), when), "the admin wants to " + n)
    expect_store(c, "set", s, {CF: put(*CF, TT, agg(CFT, None, (cfg(0), cfg(1), a, cfg(3))))})
    event_once(c, "events", s, "set_status", a)
    calls_only(c, "calls", s, set())
    only_writers(c, "writers", "pool", "Config", {"initialize", "update_pool", "set_status", "update_status"})


# ---------------------------------------------------------------- interest

class Res:
    """a reserve as an operation must see it: stored data brought to the current time"""

    def __init__(self, asset, m=None, cm=None, rate=None):
        f = rcfg(asset, cm)
        d, b, ir, bs, ds, cr, lt_ = rdat(asset, m)
        self.asset, self.cfg, self.old = asset, f, (d, b, ir, bs, ds, cr, lt_)
        self.index, self.scalar = f[0], power(I(10), f[1])
        self.c_factor, self.l_factor, self.max_util = f[2], f[3], f[5]
        rate = cfg(BSTOP_RATE) if rate is None else rate
        util, r_base, r1, r2, r3, react = f[4], f[6], f[7], f[8], f[9], f[10]
        liab0 = fmul("ceil", ds, d, S9)
        sup0 = fmul("floor", bs, b, S9)
        cu = fdiv("ceil", liab0, sup0, S7)
        self.util0 = cu
        self.fresh = eq(NOW, lt_)
        self.idle = bor(isz(bs), isz(cu))
        self.accrues = bnot(bor(self.fresh, self.idle))
        # the rate curve: three pieces, rounded up
        seg1 = fmul("ceil", add(fmul("ceil", fdiv("ceil", cu, util, S7), r1, S7), r_base), ir, S9)
        seg2 = fmul("ceil", adds(fmul("ceil", fdiv("ceil", sub(cu, util), sub(I(9500000), util), S7), r2, S7), r1, r_base), ir, S9)
        seg3 = add(fmul("ceil", fdiv("ceil", sub(cu, I(9500000)), I(500000), S7), r3, S7), fmul("ceil", ir, adds(r2, r1, r_base), S9))
        rate_now = ite(le(cu, util), seg1, ite(le(cu, I(9500000)), seg2, seg3))
        dt = scale(sub(NOW, lt_), S9)
        self.rate_now = rate_now
        # the reactive modifier
        err = scale(sub(cu, util), 100)
        up = add(ir, fmul("floor", fmul("floor", dt, err, S9), react, S7))
        down = add(ir, fmul("ceil", fmul("ceil", dt, err, S9), react, S7))
        self.ir_next = ite(le(I(0), err), imin(up, I(10 * S9)), imax(down, I(S9 // 10)))
        accr = add(I(S9), fmul("ceil", muldiv("trunc", dt, I(YEAR)), scale(rate_now, 100), S9))
        self.accr = accr
        d1 = fmul("ceil", accr, d, S9)
        liab1 = fmul("ceil", ds, d1, S9)
        earned = sub(liab1, liab0)
        pos = lt(I(0), earned)
        toll = ite(lt(I(0), rate), fmul("floor", earned, rate, S7), I(0))
        b1 = fdiv("floor", sub(add(sup0, earned), toll), bs, S9)
        self.earned, self.toll = earned, toll
        A = self.accrues
        self.d_rate = ite(A, d1, d)
        self.b_rate = ite(band(A, pos), b1, b)
        self.ir_mod = ite(A, self.ir_next, ir)
        self.b_supply, self.d_supply = bs, ds
        self.credit = ite(band(A, pos), add(cr, toll), cr)
        self.last_time = NOW

    def data(self, bs=None, ds=None, cr=None, ir=None):
        return agg(RDT, None, (self.d_rate, self.b_rate, self.ir_mod if ir is None else ir, self.b_supply if bs is None else bs,
                               self.d_supply if ds is None else ds, self.credit if cr is None else cr, self.last_time))

    def reserve(self, bs=None, ds=None, cr=None):
        """as the in-memory Reserve"""
        return {"asset": self.asset, "index": self.index, "l_factor": self.l_factor, "c_factor": self.c_factor, "max_util": self.max_util,
                "last_time": self.last_time, "scalar": self.scalar, "d_rate": self.d_rate, "b_rate": self.b_rate, "ir_mod": self.ir_mod,
                "b_supply": self.b_supply if bs is None else bs, "d_supply": self.d_supply if ds is None else ds,
                "backstop_credit": self.credit if cr is None else cr}


class OpaqueRes(Res):
    """the same reserve, with the outcome of bringing it up to date (which C17 decides) left opaque"""

    def __init__(self, asset, m=None, cm=None, rate=None):
        m = m or N("map0", *RD)
        cm = cm or N("map0", *RC)
        f = rcfg(asset, cm)
        d, b, ir, bs, ds, cr, lt_ = rdat(asset, m)
        self.asset, self.cfg, self.old = asset, f, (d, b, ir, bs, ds, cr, lt_)
        self.index, self.scalar = f[0], power(I(10), f[1])
        self.c_factor, self.l_factor, self.max_util = f[2], f[3], f[5]
        rate = cfg(BSTOP_RATE) if rate is None else rate
        self.d_rate, self.b_rate, self.ir_mod, self.credit = [N("accrued", n, asset, m, cm, rate, ty="i128") for n in ("d_rate", "b_rate", "ir_mod", "credit")]
        self.b_supply, self.d_supply = bs, ds
        self.last_time = NOW
        self.ok = bands(has(cm, asset), has(m, asset), lit(N("accrues", asset, m, cm)))


def loaders(M):
    """functions that read a reserve and bring it up to date: (function, how its parameters are used), found by signature"""
    C = M.crate("pool")
    out = []
    for f in C.fns.values():
        if not f.local or C.tn(f.locals[0]) != RES:
            continue
        tys = [strip(C.tn(f.locals[i + 1])) for i in range(f.argc)]
        if ADDR in tys and not any("Pool" in t.split("::")[-1] and not t.endswith("PoolConfig") or t in (RES, RCT, RDT) for t in tys):
            out.append((f, tys))
    return outer(C, out)


def outer(C, cand):
    """drop the functions only the other candidates call: they are parts of those, and run with them"""
    keys = {f.key for f, _ in cand}
    by = {}
    for g in C.fns.values():
        for b in g.blocks:
            t = b["t"]
            if t[0] == "call" and t[1].get("inst") in keys and t[1]["inst"] != g.key:
                by.setdefault(t[1]["inst"], set()).add(g.key)
    return [(f, t) for f, t in cand if not by.get(f.key) or by[f.key] - keys]


def strip(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].replace("mut ", "", 1).strip() if t[1:].startswith("mut ") else t[1:].strip()
    return t


def opaque_load(M, crate):
    """calls of the reserve loader yield OpaqueRes; C17 checks the loader itself"""
    if crate != "pool":
        return {}
    out = {}
    for f, tys in loaders(M):
        def h(ip, args, tys=tys):
            asset = rate = None
            for a, t in zip(args, tys):
                if t == ADDR:
                    asset = ip.deref(a)
                elif t.endswith("PoolConfig"):
                    rate = fld(ip.deref(a), BSTOP_RATE, "u32")
                elif t in ("u32", "i128"):
                    rate = ip.deref(a)
            R = OpaqueRes(asset, ip.stored(*RD), ip.stored(*RC), rate)
            ip.require(R.ok)
            v = R.reserve()
            return agg(RES, None, tuple(v[n] for n, _ in terms._STRUCT_FIELDS[RES]))
        out[f.key] = h
    return out


def settlers(M):
    """functions that settle a user's emissions of one reserve token: (id, supply, scalar, user, balance) -> ()"""
    C = M.crate("pool")
    out = []
    for f in C.fns.values():
        if not f.local or C.tn(f.locals[0]) != "()":
            continue
        tys = [strip(C.tn(f.locals[i + 1])) for i in range(f.argc)]
        if [t for t in tys if t != "soroban_sdk::Env"] == ["u32", "i128", "i128", ADDR, "i128"]:
            out.append((f, tys))
    return outer(C, out)


class Settled:
    """outcome of settling, left opaque (Emis checks it): stores over the maps before"""

    def __init__(self, rid, supply, scalar, user, bal, ed, ec, ue):
        on = has(ec, rid)
        cf = sel(ec, rid, ECT)
        cf = (fld(cf, 0, "u64"), fld(cf, 1, "u64"))

        def grown(old):
            if old.op == "ite":
                return terms._sel_dd(grown, old.args[0])
            i0, l0 = fld(old, 0, "i128"), fld(old, 1, "u64")
            a = (i0, l0) + cf + (supply, scalar)
            idx, last = N("emis", "index", *a, ty="i128"), N("emis", "last", *a, ty="u64")
            # settling twice in the same call does nothing more (the first brought the index up to date)
            ts = to_poly(i0)
            for m, k in ts.items():
                if len(m) != 1 or m[0][0].op != "emis" or m[0][1] != 1:
                    continue
                x = m[0][0]
                g = bands(dmap(lambda v: int(v == 1), k), *[dmap(lambda v: int(v == 0), k2) for m2, k2 in ts.items() if m2 is not m])
                g = bands(g, lt(I(0), x.args[5]), eq(x.args[6], scalar))
                idx, last = ite(g, i0, idx), ite(g, l0, last)
            return agg(EDT, None, (idx, last))
        old = sel(ed, rid, EDT)
        new = grown(old)
        idx = fld(new, 0, "i128")
        k = uekey(user, rid)
        have, u = has(ue, k), sel(ue, k, UET)
        ui, ua = ite(have, fld(u, 0, "i128"), I(0)), ite(have, fld(u, 1, "i128"), I(0))
        self.idx, self.acc = idx, add(ua, N("emis", "growth", idx, ui, scalar, bal, ty="i128"))
        self.ed = ite(on, store(ed, rid, new), ed)
        self.ue = ite(on, store(ue, k, agg(UET, None, (idx, self.acc))), ue)
        self.ok = bands(bor(bnot(on), has(ed, rid)), bor(bnot(on), lit(N("settles", idx, ui, scalar, bal))))


def settle(rid, supply, scalar, user, bal, ed, ue):
    return Settled(rid, supply, scalar, user, bal, ed, N("map0", *EC), ue)


def opaque_settle(M, crate):
    if crate != "pool":
        return {}
    out = {}
    for f, tys in settlers(M):
        def h(ip, args, tys=tys):
            v = [ip.deref(a) for a, t in zip(args, tys) if t != "soroban_sdk::Env"]
            ed, ec, ue = ip.stored(*ED), ip.stored(*EC), ip.stored(*UE)
            S = Settled(*v, ed, ec, ue)
            ip.require(S.ok)
            ip.effect("settle", tuple(v))
            ip.state[("st",) + ED] = S.ed
            ip.state[("st",) + UE] = S.ue
            return UNIT
        out[f.key] = h
    return out


def opaque_std(M, crate):
    return {**opaque_load(M, crate), **opaque_settle(M, crate)}


def sane_reserve(R):
    """reachable reserve data: non-negative rates and supplies, and a clock not in the future"""
    d, b, ir, bs, ds, cr, lt_ = R.old
    return bands(*[le(I(0), x) for x in (d, b, ir, bs, ds, cr)], le(lt_, NOW))


@prop("C17", ["pool"])
def interest(c):
    contracts(c)
    s = c.S("pool", "set_reserve")
    asset = arg(s, 0)
    old = has(N("map0", *RC), asset)
    R = Res(asset)
    q = fld(sel(N("map0", *RI), asset, RIT), 0, RCT)
    nf = [fld(q, i, "u32") for i in range(11)]
    keep = bands(*[eq(R.cfg[i], nf[i]) for i in (4, 6, 7, 8, 9)])
    got = sel(final(s, *RD), asset, RDT)
    for i, (n, x) in enumerate((("d_rate", R.d_rate), ("b_rate", R.b_rate), ("ir_mod", R.ir_mod), ("b_supply", R.b_supply),
                                ("d_supply", R.d_supply), ("backstop_credit", R.credit), ("last_time", R.last_time))):
        g = fld(got, i, "i128" if i < 6 else "u64")
        w = bands(s.commit, old, keep if n == "ir_mod" else 1)
        c.ok(same(g, x, w), "accrual", s, "bringing a reserve up to date must leave %s = %s; it leaves %s" % (n, txt(assume(x, w)), txt(assume(g, w))),
             key="accrual|" + n)


# ---------------------------------------------------------------- emissions bookkeeping

def uekey(user, rid):
    return agg(UEK, None, (user, rid))


class PEmis:
    """what settling the emissions of one reserve token (id, total supply) must do; ed/ue: storage maps before"""

    def __init__(self, rid, supply, scalar, ed=None, ec=None):
        self.rid, self.scalar = rid, scalar
        ec = ec or N("map0", *EC)
        self.b = b = ed or N("map0", *ED)
        self.on, cfg_ = has(ec, rid), sel(ec, rid, ECT)
        self.hasd, data = has(b, rid), sel(b, rid, EDT)
        self.exp, self.eps = fld(cfg_, 0, "u64"), fld(cfg_, 1, "u64")
        self.idx0, self.last = fld(data, 0, "i128"), fld(data, 1, "u64")
        self.skip = bors(le(self.exp, self.last), eq(NOW, self.last), isz(self.eps), isz(supply))
        end = imin(NOW, self.exp)
        self.end = end
        self.idx1 = add(self.idx0, muldiv("floor", muls(sub(end, self.last), self.eps, scalar), supply))
        self.idx = ite(self.skip, self.idx0, self.idx1)
        self.data_map = ite(band(self.on, bnot(self.skip)), store(b, rid, agg(EDT, None, (self.idx1, end))), b)

    def user(self, user, bal, claim=False, m=None):
        k = uekey(user, self.rid)
        b = m or N("map0", *UE)
        have, u = has(b, k), sel(b, k, UET)
        ui, ua = fld(u, 0, "i128"), fld(u, 1, "i128")
        prior = ite(have, ui, I(0))
        acc = add(ite(have, ua, I(0)), muldiv("floor", mul(bal, sub(self.idx, prior)), self.scalar))
        self.due = ite(self.on, acc, I(0))
        self.mono = bors(bnot(have), le(ui, self.idx))
        new = agg(UET, None, (self.idx, I(0) if claim else acc))
        return ite(self.on, store(b, k, new), b)

    def wf(self):
        return bor(bnot(self.on), self.hasd)


FIELDS = ("asset", "index", "l_factor", "c_factor", "max_util", "last_time", "scalar", "d_rate", "b_rate", "ir_mod", "b_supply", "d_supply", "backstop_credit")


def rfld(x, n):
    t = dict(terms._STRUCT_FIELDS[RES])
    return fld(x, [f for f, _ in terms._STRUCT_FIELDS[RES]].index(n), t[n])


class View:
    """one step of a walk, read with equalities known to hold"""

    def __init__(self, L, w, *norms):
        self.fs = list(norms)
        w = self.g(w)
        U, w2 = settle_care(w) if type(w) is D else (None, w)
        if U is not None:
            self.fs.append(U)
            w = band(U.care, w2)
        self.w, self.L = w, L
        self.steps = {k: self(v) for k, v in L.steps.items()}
        self.mus = {k: self(v) for k, v in L.mus.items()}

    def also(self, f):
        """the same step with one more equality"""
        V = object.__new__(View)
        V.fs, V.L, V.w = self.fs + [f], self.L, f.guard(self.w)
        V.steps = {k: f(v) for k, v in self.steps.items()}
        V.mus = {k: f(v) for k, v in self.mus.items()}
        return V

    def g(self, d):
        for f in self.fs:
            d = f.guard(d)
        return d

    def __call__(self, t):
        for f in self.fs:
            t = f(t)
        return t

    def cell(self, dc):
        for k in self.L.steps:
            if k[0] == ("st",) + dc:
                return self.mus[k], self.steps[k]
        return N("map0", *dc), N("map0", *dc)


class Cached:
    """the reserve an action works on: the copy cached in this call, else the stored one brought up to date"""

    def __init__(self, cache, asset):
        R = self.R = OpaqueRes(asset)
        h = self.hit = has(cache, asset)
        x = sel(cache, asset, RES)
        l = R.reserve()
        for n in FIELDS:
            setattr(self, n, ite(h, rfld(x, n), l[n]))
        # a cached copy is filed under its own asset and carries the reserve's fixed parameters (each step checks it)
        self.fixed = {rfld(x, "asset"): asset, rfld(x, "last_time"): NOW,
                      **{rfld(x, n): l[n] for n in ("index", "scalar", "c_factor", "l_factor", "max_util")}}
        self.norm = terms.Subst(self.fixed)
        for n in FIELDS:
            setattr(self, n, self.norm(getattr(self, n)))

    def make(self, **kw):
        fs = terms._STRUCT_FIELDS[RES]
        return agg(RES, None, tuple(kw.get(n, getattr(self, n)) for n, _ in fs))


def leaves_of(t, w):
    """the values t takes under w, each with its condition"""
    if type(w) is D:
        t = assume(t, w)
    t = terms.split(t)
    if type(t) is not D:
        return [(t, w)]
    r = [(x, band(w, dmap(lambda y: 1 if y is x else 0, t))) for x in dterms(t)]
    return [(x, g) for x, g in r if sat(g)]


class Filed(Rewriter):
    """a reserve cached in `m` is filed under its own asset (each step that fills a cache is checked to keep this)"""

    def __init__(self, m):
        super().__init__()
        self.m = m
        self.p = rfld(sel(m, N("arg", "k", ty=ADDR), RES), "asset")

    def leaf(self, n):
        p = self.p
        if n.op == p.op and n.ty == p.ty and n.args[1:] == p.args[1:]:
            x = n.args[0]
            if x.op == p.args[0].op and x.args[0] is self.m:
                return self(x.args[1])
        return None


def Under(C, V):
    for n in FIELDS:
        setattr(C, n, V(getattr(C, n)))
    return C


def bal(m, k):
    return ite(has(m, k), sel(m, k, "i128"), I(0))


def setbal(m, k, v):
    """a position of zero is removed"""
    return ite(isz(v), delete(m, k), store(m, k, v))


def role(L, t):
    """the loop variable whose final value is t"""
    for k, p in L.post.items():
        if p is t:
            return k
    return None


def by_type(L, ty):
    ks = [k for k, v in L.inits.items() if isinstance(v, Node) and v.ty == ty]
    return ks


CACHE_T = "soroban_sdk::Map<soroban_sdk::Address, pool::reserve::Reserve>"
M32 = "soroban_sdk::Map<u32, i128>"


def inits_of(L, ty):
    out = []
    for k, v in L.inits.items():
        ts = [v]
        if isinstance(v, Node) and v.op == "ite":
            ts = [t for t in dterms(v.args[0]) if isinstance(t, Node)]
        if any(isinstance(t, Node) and t.ty == ty for t in ts):
            out.append(k)
        elif k[1] and k[1][-1][-1] == ty:
            out.append(k)
    return out


def stored_back(c, rule, s, L):
    """every reserve the walk L changed is written to storage from its cached copy: exactly those listed, each under its own key"""
    ck, tk = inits_of(L, CACHE_T), inits_of(L, ADDRS)
    c.ok(len(ck) == 1 and len(tk) == 1, rule, s, "%s keeps one reserve cache and one list of reserves to store" % s.entry)
    if len(ck) != 1 or len(tk) != 1:
        raise Stop()
    ck, tk = ck[0], tk[0]
    cache, lst = L.post[ck], L.post[tk]
    caches = [cache]
    # a later walk may read further reserves into the cache; it must leave those already there alone
    for L2 in sorted(s.loops, key=lambda l: l.depth):
        for k2 in inits_of(L2, CACHE_T):
            if L2 is L or not any(L2.inits[k2] is x for x in caches):
                continue
            V2 = View(L2, bands(L2.entry_pc, L2.comp, lt(L2.iota, L2.bound)), Filed(L2.mus[k2]))
            m0 = V2.mus[k2]
            ok = True
            for x, g in leaves_of(V2.steps[k2], V2.w):
                if x is m0:
                    continue
                good = x.op == "store" and x.args[0] is m0
                if good:
                    K, v = x.args[1], x.args[2]
                    h = band(g, has(m0, K))
                    good = same(rfld(v, "asset"), K, g) and all(n == "asset" or same(rfld(v, n), rfld(sel(m0, K, RES), n), h) for n in FIELDS)
                ok = ok and good
            c.ok(ok, rule, s, "reading further reserves into the cache leaves those already changed as they are")
            caches.append(L2.post[k2])
    ws = [e for e in s.effects if e.kind == "write" and e.data[1] == RD[1] and sat(e.guard)]
    ws1 = [e for e in ws if len(e.loops) == 1 and same(e.loops[0][1], vlen(lst))]
    c.ok(len(ws) == 1 and len(ws1) == 1, rule, ws[0] if ws else s, "reserves are stored once, in one walk over the reserves to store")
    if len(ws1) != 1:
        raise Stop()
    e = ws1[0]
    d, b, i = e.loops[0]
    k = at(lst, i, ADDR)
    # all these caches agree on the listed reserves, so a value may come from any of them
    xs = [sel(x, k, RES) for x in caches]

    def cached(v, n):
        ys = [rfld(x, n) for x in xs]
        ls = leaves_of(v, 1)
        return all(any(y is z for z in ys) for y, g in ls) or all(any(same(y, z, g) for z in ys) for y, g in leaves_of(v, e.guard))
    bad = [n for q, n in enumerate(("d_rate", "b_rate", "ir_mod", "b_supply", "d_supply", "backstop_credit", "last_time"))
           if not cached(fld(e.data[3], q, "u64" if n == "last_time" else "i128"), n)]
    c.ok(not bad, rule, e, "each reserve is stored with its cached values; differs: %s" % ", ".join(bad))
    c.ok(same(e.data[2], k, e.guard) or cached(e.data[2], "asset"), rule, e, "each reserve is stored under its own key")
    L2 = loop_of(s, e)
    c.ok(L2 is not None and implies(bands(s.commit, L2.comp, lt(i, b)), e.guard), rule, e, "no changed reserve is left unstored")
    return ck, tk


def loop_of(s, e, n=-1):
    """the summarised loop an effect happens in"""
    if not e.loops:
        return None
    d, b, i = e.loops[n]
    key = ("st", e.data[0], e.data[1]) if e.kind in ("write", "del") else "world" if e.kind == "inv" else None
    for L in s.loops:
        if L.depth == d and L.bound is b and L.iota is i and (key is None or any(k == key for k, _ in L.steps)):
            return L
    return None


def listed(c, rule, s, mu, st, asset, w):
    """after the step `asset` is on the list of reserves to store, and nothing left the list"""
    pushed = vec_op("vpush", mu, asset)
    has_ = lit(N("contains", mu, asset))
    st = assume(st, w)
    leaves = {x: dmap(lambda y: 1 if y is x else 0, st.args[0]) for x in dterms(st.args[0])} if st.op == "ite" else {st: 1}
    ok = True
    for x, g in leaves.items():
        g = band(w, g)
        if sat(g) and not same(x, pushed, g) and not (x is mu and implies(g, has_)):
            ok = False
    return c.ok(ok, rule, s, "%s: a reserve that changes is put on the list of reserves to store" % s.entry)


def pos(user, i, m=None):
    """a user's position map (0 liabilities, 1 collateral, 2 supply)"""
    m = m or N("map0", *POS)
    return ite(has(m, user), fld(sel(m, user, POST), i, M32), N("mapnew", ty=M32))


def keep_empty(x):
    return x


def standalone(c, f):
    """a function analysed on its own, from an arbitrary state"""
    k = ("fn", f.key)
    if k not in c.M.sums:
        ip = Interp(c.M.crate("pool"))
        s = ip.run(f)
        s.crate, s.entry = "pool", f.tname
        s.unknown, s.nblocks, s.ncalls = ip.unknown, ip.nblocks, ip.callsites
        c.M.sums[k], c.M.ips[k] = s, ip
    s = c.M.sums[k]
    if k not in c.entries:
        c.entries[k] = True
        c.effects += len(s.effects)
        for e in s.effects:
            if e.kind.startswith("note:"):
                c.fail("analysis-gap", e, "the analysis lost a write here: " + e.kind)
    return s


def quiet(c, rule, s, writes=()):
    """no effect but writes to the given classes"""
    for e in s.effects:
        if e.kind in ("read", "ttl") or not sat(e.guard) or e.kind in ("write",) and (e.data[0], e.data[1]) in writes:
            continue
        c.fail(rule, e, "%s must not have the effect %s" % (s.entry, e.kind), key=rule + "|quiet|" + e.kind)
    c.ok(True, rule, s, "%s has no other effect" % s.entry)


def deref_(v):
    return v.args[0] if v.op == "cref" else v


def framed(c):
    """the reserve loader and the emission settlement touch nothing else (other rules leave them opaque)"""
    for f, tys in loaders(c.M):
        quiet(c, "loader", standalone(c, f))
    for f, tys in settlers(c.M):
        quiet(c, "settle", standalone(c, f), {ED, UE})


def contracts(c):
    """what callers are told about the reserve loader and the emission settlement holds for the functions themselves"""
    ls = loaders(c.M)
    c.ok(len(ls) > 0, "loader", "pool", "a reserve is loaded and brought up to date by one function")
    for f, tys in ls:
        s = standalone(c, f)
        asset = rate = None
        for i, t in enumerate(tys):
            if t == ADDR:
                asset = deref_(s.args[i])
            elif t.endswith("PoolConfig"):
                rate = fld(deref_(s.args[i]), BSTOP_RATE, "u32")
            elif t in ("u32", "i128"):
                rate = s.args[i]
        R = Res(asset, rate=rate)
        w = bands(s.commit, sane_reserve(R))
        c.ok(sat(w), "loader", s, "a reserve can be loaded")
        for fresh, nm in ((R.fresh, "already current"), (band(bnot(R.fresh), R.idle), "idle"), (band(bnot(R.fresh), bnot(R.idle)), "in use")):
            c.ok(sat(band(w, fresh)), "loader", s, "a reserve that is %s can be loaded" % nm)
        for n, x in R.reserve().items():
            g = rfld(s.ret, n)
            c.ok(same(g, x, w), "loader", s, "loading a reserve must yield %s = %s; it yields %s" % (n, txt(assume(x, w)), txt(assume(g, w))), key="loader|" + n)
        quiet(c, "loader", s)
    settle_contract(c)


def settle_contract(c):
    es = settlers(c.M)
    c.ok(len(es) > 0, "settle", "pool", "emissions are settled by one function")
    for f, tys in es:
        s = standalone(c, f)
        rid, sup, sc, user, bl = [deref_(s.args[i]) for i, t in enumerate(tys) if t != "soroban_sdk::Env"]
        E = PEmis(rid, sup, sc)
        m = E.user(user, bl)
        w = bands(s.commit, E.wf(), E.mono, le(I(0), bl), le(I(0), sup), lt(I(0), sc))
        c.ok(sat(band(w, bnot(E.skip))) and sat(band(w, bnot(E.on))), "settle", s, "emissions can be settled")
        c.ok(same_map(final(s, *ED), E.data_map, w), "settle", s, "settling advances the emission index by rate * elapsed time up to the expiry / supply")
        c.ok(same_map(final(s, *UE), m, w), "settle", s, "settling credits the user floor(balance * index growth)")
        quiet(c, "settle", s, {ED, UE})


@prop("C18", ["pool"], opaque_std)
def bad_debt(c):
    contracts(c)
    s = c.S("pool", "bad_debt")
    user, bs = arg(s, 0), inst("Backstop")
    liab, coll = pos(user, 0), pos(user, 1)
    needs(c, "only-bad", s, bnot(eq(user, bs)), "the user is not the backstop")
    needs(c, "only-bad", s, isz(mlen(coll)), "the user has no collateral left")
    needs(c, "only-bad", s, lt(I(0), mlen(liab)), "the user owes something")
    debt_moves(c, s, user, bs, liab, coll)
    calls_only(c, "calls", s, set())


def debt_moves(c, s, user, bs, liab, coll):
    """every debt of the user becomes the backstop's"""
    # who ends up with what
    f = final(s, *POS)
    up, bp = sel(f, user, POST), sel(f, bs, POST)
    Ls = [L for L in s.loops if inits_of(L, CACHE_T)]
    c.ok(len(Ls) == 1, "walk", s, "the user's debts are walked once")
    if len(Ls) != 1:
        return
    L = Ls[0]
    cand = inits_of(L, M32)
    uk = [k for k in cand if same(L.inits[k], liab, s.commit)]
    bk = [k for k in cand if k not in uk and same(L.inits[k], pos(bs, 0), s.commit)]
    c.ok(len(uk) == 1 and len(bk) == 1, "walk", s, "the walk carries the user's and the backstop's liabilities")
    if len(uk) != 1 or len(bk) != 1:
        return
    uk, bk = uk[0], bk[0]
    mk = lambda who, l: agg(POST, None, (l, pos(who, 1), pos(who, 2)))
    expect_store(c, "positions", s, {POS: store(put(*POS, bs, mk(bs, L.post[bk])), user, mk(user, L.post[uk]))}, ignore={RD, ED, UE})
    c.ok(same(L.bound, mlen(liab), s.commit), "walk", s, "every debt of the user is moved")
    i = L.iota
    rid = N("keyat", liab, i, ty="u32")
    asset = at(sel(N("map0", *RL), TT, ADDRS), rid, ADDR)
    ck, tk = stored_back(c, "stored", s, L)
    C = Cached(L.mus[ck], asset)
    V = View(L, bands(s.commit, L.comp, lt(i, L.bound), eq(C.R.index, rid), lt(I(0), C.d_supply)), C.norm, terms.Subst({C.R.index: rid}))
    w = V.w
    c.ok(sat(w), "walk", s, "a debt can be moved")
    asset, rid, amt = V(asset), V(rid), V(sel(liab, rid, "i128"))
    C = Under(C, V)
    ub, bb = bal(V.mus[uk], rid), bal(V.mus[bk], rid)
    c.ok(same_map(V.steps[bk], store(V.mus[bk], rid, add(bb, amt)), w), "debt", s, "the backstop takes over exactly the user's debt")
    c.ok(same_map(V.steps[uk], setbal(V.mus[uk], rid, sub(ub, amt)), w), "debt", s, "the user is relieved of exactly that debt")
    c.ok(same_map(V.steps[ck], store(V.mus[ck], asset, C.make()), w), "supply", s, "moving debt leaves the reserve's totals unchanged")
    listed(c, "stored", s, V.mus[tk], V.steps[tk], asset, w)
    # emissions are settled at the old balances
    ed0, ed1 = V.cell(ED)
    ue0, ue1 = V.cell(UE)
    A = settle(scale(rid, 2), C.d_supply, C.scalar, bs, bb, ed0, ue0)
    Z = settle(scale(rid, 2), C.d_supply, C.scalar, user, ub, A.ed, A.ue)
    c.ok(same_map(ed1, A.ed, w), "emissions", s, "the debt token's emissions are brought up to date first")
    c.ok(same_map(ue1, Z.ue, w), "emissions", s, "both users' emissions are settled at their old balances")
    es = effs(s, "event", topic="bad_debt")
    c.ok(len(es) == 1 and implies(w, V.g(es[0].guard)), "events", es[0] if es else s, "each moved debt is announced")
    for e in es:
        c.ok(same(e.data[0].args[2][1], user, e.guard) and same(V(fld(e.data[1], 0)), asset, w) and same(V(fld(e.data[1], 1)), amt, w), "events", e, "the event names user, asset and amount")


def mucell(L, dc):
    for k in L.steps:
        if k[0] == ("st",) + dc:
            return L.mus[k], L.steps[k]
    return N("map0", *dc), N("map0", *dc)

