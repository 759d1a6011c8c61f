from core import *
from spec import *

LD = ("P", "EmitterDataKey::LastDistro")
DROP = ("P", "EmitterDataKey::Dropped")
SWAP = ("P", "Swap")
DAY31 = 31 * 24 * 3600
ONE = 10 ** 7


def last(bs):
    return sel(N("map0", *LD), bs, "u64")


def owed(bs):
    return scale(sub(NOW, last(bs)), ONE)


def balance(tok, who):
    return N("call", tok, "balance", (who,), N("w0"))


@prop("C01", ["emitter"])
def emission_rate(c):
    """one BLND per second, to the listed backstop, each second once"""
    bs, blnd = inst("Backstop"), inst("BLNDTkn")
    s = c.S("emitter", "distribute")
    call_once(c, "mint", s, "mint", blnd, (bs, owed(bs)))
    calls_only(c, "mint", s, {"mint"})
    expect_store(c, "clock", s, {LD: put(*LD, bs, NOW)})
    needs(c, "clock", s, has(N("map0", *LD), bs), "the listed backstop has a distribution clock")
    c.ok(same(s.ret, owed(bs), s.commit), "return", s, "distribute returns the amount minted")
    event_once(c, "event", s, "distribute", (bs, owed(bs)))
    # the only other places where BLND is minted or the clock moves
    only_callers(c, "minters", "emitter", "mint", {"distribute", "swap_backstop", "drop"})
    only_writers(c, "clock-writers", "emitter", LD[1], {"initialize", "distribute", "swap_backstop"})
    i = c.S("emitter", "initialize")
    expect_store(c, "clock-init", i, {LD: put(*LD, arg(i, 1), NOW)}, only={LD})
    w = c.S("emitter", "swap_backstop")
    q = sel(N("map0", *SWAP), TT, "backstop_manager::Swap")
    call_once(c, "swap-mint", w, "mint", blnd, (bs, owed(bs)))
    expect_store(c, "swap-clock", w, {LD: store(put(*LD, bs, NOW), fld(q, 0), NOW)}, only={LD})
    g = c.S("emitter", "get_last_distro")
    c.ok(same(g.ret, last(arg(g, 0)), g.commit), "getter", g, "get_last_distro reports the clock of the backstop asked for")


@prop("C02", ["emitter"])
def swap_rules(c):
    bs, tok = inst("Backstop"), inst("BToken")
    q = sel(N("map0", *SWAP), TT, "backstop_manager::Swap")
    w0 = N("w0")

    def bal(t, a):
        return N("call", t, "balance", (a,), w0)

    def bal_of(s, a):
        """the balance term the code itself reads (SDK read-only call on the backstop token)"""
        for e in effs(s, "view", method="balance"):
            if same(e.data[1], tok, e.guard) and same(e.data[3][0], a, e.guard):
                return N("call", e.data[1], "balance", (e.data[3][0],), w0, ty="i128")
        return None

    def bigger(c, s, new):
        a, b = bal_of(s, new), bal_of(s, bs)
        c.ok(a is not None and b is not None, "balances", s, "%s compares the two backstops' holdings of the current backstop token" % s.entry)
        if a is None or b is None:
            raise Stop()
        return lt(b, a)

    s = c.S("emitter", "queue_swap_backstop")
    needs(c, "queue", s, bnot(has(N("map0", *SWAP), TT)), "no swap is already queued")
    needs(c, "queue", s, bigger(c, s, arg(s, 0)), "the new backstop holds strictly more backstop tokens than the listed one")
    new = agg("backstop_manager::Swap", None, (arg(s, 0), arg(s, 1), add(NOW, I(DAY31))))
    expect_store(c, "queue", s, {SWAP: put(*SWAP, TT, new)})
    calls_only(c, "queue", s, set())
    event_once(c, "queue-event", s, "q_swap", (arg(s, 0), arg(s, 1), add(NOW, I(DAY31))))

    s = c.S("emitter", "swap_backstop")
    needs(c, "swap", s, has(N("map0", *SWAP), TT), "a swap is queued")
    needs(c, "swap", s, le(fld(q, 2), NOW), "the unlock time has passed")
    needs(c, "swap", s, bigger(c, s, fld(q, 0)), "the queued backstop still holds strictly more backstop tokens")
    expect_store(c, "swap", s, {
        SWAP: delete(N("map0", *SWAP), TT), ("I", "Backstop"): put("I", "Backstop", TT, fld(q, 0)),
        ("I", "BToken"): put("I", "BToken", TT, fld(q, 1)),
        LD: store(put(*LD, bs, NOW), fld(q, 0), NOW)})
    # the outgoing backstop is paid before it is replaced
    call_once(c, "swap-payout", s, "mint", inst("BLNDTkn"), (bs, owed(bs)))
    event_once(c, "swap-event", s, "swap", (fld(q, 0), fld(q, 1), fld(q, 2)))

    s = c.S("emitter", "cancel_swap_backstop")
    needs(c, "cancel", s, has(N("map0", *SWAP), TT), "a swap is queued")
    needs(c, "cancel", s, bnot(bigger(c, s, fld(q, 0))), "the queued backstop no longer holds more backstop tokens")
    expect_store(c, "cancel", s, {SWAP: delete(N("map0", *SWAP), TT)})
    calls_only(c, "cancel", s, set())
    event_once(c, "cancel-event", s, "del_swap", (fld(q, 0), fld(q, 1), fld(q, 2)))

    only_writers(c, "swap-writers", "emitter", "Swap", {"queue_swap_backstop", "cancel_swap_backstop", "swap_backstop"})
    only_writers(c, "backstop-writers", "emitter", "Backstop", {"initialize", "swap_backstop"})
    only_writers(c, "token-writers", "emitter", "BToken", {"initialize", "swap_backstop"})
    g = c.S("emitter", "get_backstop")
    c.ok(same(g.ret, bs, g.commit), "getter", g, "get_backstop reports the listed backstop")


@prop("C03", ["emitter"])
def drop_rules(c):
    bs, blnd = inst("Backstop"), inst("BLNDTkn")
    s = c.S("emitter", "drop")
    lst = arg(s, 0)
    needs(c, "auth", s, auth(bs), "the listed backstop authorised the call")
    done = band(has(N("map0", *DROP), bs), truth(sel(N("map0", *DROP), bs, "bool")))
    needs(c, "once", s, bnot(done), "this backstop has not dropped before")
    es = effs(s, "inv")
    calls_only(c, "mints", s, {"mint"})
    c.ok(len(es) == 1 and len(es[0].loops) == 1, "mints", es[0] if es else s, "one mint per list entry, in one pass over the list")
    if len(es) != 1 or len(es[0].loops) != 1:
        return
    e = es[0]
    d, bound, iota = e.loops[0]
    c.ok(same(bound, vlen(lst)), "mints", e, "the pass covers the whole list")
    it = at(lst, iota, "(soroban_sdk::Address, i128)")
    r = same_args(e, blnd, (fld(it, 0, ADDR), fld(it, 1, "i128")))
    c.ok(r is True, "mints", e, "each listed address receives its listed amount (%s)" % r)
    c.ok(implies(bands(s.commit, lt(iota, bound)), e.guard), "mints", e, "no list entry is skipped")
    from interp import mk_sum
    tot = mk_sum(d, bound, iota, e.data[3][1])
    needs(c, "cap", s, le(tot, I(50_000_000 * ONE)), "the listed amounts sum to at most 50M BLND")
    expect_store(c, "flag", s, {DROP: put(*DROP, bs, TRUE)})
    only_writers(c, "flag-writers", "emitter", DROP[1], {"drop"})
    b = c.S("backstop", "drop")
    call_once(c, "backstop-drop", b, "drop", inst("Emitter"), (sel(N("map0", "T", "DropList"), TT, "soroban_sdk::Vec<(soroban_sdk::Address, i128)>"),))
