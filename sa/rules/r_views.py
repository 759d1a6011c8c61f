"""across all contracts: what the read-only entry points answer"""
from core import *
from spec import *
from rules.r_pool import *
from rules.r_backstop import user_bal
from rules.r_emitter import SWAP

SWT = "backstop_manager::Swap"
ALL = {"emitter": ("get_backstop", "get_last_distro", "get_queued_swap"), "backstop": ("backstop_token", "user_balance", "pool_data"),
       "pool": ("get_auction", "get_positions"), "pool_factory": ("is_pool",)}


def answers(c, crate, entry, val, pre=1):
    """answers val whenever pre holds, and fails otherwise"""
    s = c.S(crate, entry)
    c.ok(same(s.ret, val, band(s.commit, pre)), "answer", s, "%s::%s must answer %s; it answers %s" % (crate, entry, txt(val), txt(s.ret)), key="view|%s|answer" % entry)
    c.ok(implies(pre, s.commit), "open", s, "%s::%s must answer, whoever asks, whenever the record exists" % (crate, entry), key="view|%s|open" % entry)
    c.ok(implies(s.commit, pre), "open", s, "%s::%s must fail for a record that does not exist" % (crate, entry), key="view|%s|absent" % entry)


@prop("C40", ["emitter", "backstop", "pool", "pool_factory"], opaque_std)
def views(c):
    rec = lambda dur, cls, key, ty: (sel(N("map0", dur, cls), key, ty), has(N("map0", dur, cls), key))
    answers(c, "emitter", "get_backstop", *rec("I", "Backstop", TT, ADDR))
    answers(c, "emitter", "get_last_distro", *rec("P", "EmitterDataKey::LastDistro", arg(c.S("emitter", "get_last_distro"), 0), "u64"))
    answers(c, "backstop", "backstop_token", *rec("I", "BToken", TT, ADDR))
    s = c.S("pool", "get_auction")
    d = {"user": arg(s, 1), "auct_type": arg(s, 0)}
    answers(c, "pool", "get_auction", *rec(*AU, agg(AUK, None, tuple(d[f] for f, _ in terms._STRUCT_FIELDS[AUK])), AUT))
    # records that may be absent read as empty
    s = c.S("emitter", "get_queued_swap")
    m = N("map0", *SWAP)
    q, there = sel(m, TT, SWT), has(m, TT)
    some = eq(disc_of(s.ret), I(1))
    c.ok(s.commit == 1 and implies(some, there) and implies(there, some) and same(payload(s.ret, 1, 0, SWT), q, there), "answer", s,
         "get_queued_swap answers the queued swap, if any; it answers %s" % txt(s.ret), key="view|get_queued_swap")
    s = c.S("pool", "get_positions")
    m, k = N("map0", *POS), arg(s, 0)
    old, emp = sel(m, k, POST), N("mapnew", ty=M32)
    answers(c, "pool", "get_positions", agg(POST, None, tuple(ite(has(m, k), fld(old, i, M32), emp) for i in range(3))))
    s = c.S("backstop", "user_balance")
    sh, q4w = user_bal(arg(s, 0), arg(s, 1))
    answers(c, "backstop", "user_balance", agg(s.ret.ty, None, (sh, q4w)))
    s = c.S("pool_factory", "is_pool")
    m, k = N("map0", "P", "PoolFactoryDataKey::Contracts"), arg(s, 0)
    answers(c, "pool_factory", "is_pool", B(band(has(m, k), truth(sel(m, k, "bool")))))
    for crate, names in ALL.items():
        for n in names:
            s = c.S(crate, n)
            for e in s.effects:
                if e.kind in ("read", "ttl", "view") or not sat(band(s.commit, e.guard)):
                    continue
                c.fail("pure", e, "%s::%s is a view but has the effect %s" % (crate, n, e.kind), key="view|%s|pure" % n)
            c.ok(True, "pure", s, "")
