"""across all contracts: what is stored stays stored (lifetime extensions)"""
from core import *
from spec import *
from rules.r_pool import *

DAY = 17280
SHARED, LONG, INSTANCE = (45 * DAY, 46 * DAY), (100 * DAY, 120 * DAY), (30 * DAY, 31 * DAY)
# records kept alive by their own user's activity only
OWN = {"BackstopDataKey::UserBalance", "BackstopDataKey::UEmisData", POS[1], UE[1], "PoolFactoryDataKey::Contracts", "DropList", RI[1]}
# the marker of a past drop is only ever consulted by the drop; the clock's getter is a pure view
FREE = {("emitter", "drop", "EmitterDataKey::Dropped"), ("emitter", "get_last_distro", "EmitterDataKey::LastDistro")}
VIEWS = {"emitter": {"get_backstop", "get_last_distro", "get_queued_swap"}, "backstop": {"backstop_token", "pool_data", "user_balance"},
         "pool": {"get_auction", "get_positions"}, "pool_factory": {"is_pool"}}
# operations that leave the contract's own lifetime to the others
LEAVE = {"backstop": {"drop"}, "pool": {"bad_debt", "new_liquidation_auction", "set_emissions_config", "set_reserve"}}


def long_enough(t, least):
    a, b = t.data[3], t.data[4]
    return a.op == "int" and b.op == "int" and a.args[0] >= least[0] and b.args[0] >= least[1] and b.args[0] >= a.args[0]


def lasts(c, s, crate, entry, where):
    cm = s.commit
    tt = {}
    for t in s.effects:
        if t.kind == "ttl":
            tt.setdefault((t.data[0], t.data[1]), []).append(t)
    for e in s.effects:
        if e.kind not in ("write", "read"):
            continue
        dur, cls, key = e.data[:3]
        if (crate, entry, cls) in FREE or not (e.kind == "read" and dur == "P" and len(e.data) > 4 or e.kind == "write" and dur == "T"):
            continue
        w = band(cm, e.guard)
        if e.kind == "read":
            w = band(w, truth(e.data[4]))
        if not sat(w):
            continue
        least = LONG if cls in OWN else SHARED
        g = 0
        for t in tt.get((dur, cls), ()):
            if t.loops == e.loops[:len(t.loops)] and long_enough(t, least) and same(t.data[2], key, w):
                g = bor(g, t.guard)
        c.ok(implies(w, g), "kept" if e.kind == "read" else "filed", e,
             "%s %s %s[%s] without extending its lifetime to at least %d days" % (where, "reads" if e.kind == "read" else "stores", cls, txt(key), least[1] // DAY),
             key="ttl|%s|%s|%s" % (where, cls, e.kind))


@prop("C38", ["emitter", "backstop", "pool", "pool_factory"], opaque_std)
def lifetimes(c):
    for crate in ("emitter", "backstop", "pool", "pool_factory"):
        for entry, s in c.all(crate).items():
            lasts(c, s, crate, entry, crate + "::" + entry)
            if entry not in VIEWS[crate] and entry not in LEAVE.get(crate, ()):
                g = 0
                for t in s.effects:
                    if t.kind == "ttl" and t.data[:2] == ("I", "*") and not t.loops and long_enough(t, INSTANCE):
                        g = bor(g, t.guard)
                c.ok(implies(s.commit, g), "instance", s, "%s::%s does not extend the lifetime of the contract" % (crate, entry),
                     key="ttl|%s|%s|instance" % (crate, entry))
    for k in opaque_std(c.M, "pool"):
        f = c.M.crate("pool").fns[k]
        lasts(c, standalone(c, f), "pool", f.name, f.name)
