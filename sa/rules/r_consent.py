"""across all contracts: who must have agreed to a movement of value"""
from core import *
from spec import *
from rules.r_pool import *
from rules.r_submit import REQ, FLIQ

# which argument of a call names the account that pays
PAYER = {"transfer": 0, "transfer_from": 1, "donate": 0, "approve": 0, "draw": 0, "burn": 0, "burn_from": 1,
         "gulp_pool_emissions": 0, "dep_tokn_amt_in_get_lp_tokns_out": -1}
# calls that move nothing of an existing holder: (contract, method)
FREE = {("emitter", "mint"), ("backstop", "drop"), ("pool_factory", "initialize")}
LEDGERS = {"pool": (POS[1],), "backstop": ("BackstopDataKey::UserBalance",)}


def agreed(s, w, x):
    """x authorised the call, under that or another name"""
    g = auth(x)
    for e in effs(s, "auth"):
        g = bor(g, band(eq(x, e.data[0]), auth(e.data[0])))
    return implies(w, g)


@prop("C37", ["emitter", "backstop", "pool", "pool_factory"], opaque_std)
def consent(c):
    n = 0
    for crate in ("emitter", "backstop", "pool", "pool_factory"):
        for entry, s in c.all(crate).items():
            cm = s.commit
            for e in effs(s, "inv"):
                w = band(cm, e.guard)
                if not sat(w):
                    continue
                m, args = e.data[2], e.data[3]
                key = "pay|%s|%s|%s" % (crate, entry, m)
                if m not in PAYER:
                    c.ok((crate, m) in FREE, "calls", e, "%s::%s calls %s, which is not known to move nothing of anyone's" % (crate, entry, m), key=key)
                    continue
                who = args[PAYER[m]]
                n += 1
                ok = same(who, SELF, w) or agreed(s, w, who)
                if not ok and m == "transfer_from":
                    # the backstop's standing allowance to its pools
                    ok = crate == "pool" and same(who, inst("Backstop"), w) and same(args[0], SELF, w)
                c.ok(ok, "payer", e, "%s::%s takes value from %s, who has not authorised it" % (crate, entry, txt(who)), key=key)
            for e in s.effects:
                if e.kind not in ("write", "del") or e.data[1] not in LEDGERS.get(crate, ()):
                    continue
                w = band(cm, e.guard)
                if not sat(w):
                    continue
                k = e.data[2]
                u = k if crate == "pool" else fld(k, 1, ADDR)
                n += 1
                ok = agreed(s, w, u)
                if not ok and crate == "backstop":
                    ok = entry == "claim" and same(u, arg(s, 2), w)          # rewards are deposited for the receiver
                if not ok and crate == "pool":
                    ok = same(u, inst("Backstop"), w)                       # the pool's own insurer takes on or sheds bad debt
                    ok = ok or entry == "bad_debt" and same(u, arg(s, 0), w)  # debt without collateral is forgiven
                    if not ok and entry == "submit" and len(e.loops) == 1:
                        q = at(arg(s, 3), e.loops[0][2], REQ)
                        f = [n for n, _ in terms._STRUCT_FIELDS[REQ]]
                        ok = same(u, fld(q, f.index("address"), ADDR), w) and implies(w, eq(fld(q, f.index("request_type"), "u32"), I(FLIQ)))
                c.ok(ok, "ledger", e, "%s::%s changes the holdings of %s, who has not authorised it" % (crate, entry, txt(u)),
                     key="ledger|%s|%s" % (crate, entry))
    c.ok(n >= 12, "found", "pool", "calls and ledgers that move value were found")
