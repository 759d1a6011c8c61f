"""C45: what happens is announced, once, with what it was about"""
from core import *
from spec import *
from rules.r_pool import *
from rules.r_submit import Sub, NAMES, FLIQ, FBAD, DEL

EMI, BST, POO, FAC = "emitter", "backstop", "pool", "pool_factory"
# entry -> events, each (name, topics, data), as functions of the summary
admin = lambda s: inst("Admin")
TABLE = {
    (EMI, "distribute"): ("distribute", lambda s: (), lambda s: (inst("Backstop"), s.ret)),
    (EMI, "queue_swap_backstop"): ("q_swap", lambda s: (), lambda s: (arg(s, 0), arg(s, 1), None)),
    (EMI, "cancel_swap_backstop"): ("del_swap", lambda s: (), None),
    (EMI, "swap_backstop"): ("swap", lambda s: (), None),
    (EMI, "drop"): ("drop", lambda s: (), lambda s: arg(s, 0)),
    (BST, "deposit"): ("deposit", lambda s: (arg(s, 1), arg(s, 0)), lambda s: (arg(s, 2), s.ret)),
    (BST, "queue_withdrawal"): ("queue_withdrawal", lambda s: (arg(s, 1), arg(s, 0)), lambda s: (arg(s, 2), fld(s.ret, 1))),
    (BST, "dequeue_withdrawal"): ("dequeue_withdrawal", lambda s: (arg(s, 1), arg(s, 0)), lambda s: arg(s, 2)),
    (BST, "withdraw"): ("withdraw", lambda s: (arg(s, 1), arg(s, 0)), lambda s: (arg(s, 2), s.ret)),
    (BST, "gulp_emissions"): ("gulp_emissions", lambda s: (), None),
    (BST, "add_reward"): ("rw_zone", lambda s: (), lambda s: (arg(s, 0), arg(s, 1))),
    (BST, "claim"): ("claim", lambda s: (arg(s, 0),), lambda s: s.ret),
    (BST, "draw"): ("draw", lambda s: (arg(s, 0),), lambda s: (arg(s, 2), arg(s, 1))),
    (BST, "donate"): ("donate", lambda s: (arg(s, 1), arg(s, 0)), lambda s: arg(s, 2)),
    (POO, "set_admin"): ("set_admin", lambda s: (admin(s),), lambda s: arg(s, 0)),
    (POO, "update_pool"): ("update_pool", lambda s: (admin(s),), lambda s: (arg(s, 0), arg(s, 1))),
    (POO, "queue_set_reserve"): ("queue_set_reserve", lambda s: (admin(s),), lambda s: (arg(s, 0), arg(s, 1))),
    (POO, "cancel_set_reserve"): ("cancel_set_reserve", lambda s: (admin(s),), lambda s: arg(s, 0)),
    (POO, "set_reserve"): ("set_reserve", lambda s: (), lambda s: (arg(s, 0), s.ret)),
    (POO, "update_status"): ("set_status", lambda s: (), lambda s: s.ret),
    (POO, "set_status"): ("set_status", lambda s: (admin(s),), lambda s: arg(s, 0)),
    (POO, "gulp_emissions"): ("update_emissions", lambda s: (), lambda s: s.ret),
    (POO, "claim"): ("claim", lambda s: (arg(s, 0),), lambda s: (arg(s, 1), s.ret)),
    (POO, "new_liquidation_auction"): ("new_liquidation_auction", lambda s: (arg(s, 0),), lambda s: s.ret),
    (POO, "new_bad_debt_auction"): ("new_auction", lambda s: (I(1),), lambda s: s.ret),
    (POO, "new_interest_auction"): ("new_auction", lambda s: (I(2),), lambda s: s.ret),
    (FAC, "deploy"): ("deploy", lambda s: (), lambda s: s.ret),
}
# what a walk inside the entry announces besides
WALKS = {(BST, "claim"): {"deposit"}, (POO, "gulp_emissions"): {"reserve_emission_update"}, (POO, "bad_debt"): {"bad_debt"},
         (POO, "submit"): set(NAMES) | {"bad_debt"}}


@prop("C45", [EMI, BST, POO, FAC], opaque_std)
def announced(c):
    for crate in (EMI, BST, POO, FAC):
        for n in sorted(c.M.entries(crate)):
            s = c.S(crate, n)
            t = TABLE.get((crate, n))
            inner = WALKS.get((crate, n), set())
            for e in effs(s, "event"):
                if not sat(band(s.commit, e.guard)):
                    continue
                nm = topic(e)
                okk = t is not None and nm == t[0] and not e.loops or nm in inner and bool(e.loops)
                c.ok(okk, "names", e, "%s::%s announces %s" % (crate, n, nm), key="names|%s|%s" % (n, nm))
            if t is not None:
                event_once(c, "once", s, t[0], t[2] and t[2](s), topics=t[1](s))
    # requests: each announces itself once
    S = Sub(c, "requests")
    s = S.s
    V = View(S.L, S.w)
    typ = V(S.typ)
    evs = [e for e in effs(s, "event") if any(l[2] is S.L.iota for l in e.loops)]
    for k in range(10):
        w = band(V.w, eq(typ, I(k)))
        if not sat(w):
            continue
        tot = 0
        for e in evs:
            g = band(w, V.g(e.guard))
            if not sat(g):
                continue
            nm = topic(e)
            if k == FBAD and nm == "bad_debt":
                tp = e.data[0].args[2][1:]
                c.ok(len(e.loops) == 2 and len(tp) == 1 and same(V(tp[0]), inst("Backstop"), g), "requests", e, "debt written off is the backstop's", key="requests|off")
                continue
            c.ok(nm == NAMES[k] and len(e.loops) == 1, "requests", e, "a request of type %d is announced as %s" % (k, nm), key="requests|%d|name" % k)
            c.ok(not sat(band(g, tot)), "requests", e, "a request of type %d is announced once" % k, key="requests|%d|once" % k)
            tot = bor(tot, g)
            tp, d = [V(x) for x in e.data[0].args[2][1:]], e.data[1]
            want = (S.frm,) if k == DEL else (V(S.addr), I(k - FLIQ)) if k >= FLIQ else (V(S.addr), S.frm)
            okk = len(tp) == len(want) and all(same(x, y, g) for x, y in zip(tp, want))
            if FLIQ <= k < DEL:
                okk = okk and same(V(fld(d, 0)), S.frm, g) and same(V(fld(d, 1)), V(S.amt), g)
            c.ok(okk, "requests", e, "a request of type %d is announced with whom and what it is about: %s" % (k, effshow(e)), key="requests|%d|what" % k)
        c.ok(implies(w, tot), "requests", s, "a request of type %d is announced" % k, key="requests|%d|announced" % k)
