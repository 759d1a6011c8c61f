from core import *
from spec import *

CT = ("P", "PoolFactoryDataKey::Contracts")
META = "storage::PoolInitMeta"


def inside(n):
    """all nodes of a term"""
    r, todo, seen = set(), [n], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Node):
            r.add(x)
            todo += list(x.args)
        elif type(x) is tuple:
            todo += list(x)
        elif type(x) is D:
            todo += [terms._vars[v] for v in dvars(x)] + [t for t in dterms(x) if isinstance(t, Node)]
    return r


@prop("C16", ["pool_factory", "pool"])
def factory(c):
    s = c.S("pool_factory", "deploy")
    admin, name, salt, oracle, rate, mx = [arg(s, i) for i in range(6)]
    meta = inst("PoolMeta", META)
    hash_, bs, blnd = fld(meta, 0), fld(meta, 1, ADDR), fld(meta, 2, ADDR)
    needs(c, "deploy", s, auth(admin), "the admin authorised the deployment")
    needs(c, "deploy", s, lt(rate, I(10 ** 7)), "the backstop take rate is below 100%")
    needs(c, "deploy", s, le(I(2), mx), "at least two positions are allowed")
    ds = effs(s, "deploy")
    c.ok(len(ds) == 1 and not ds[0].loops and implies(s.commit, ds[0].guard), "deploy", ds[0] if ds else s, "exactly one contract is deployed")
    if len(ds) != 1:
        return
    who, h = ds[0].data[:2]
    new = s.ret
    c.ok(h is hash_, "deploy", ds[0], "the deployed code is the pool wasm fixed at initialization")
    c.ok(new.op == "deployed" and new.args[0] is who and new.args[1] is h, "deploy", s, "deploy returns the address of the deployed contract")
    ins = inside(who)
    c.ok(who.op == "deployer" and any(x.op == "keccak256" for x in ins), "salt", ds[0], "the pool is deployed by the factory itself, at a hashed salt")
    c.ok(salt in ins and admin in ins, "salt", ds[0], "the deployment salt binds both the caller's salt and the admin (no one else can take the address): %s" % txt(who, 14))
    c.ok(not ins & {name, oracle, rate, mx}, "salt", ds[0], "the address depends on nothing but salt and admin")
    call_once(c, "initialize", s, "initialize", new, (admin, name, oracle, rate, mx, bs, blnd))
    calls_only(c, "calls", s, {"initialize"})
    expect_store(c, "registry", s, {CT: put(*CT, new, TRUE)})
    event_once(c, "events", s, "deploy", new)
    only_writers(c, "registry-writers", "pool_factory", CT[1], {"deploy"})
    v = c.S("pool_factory", "is_pool")
    a = arg(v, 0)
    m = N("map0", *CT)
    want = band(has(m, a), truth(sel(m, a, "bool")))
    c.ok(same(v.ret, B(want), v.commit), "is_pool", v, "is_pool is true exactly for recorded deployments")
    c.ok(v.commit == 1, "is_pool", v, "is_pool never fails")
    # the argument order agrees with the pool's own initializer
    p = c.S("pool", "initialize")
    CFT = "storage::PoolConfig"
    conf = sel(final(p, "I", "Config"), TT, CFT)
    got = [(sel(final(p, "I", "Admin"), TT, ADDR), 0), (sel(final(p, "I", "Name"), TT, ADDR), 1), (fld(conf, 0, ADDR), 2), (fld(conf, 1, "u32"), 3),
           (fld(conf, 3, "u32"), 4), (sel(final(p, "I", "Backstop"), TT, ADDR), 5), (sel(final(p, "I", "BLNDTkn"), TT, ADDR), 6)]
    for t, i in got:
        c.ok(same(t, arg(p, i), p.commit), "initialize-order", p, "pool.initialize stores its argument %d in the expected setting" % i)
