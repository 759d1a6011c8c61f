"""Semantics of the SDK / core functions the contracts call (everything else is analysed through its own MIR)."""
import re
from terms import *
import terms

PRIMS = {}
READONLY = {"balance", "decimals", "lastprice", "get_last_distro", "pool_data", "backstop_token", "allowance", "is_pool",
            "get_total_supply", "get_backstop", "get_queued_swap", "user_balance", "name", "symbol", "prices", "price",
            "last_timestamp", "base", "assets", "resolution", "get_balance", "total_supply"}
# views whose answer does not change within a transaction (backstop_token is fixed at initialisation, see C11)
PURE = {"decimals", "lastprice", "backstop_token"}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


_CLIENT = re.compile(r"([A-Za-z_0-9]*Client)(::<'[a-z_]+>)?::(\w+)$")


def lookup(c):
    n = c.name
    if n in PRIMS:
        h = PRIMS[n]
        g = _COND.get(n)
        if g is None or g(c):
            return h
        return None
    m = _CLIENT.search(n)
    if m:
        return client_new if m.group(3) == "new" else client_call
    m = _NUM.match(n)
    if m:
        return NUM.get(m.group(2))
    return None


_COND = {}


def opt(c, g, v, ty=None):
    """Option<T> present iff g"""
    ty = ty or c.dty["s"]
    return enum(ty, mk_poly({(): g}), (None, (v,)))


def okres(c, v):
    return variant(c.dty["s"], 0, [v])


# ------------------------------------------------------------------ environment

def _const(x):
    return lambda ip, c, a: x


for n in ("soroban_sdk::Env::ledger", "soroban_sdk::Env::storage", "soroban_sdk::Env::events", "soroban_sdk::Env::crypto",
          "soroban_sdk::Env::deployer", "soroban_sdk::storage::Storage::instance", "soroban_sdk::storage::Storage::persistent",
          "soroban_sdk::storage::Storage::temporary", "soroban_sdk::Env::prng", "soroban_sdk::Env::logs"):
    PRIMS[n] = _const(ENV)
PRIMS["soroban_sdk::ledger::Ledger::timestamp"] = _const(NOW)
PRIMS["soroban_sdk::ledger::Ledger::sequence"] = _const(SEQ)
PRIMS["soroban_sdk::Env::current_contract_address"] = _const(SELF)


@prim("soroban_sdk::Address::require_auth")
def require_auth(ip, c, a):
    x = ip.deref(a[0])
    ip.effect("auth", (x,))
    ip.require(auth_guard(x))
    return UNIT


def auth_guard(x):
    if x.op == "ite":
        return terms._push_bool(dmap(lambda t: B(auth_guard(t)), x.args[0]))
    return lit(N("auth", x))


@prim("soroban_sdk::Address::require_auth_for_args")
def require_auth_args(ip, c, a):
    x = ip.deref(a[0])
    ip.effect("auth_args", (x, ip.deref(a[1])))
    ip.require(lit(N("auth_args", x, ip.deref(a[1]))))
    return UNIT


@prim("soroban_sdk::Symbol::new")
def symbol(ip, c, a):
    s = ip.deref(a[1])
    return N("sym", s.args[0]) if s.op == "str" else N("symof", s)


@prim("soroban_sdk::Env::panic_with_error")
def panic_err(ip, c, a):
    return None


def _ident0(ip, c, a):
    return ip.deref(a[0])


for n in ("core::clone::Clone::clone", "soroban_sdk::IntoVal::into_val", "soroban_env_common::val::Void::to_val",
          "soroban_sdk::Address::to_val", "soroban_sdk::String::to_val", "soroban_sdk::Symbol::to_val", "soroban_sdk::Bytes::to_val",
          "core::borrow::ToOwned::to_owned", "soroban_sdk::Map::<K, V>::to_val", "soroban_sdk::Vec::<T>::to_val",
          "core::hint::black_box", "soroban_sdk::BytesN::<N>::to_val", "core::iter::IntoIterator::into_iter#id"):
    PRIMS[n] = _ident0


@prim("soroban_sdk::TryIntoVal::try_into_val", "soroban_sdk::TryFromVal::try_from_val")
def try_into_val(ip, c, a):
    x = ip.deref(a[0])
    if x.op == "env":
        x = ip.deref(a[1])
    return okres(c, x)


@prim("soroban_sdk::FromVal::from_val")
def from_val(ip, c, a):
    return ip.deref(a[1])


@prim("core::convert::Into::into", "core::convert::From::from")
def into(ip, c, a):
    x = ip.deref(a[0])
    return x


def _into_ok(c):
    t = c.targs()
    return all(x in INT_TYS or x == "bool" or x.startswith("soroban_sdk::") or x.startswith("&soroban_sdk::") for x in t) or \
        len(set(t)) == 1


_COND["core::convert::Into::into"] = _into_ok
_COND["core::convert::From::from"] = _into_ok


@prim("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(ip, c, a):
    x = ip.deref(a[0])
    e = terms._ENUMS.get(c.dty["s"])
    to = e[0][2][0][1]
    if to not in INT_TYS:
        return okres(c, x)
    return checked_conv(c, x, to)


def _tryinto_ok(c):
    e = terms._ENUMS.get(c.dty["s"])
    return bool(e) and e[0][2] and e[0][2][0][1] in INT_TYS and any(t in INT_TYS for t in c.targs())


_COND["core::convert::TryInto::try_into"] = _tryinto_ok
_COND["core::convert::TryFrom::try_from"] = _tryinto_ok


def checked_conv(c, x, to):
    """Result<to, E>: Ok(x) iff x is representable"""
    lo, hi = int_range(to)
    if fits(x, to):
        g = 1
    else:
        g = 1
        if not (lo < 0) and not nonneg(x):
            g = band(g, le(I(lo), x))
        if hi < (1 << 127) - 1:
            g = band(g, le(x, I(hi)))
    return enum(c.dty["s"], mk_poly({(): bnot(g)}), ((x,), (N("converr"),)))


for _t in INT_TYS:
    def _mk(t):
        def f(ip, c, a):
            x = ip.deref(a[0])
            if c.dty["k"] == "adt":
                return checked_conv(c, x, t)
            return x
        return f
    PRIMS["cast::" + _t] = _mk(_t)


# ------------------------------------------------------------------ comparisons

@prim("core::cmp::PartialEq::eq")
def p_eq(ip, c, a):
    return B(eq(full(ip, a[0]), full(ip, a[1])))


@prim("core::cmp::PartialEq::ne")
def p_ne(ip, c, a):
    return B(bnot(eq(full(ip, a[0]), full(ip, a[1]))))


def full(ip, v):
    return ip.deref(v)


def _ints(ip, a):
    x, y = ip.deref(a[0]), ip.deref(a[1])
    return (x, y) if is_int(x) and is_int(y) else None


def _cmpprim(name, fn):
    def f(ip, c, a):
        p = _ints(ip, a)
        if p is None:
            return ip.unknown_call(c, a)
        return B(fn(*p))
    PRIMS["core::cmp::PartialOrd::" + name] = f


_cmpprim("lt", lt)
_cmpprim("le", le)
_cmpprim("gt", lambda x, y: lt(y, x))
_cmpprim("ge", lambda x, y: le(y, x))


def _intself(c):
    t = c.targs()
    return bool(t) and (t[0].lstrip("&") in INT_TYS)


for n in ("lt", "le", "gt", "ge"):
    _COND["core::cmp::PartialOrd::" + n] = _intself


@prim("core::cmp::Ord::cmp")
def p_cmp(ip, c, a):
    p = _ints(ip, a)
    if p is None:
        return ip.unknown_call(c, a)
    x, y = p
    e = terms._ENUMS[c.dty["s"]]
    d = {n: v for n, v, _ in e}
    disc = ite(lt(x, y), I(d["Less"]), ite(eq(x, y), I(d["Equal"]), I(d["Greater"])))
    return enum(c.dty["s"], disc, (None, None, None))


_COND["core::cmp::Ord::cmp"] = _intself


@prim("core::cmp::PartialOrd::partial_cmp")
def p_pcmp(ip, c, a):
    p = _ints(ip, a)
    if p is None:
        return ip.unknown_call(c, a)
    x, y = p
    oty = c.some_ty()
    e = terms._ENUMS[oty]
    d = {n: v for n, v, _ in e}
    disc = ite(lt(x, y), I(d["Less"]), ite(eq(x, y), I(d["Equal"]), I(d["Greater"])))
    return opt(c, 1, enum(oty, disc, (None, None, None)))


_COND["core::cmp::PartialOrd::partial_cmp"] = _intself


@prim("core::cmp::Ord::min", "core::cmp::min")
def p_min(ip, c, a):
    p = _ints(ip, a)
    if p is None:
        return ip.unknown_call(c, a)
    x, y = p
    return imin(x, y)


@prim("core::cmp::Ord::max", "core::cmp::max")
def p_max(ip, c, a):
    p = _ints(ip, a)
    if p is None:
        return ip.unknown_call(c, a)
    x, y = p
    return imax(x, y)


@prim("core::cmp::Ord::clamp")
def p_clamp(ip, c, a):
    x, lo, hi = (ip.deref(v) for v in a)
    ip.require(le(lo, hi))
    # the ends of i128 bound nothing
    low = 0 if lo is I(-2 ** 127) else lt(x, lo)
    high = 0 if hi is I(2 ** 127 - 1) else lt(hi, x)
    return ite(low, lo, ite(high, hi, x))


for n in ("min", "max", "clamp"):
    _COND["core::cmp::Ord::" + n] = _intself
for n in ("min", "max"):
    _COND["core::cmp::" + n] = _intself

# ------------------------------------------------------------------ integer methods

_NUM = re.compile(r"core::num::<impl (\w+)>::(\w+)$")
NUM = {}


def num(*names):
    def deco(f):
        for n in names:
            NUM[n] = f
        return f
    return deco


def _nty(c):
    return _NUM.match(c.name).group(1)


@num("pow")
def n_pow(ip, c, a):
    return power(a[0], a[1])


@num("checked_pow")
def n_cpow(ip, c, a):
    return opt(c, 1, power(a[0], a[1]))


@num("abs")
def n_abs(ip, c, a):
    return ite(lt(a[0], I(0)), neg(a[0]), a[0])


@num("unsigned_abs")
def n_uabs(ip, c, a):
    return ite(lt(a[0], I(0)), neg(a[0]), a[0])


@num("is_negative")
def n_isneg(ip, c, a):
    return B(lt(a[0], I(0)))


@num("is_positive")
def n_ispos(ip, c, a):
    return B(lt(I(0), a[0]))


@num("signum")
def n_signum(ip, c, a):
    return ite(lt(a[0], I(0)), I(-1), ite(lt(I(0), a[0]), I(1), I(0)))


@num("checked_add")
def n_cadd(ip, c, a):
    return opt(c, 1, add(a[0], a[1]))


@num("checked_mul")
def n_cmul(ip, c, a):
    return opt(c, 1, mul(a[0], a[1]))


@num("checked_sub")
def n_csub(ip, c, a):
    g = bnot(lt(a[0], a[1])) if _nty(c)[0] == "u" else 1
    return opt(c, g, sub(a[0], a[1]))


@num("checked_div")
def n_cdiv(ip, c, a):
    return opt(c, bnot(int_eq(a[1], I(0))), muldiv("floor" if _nty(c)[0] == "u" else "trunc", a[0], a[1]))


@num("saturating_sub")
def n_ssub(ip, c, a):
    if _nty(c)[0] == "u":
        return ite(lt(a[0], a[1]), I(0), sub(a[0], a[1]))
    return N("satsub", a[0], a[1], ty=_nty(c))


@num("saturating_add", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_pow", "wrapping_div",
     "rem_euclid", "div_euclid", "wrapping_neg", "wrapping_pow")
def n_opaque(ip, c, a):
    if c.name.endswith("saturating_pow"):
        k = to_poly(a[1]).get((), 0) if set(to_poly(a[1])) <= {()} else 0
        if type(k) is int and 1 <= k <= 16:
            r = a[0]
            for _ in range(k - 1):
                r = N("saturating_mul", r, a[0], ty=_nty(c))
            return r
    return N(c.name.split("::")[-1], *a, ty=_nty(c))


@num("abs_diff")
def n_absdiff(ip, c, a):
    return ite(lt(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1]))


@num("unchecked_add")
def n_uadd(ip, c, a):
    return add(a[0], a[1])


# ------------------------------------------------------------------ fixed point

def _fixed(mode, div):
    def f(ip, c, a):
        x, y, d = (ip.deref(v) for v in a)
        if div:
            n, den = mul(x, d), y
        else:
            n, den = mul(x, y), d
        g = bnot(int_eq(den, I(0)))
        return opt(c, g, muldiv(mode, n, den))
    return f


PRIMS["soroban_fixed_point_math::FixedPoint::fixed_mul_floor"] = _fixed("floor", False)
PRIMS["soroban_fixed_point_math::FixedPoint::fixed_mul_ceil"] = _fixed("ceil", False)
PRIMS["soroban_fixed_point_math::FixedPoint::fixed_div_floor"] = _fixed("floor", True)
PRIMS["soroban_fixed_point_math::FixedPoint::fixed_div_ceil"] = _fixed("ceil", True)


@prim("soroban_sdk::unwrap::UnwrapOptimized::unwrap_optimized", "core::option::Option::<T>::unwrap",
      "core::option::Option::<T>::expect", "core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect",
      "core::option::Option::<T>::unwrap_unchecked")
def unwrap(ip, c, a):
    x = ip.deref(a[0])
    isres = (x.ty or "").startswith("core::result::Result")
    d = disc_of(x)
    if d is UNDEF:
        ip.pc = 0
        return None
    ip.require(int_eq(d, I(0 if isres else 1)))
    if type(ip.pc) is int and ip.pc == 0:
        return None
    return payload(x, 0 if isres else 1, 0, c.dty["s"])


# ------------------------------------------------------------------ storage

def classify(key):
    """storage key -> (class, key value)"""
    if key.op == "sym":
        return [(1, key.args[0], UNIT)]
    if key.op == "str":
        return [(1, key.args[0], UNIT)]
    if key.op != "enum" and terms._ENUMS.get(key.ty):
        key = expand_enum(key)
    if key.op == "enum":
        ty = key.args[0]
        e = terms._ENUMS[ty]
        d = key.args[1]
        nm = ty.split("::")[-1]
        out = []
        for vi, (vn, dv, fs) in enumerate(e):
            g = int_eq(d, I(dv))
            if type(g) is int and g == 0:
                continue
            p = key.args[2][vi] or ()
            kv = UNIT if not p else (p[0] if len(p) == 1 else N("tupk", *p))
            out.append((g, nm + "::" + vn, kv))
        return out
    if key.op == "ite":
        out = []

        def go(d, g):
            if type(d) is D:
                go(d.h, band(g, mkD(d.v, 1, 0)))
                go(d.l, band(g, mkD(d.v, 0, 1)))
            else:
                for g2, cl, kv in classify(d):
                    out.append((band(g, g2), cl, kv))
        go(key.args[0], 1)
        # merge equal (class,key)
        m = {}
        for g, cl, kv in out:
            m[(cl, kv)] = bor(m.get((cl, kv), 0), g)
        return [(g, cl, kv) for (cl, kv), g in m.items()]
    return [(1, "raw:" + str(key.ty), key)]


OPTION = "core::option::Option<"


def stmap(ip, dur, cls):
    k = ("st", dur, cls)
    m = ip.state.get(k)
    if m is None:
        m = N("map0", dur, cls)
        ip.state[k] = m
    return m


def _storage(dur, op):
    def f(ip, c, a):
        key = ip.deref(a[1])
        cases = classify(key)
        ty = c.targ(1) if len(c.callee["targs"]) > 1 else None
        if op == "get":
            vty = c.some_ty()
            g, v = 0, UNDEF
            for cond, cls, kv in cases:
                m = stmap(ip, dur, cls)
                h = has(m, kv)
                ip.effect("read", (dur, cls, kv, vty, B(h)))
                if vty and vty.startswith(OPTION):
                    # only plain values are ever stored under a key that is read as Option<T>
                    x = sel(m, kv, vty[len(OPTION):-1])
                    if x is not UNDEF:
                        x = variant(vty, 1, (x,))
                else:
                    x = sel(m, kv, vty)
                if vty == "bool" and x is not UNDEF:
                    x = B(truth(x))
                v = ite(cond, x, v) if v is not UNDEF else x
                g = dite(cond, h, g)
            return opt(c, g, v)
        if op == "has":
            g = 0
            for cond, cls, kv in cases:
                ip.effect("read", (dur, cls, kv, None))
                g = dite(cond, has(stmap(ip, dur, cls), kv), g)
            return B(g)
        if op == "set":
            val = ip.deref(a[2])
            vty = c.targ(1)
            if vty and vty.startswith(OPTION):
                if eq(disc_of(val), I(1)) != 1:
                    ip.effect("note:option-stored", (dur, cases[0][1], cases[0][2]))
                val, vty = payload(val, 1, 0, vty[len(OPTION):-1]), vty[len(OPTION):-1]
            for cond, cls, kv in cases:
                m = stmap(ip, dur, cls)
                if cond != 1:
                    old = ip.pc
                    ip.pc = band(old, cond)
                    ip.effect("write", (dur, cls, kv, val, vty))
                    ip.pc = old
                else:
                    ip.effect("write", (dur, cls, kv, val, vty))
                ip.state[("st", dur, cls)] = ite(cond, store(m, kv, val), m)
            return UNIT
        if op == "remove":
            for cond, cls, kv in cases:
                m = stmap(ip, dur, cls)
                ip.effect("del", (dur, cls, kv))
                ip.state[("st", dur, cls)] = ite(cond, delete(m, kv), m)
            return UNIT
        if op == "extend_ttl":
            for cond, cls, kv in cases:
                ip.effect("ttl", (dur, cls, kv, ip.deref(a[2]), ip.deref(a[3])))
            return UNIT
    return f


for _d, _n in (("P", "Persistent"), ("I", "Instance"), ("T", "Temporary")):
    for _o in ("get", "set", "has", "remove", "extend_ttl"):
        PRIMS["soroban_sdk::storage::%s::%s" % (_n, _o)] = _storage(_d, _o)


@prim("soroban_sdk::storage::Instance::extend_ttl")
def inst_ttl(ip, c, a):
    ip.effect("ttl", ("I", "*", UNIT, ip.deref(a[1]), ip.deref(a[2])))
    return UNIT


# ------------------------------------------------------------------ contract calls

def client_new(ip, c, a):
    return N("agg", c.dty["s"], "client", (ip.deref(a[1]),), ty=c.dty["s"])


def world(ip):
    w = ip.state.get("world")
    if w is None:
        w = N("w0")
        ip.state["world"] = w
    return w


def do_invoke(ip, c, addr, method, args, rty, iface):
    if method in READONLY:
        w = N("w*") if method in PURE else world(ip)
        ip.effect("view", (iface, addr, method, tuple(args)))
        if w.op == "ite":
            r = terms._sel_dd(lambda t: N("call", addr, method, tuple(args), t, ty=rty), w.args[0])
        else:
            r = N("call", addr, method, tuple(args), w, ty=rty)
        if rty == "bool":
            r = B(truth(r))
        return r
    w = world(ip)
    ip.effect("inv", (iface, addr, method, tuple(args)))
    inv = N("did", addr, method, tuple(args))
    nw = terms._sel_dd(lambda t: N("w", t, inv), w.args[0]) if w.op == "ite" else N("w", w, inv)
    ip.state["world"] = nw
    if rty == "()":
        return UNIT
    r = N("ret", addr, method, tuple(args), w, ty=rty)
    if rty == "bool":
        r = B(truth(r))
    return r


def client_call(ip, c, a):
    m = _CLIENT.search(c.name)
    iface, method = m.group(1), m.group(3)
    cl = ip.deref(a[0])
    addr = fld(cl, 0, "soroban_sdk::Address") if cl.op == "agg" else N("addrof", cl, ty="soroban_sdk::Address")
    mod = c.name[:m.start()].rstrip(":").split("::")[-1]
    name = (mod + "::" + iface) if iface == "Client" else iface
    return do_invoke(ip, c, addr, method, [ip.deep(x) for x in a[1:]], c.dty["s"], name)


@prim("soroban_sdk::Env::invoke_contract")
def invoke_contract(ip, c, a):
    addr, fn, args = ip.deref(a[1]), ip.deref(a[2]), ip.deep(a[3])
    meth = fn.args[0] if fn.op == "sym" else "?"
    al = args.args[0] if args.op == "vec" else (args,)
    return do_invoke(ip, c, addr, meth, list(al), c.dty["s"], "invoke_contract")


@prim("soroban_sdk::Env::authorize_as_current_contract")
def auth_as(ip, c, a):
    ip.effect("auth_as", (ip.deep(a[1]),))
    return UNIT


@prim("soroban_sdk::events::Events::publish")
def publish(ip, c, a):
    ip.effect("event", (ip.deep(a[1]), ip.deep(a[2])))
    return UNIT


@prim("soroban_sdk::deploy::Deployer::with_current_contract")
def with_cc(ip, c, a):
    return N("deployer", ip.deref(a[1]), ty=c.dty["s"])


@prim("soroban_sdk::deploy::DeployerWithAddress::deploy")
def deploy(ip, c, a):
    d, h = ip.deref(a[0]), ip.deref(a[1])
    ip.effect("deploy", (d, h))
    return N("deployed", d, h, ty="soroban_sdk::Address")


@prim("soroban_sdk::crypto::Crypto::keccak256", "soroban_sdk::crypto::Crypto::sha256")
def keccak(ip, c, a):
    return N(c.name.split("::")[-1], ip.deref(a[1]), ty=c.dty["s"])


@prim("soroban_sdk::Address::to_string")
def addr_str(ip, c, a):
    return N("addrstr", ip.deref(a[0]), ty=c.dty["s"])


# ------------------------------------------------------------------ Map

@prim("soroban_sdk::Map::<K, V>::new")
def map_new(ip, c, a):
    return N("mapnew", ty=c.dty["s"])


@prim("soroban_sdk::Map::<K, V>::from_array")
def map_from(ip, c, a):
    v = ip.deref(a[1])
    m = N("mapnew", ty=c.dty["s"])
    if v.op == "vec" and all(x.op == "agg" and len(x.args[2]) == 2 for x in v.args[0]):
        for x in v.args[0]:
            m = store(m, x.args[2][0], x.args[2][1])
        return m
    return N("mapof", v, ty=c.dty["s"])


@prim("soroban_sdk::Map::<K, V>::get")
def map_get(ip, c, a):
    m, k = ip.deref(a[0]), ip.deref(a[1])
    return opt(c, has(m, k), boolv(sel(m, k, c.some_ty())))


def boolv(x):
    if x.ty == "bool" and x.op != "bdd":
        return B(truth(x))
    return x


@prim("soroban_sdk::Map::<K, V>::try_get")
def map_tget(ip, c, a):
    m, k = ip.deref(a[0]), ip.deref(a[1])
    e = terms._ENUMS[c.dty["s"]]
    oty = e[0][2][0][1]
    vty = terms._ENUMS[oty][1][2][0][1]
    return okres(c, opt(c, has(m, k), boolv(sel(m, k, vty)), ty=oty))


@prim("soroban_sdk::Map::<K, V>::get_unchecked")
def map_getu(ip, c, a):
    m, k = ip.deref(a[0]), ip.deref(a[1])
    ip.require(has(m, k))
    return boolv(sel(m, k, c.dty["s"]))


@prim("soroban_sdk::Map::<K, V>::contains_key")
def map_has(ip, c, a):
    return B(has(ip.deref(a[0]), ip.deref(a[1])))


@prim("soroban_sdk::Map::<K, V>::set")
def map_set(ip, c, a):
    m = ip.deref(a[0])
    ip.writeref(a[0], store(m, ip.deref(a[1]), ip.deref(a[2])))
    return UNIT


@prim("soroban_sdk::Map::<K, V>::remove")
def map_rm(ip, c, a):
    m, k = ip.deref(a[0]), ip.deref(a[1])
    ip.writeref(a[0], delete(m, k))
    return opt(c, has(m, k), UNIT)


@prim("soroban_sdk::Map::<K, V>::remove_unchecked")
def map_rmu(ip, c, a):
    m, k = ip.deref(a[0]), ip.deref(a[1])
    ip.require(has(m, k))
    ip.writeref(a[0], delete(m, k))
    return UNIT


@prim("soroban_sdk::Map::<K, V>::len")
def map_len(ip, c, a):
    return mlen(ip.deref(a[0]))


@prim("soroban_sdk::Map::<K, V>::is_empty")
def map_empty(ip, c, a):
    return B(is_empty(mlen(ip.deref(a[0]))))


def is_empty(n):
    return int_eq(n, I(0))


@prim("soroban_sdk::Map::<K, V>::keys")
def map_keys(ip, c, a):
    m = ip.deref(a[0])
    return N("keys", m, c.targ(0), ty=c.dty["s"])


@prim("soroban_sdk::Map::<K, V>::values")
def map_values(ip, c, a):
    m = ip.deref(a[0])
    return N("values", m, c.targ(0), ty=c.dty["s"])


@prim("soroban_sdk::Map::<K, V>::iter")
def map_iter(ip, c, a):
    m = ip.deref(a[0])
    return N("agg", "iter", "map", (m, I(0), mlen(m)), ty="iter")


@prim("soroban_sdk::Vec::<T>::iter")
def vec_iter(ip, c, a):
    v = ip.deref(a[0])
    return N("agg", "iter", "vec", (v, I(0), vlen(v)), ty="iter")


@prim("core::iter::IntoIterator::into_iter")
def into_iter(ip, c, a):
    x = a[0]
    if c.rname.startswith("<soroban_sdk::Vec") or c.rname.startswith("<Vec<"):
        v = ip.deref(x)
        return N("agg", "iter", "vec", (v, I(0), vlen(v)), ty="iter")
    if c.rname.startswith("<soroban_sdk::Map") or c.rname.startswith("<Map<") and "soroban_sdk" == c.callee.get("krate"):
        m = ip.deref(x)
        return N("agg", "iter", "map", (m, I(0), mlen(m)), ty="iter")
    if "UnwrappedIter" in c.targ(0)[:40] or x.op == "agg" and x.ty == "iter":
        return x
    if c.targ(0).startswith("core::ops::Range"):
        return x
    if c.targ(0).startswith("&[") or c.targ(0).startswith("["):
        v = ip.deref(x)
        kind = "slice" if c.targ(0).startswith("&[") else "vec"
        return N("agg", "iter", kind, (v, I(0), vlen(v)), ty="iter")
    return NotImplemented


_inner_into = PRIMS["core::iter::IntoIterator::into_iter"]


def _into_iter_cond(c):
    t = c.targ(0)
    return (t.startswith("soroban_sdk::") or t.startswith("&soroban_sdk::") or "UnwrappedIter" in t[:40] and t.startswith("soroban")
            or t.startswith("core::ops::Range") or t.startswith("&[") or t.startswith("["))


_COND["core::iter::IntoIterator::into_iter"] = _into_iter_cond


def _next(back):
    def f(ip, c, a):
        it = ip.deref(a[0])
        ty = c.some_ty()
        if it.ty == "iter" and it.op == "agg":
            kind, (coll, pos, end) = it.args[1], it.args[2]
            g = lt(pos, end)
            idx = sub(end, I(1)) if back else pos
            if kind == "vec":
                v = boolv(at(coll, idx, ty))
            elif kind == "slice":
                v = N("cref", at(coll, idx, None))
            else:
                fs = terms._STRUCT_FIELDS.get(ty) or [("0", None), ("1", None)]
                k = N("keyat", coll, idx, ty=fs[0][1])
                v = agg(ty, None, (k, boolv(sel(coll, k, fs[1][1]))))
            if back:
                new = N("agg", "iter", kind, (coll, pos, sub(end, I(1))), ty="iter")
            else:
                new = N("agg", "iter", kind, (coll, add(pos, I(1)), end), ty="iter")
            wr(ip, a[0], new)
            return opt(c, g, v)
        # ranges
        st, en = fld(it, 0, ty), fld(it, 1, ty)
        incl = "RangeInclusive" in (it.ty or "")
        g = le(st, en) if incl else lt(st, en)
        if back:
            new = set_fld(it, 1, sub(en, I(1)))
            v = en if incl else sub(en, I(1))
        else:
            new = set_fld(it, 0, add(st, I(1)))
            v = st
        wr(ip, a[0], new)
        return opt(c, g, v)
    return f


def wr(ip, r, v):
    # follow & &mut chains to the innermost reference
    while r.op == "ref":
        x = ip.readref(r)
        if x.op == "ref":
            r = x
        else:
            break
    ip.writeref(r, v)


PRIMS["core::iter::Iterator::next"] = _next(False)
PRIMS["core::iter::DoubleEndedIterator::next_back"] = _next(True)


def _next_cond(c):
    t = c.targ(0)
    while t.startswith("&mut "):
        t = t[5:]
    return "soroban_sdk::iter::UnwrappedIter" == t.split("<")[0] or t.split("<")[0].startswith("core::ops::Range") \
        or t.split("<")[0].startswith("core::range") or t.split("<")[0] in ("soroban_sdk::map::MapTryIter", "soroban_sdk::vec::VecTryIter",
                                                                          "core::slice::Iter", "core::array::IntoIter", "iter")


_COND["core::iter::Iterator::next"] = _next_cond
_COND["core::iter::DoubleEndedIterator::next_back"] = _next_cond


@prim("core::slice::<impl [T]>::iter")
def slice_iter(ip, c, a):
    v = ip.deref(a[0])
    return N("agg", "iter", "slice", (v, I(0), vlen(v)), ty="iter")


# ------------------------------------------------------------------ Vec

@prim("soroban_sdk::Vec::<T>::new")
def vec_new(ip, c, a):
    return N("vec", (), ty=c.dty["s"])


@prim("soroban_sdk::Vec::<T>::from_array", "soroban_sdk::Vec::<T>::from_slice")
def vec_from(ip, c, a):
    v = ip.deref(a[1])
    return N("vec", v.args[0], ty=c.dty["s"]) if v.op == "vec" else N("vecof", v, ty=c.dty["s"])


@prim("soroban_sdk::Vec::<T>::len")
def vec_len(ip, c, a):
    return vlen(ip.deref(a[0]))


@prim("soroban_sdk::Vec::<T>::is_empty")
def vec_empty(ip, c, a):
    return B(is_empty(vlen(ip.deref(a[0]))))


@prim("soroban_sdk::Vec::<T>::get")
def vec_get(ip, c, a):
    v, i = ip.deref(a[0]), a[1]
    return opt(c, lt(i, vlen(v)), boolv(at(v, i, c.some_ty())))


@prim("soroban_sdk::Vec::<T>::get_unchecked")
def vec_getu(ip, c, a):
    v, i = ip.deref(a[0]), a[1]
    ip.require(lt(i, vlen(v)))
    return boolv(at(v, i, c.dty["s"]))


@prim("soroban_sdk::Vec::<T>::first")
def vec_first(ip, c, a):
    v = ip.deref(a[0])
    return opt(c, lt(I(0), vlen(v)), at(v, I(0), c.some_ty()))


@prim("soroban_sdk::Vec::<T>::first_unchecked")
def vec_firstu(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(I(0), vlen(v)))
    return at(v, I(0), c.dty["s"])


@prim("soroban_sdk::Vec::<T>::last")
def vec_last(ip, c, a):
    v = ip.deref(a[0])
    return opt(c, lt(I(0), vlen(v)), at(v, sub(vlen(v), I(1)), c.some_ty()))


@prim("soroban_sdk::Vec::<T>::last_unchecked")
def vec_lastu(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(I(0), vlen(v)))
    return at(v, sub(vlen(v), I(1)), c.dty["s"])


@prim("soroban_sdk::Vec::<T>::push_back")
def vec_pushb(ip, c, a):
    wr(ip, a[0], vec_op("vpush", ip.deref(a[0]), ip.deref(a[1])))
    return UNIT


@prim("soroban_sdk::Vec::<T>::push_front")
def vec_pushf(ip, c, a):
    wr(ip, a[0], vec_op("vpushf", ip.deref(a[0]), ip.deref(a[1])))
    return UNIT


@prim("soroban_sdk::Vec::<T>::pop_front_unchecked")
def vec_popfu(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(I(0), vlen(v)))
    wr(ip, a[0], vec_op("vpopf", v))
    return at(v, I(0), c.dty["s"])


@prim("soroban_sdk::Vec::<T>::pop_front")
def vec_popf(ip, c, a):
    v = ip.deref(a[0])
    g = lt(I(0), vlen(v))
    wr(ip, a[0], ite(g, vec_op("vpopf", v), v))
    return opt(c, g, at(v, I(0), c.some_ty()))


@prim("soroban_sdk::Vec::<T>::pop_back_unchecked")
def vec_popbu(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(I(0), vlen(v)))
    wr(ip, a[0], vec_op("vpopb", v))
    return at(v, sub(vlen(v), I(1)), c.dty["s"])


@prim("soroban_sdk::Vec::<T>::pop_back")
def vec_popb(ip, c, a):
    v = ip.deref(a[0])
    g = lt(I(0), vlen(v))
    wr(ip, a[0], ite(g, vec_op("vpopb", v), v))
    return opt(c, g, at(v, sub(vlen(v), I(1)), c.some_ty()))


@prim("soroban_sdk::Vec::<T>::set")
def vec_set(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(a[1], vlen(v)))
    wr(ip, a[0], vec_op("vset", v, a[1], ip.deref(a[2])))
    return UNIT


@prim("soroban_sdk::Vec::<T>::remove")
def vec_rm(ip, c, a):
    v = ip.deref(a[0])
    g = lt(a[1], vlen(v))
    nv = vec_op("vpopf", v) if a[1].op == "int" and a[1].args[0] == 0 else N("vrem", v, a[1], ty=v.ty)
    wr(ip, a[0], ite(g, nv, v))
    return opt(c, g, UNIT)


@prim("soroban_sdk::Vec::<T>::insert")
def vec_insert(ip, c, a):
    v, i, x = ip.deref(a[0]), a[1], ip.deref(a[2])
    ip.require(le(i, vlen(v)))
    if same_len(i, v):
        nv = vec_op("vpush", v, x)
    elif i is I(0):
        nv = vec_op("vpushf", v, x)
    else:
        nv = N("vins", v, i, x, ty=v.ty)
    wr(ip, a[0], nv)
    return UNIT


def same_len(i, v):
    return i is vlen(v) or sub(i, vlen(v)) is I(0)


@prim("soroban_sdk::Vec::<T>::remove_unchecked")
def vec_rmu(ip, c, a):
    v = ip.deref(a[0])
    ip.require(lt(a[1], vlen(v)))
    nv = vec_op("vpopf", v) if a[1].op == "int" and a[1].args[0] == 0 else N("vrem", v, a[1], ty=v.ty)
    wr(ip, a[0], nv)
    return UNIT


def contains(v, x):
    if v.op == "vec":
        g = 0
        for y in v.args[0]:
            g = bor(g, eq(y, x))
        return g
    if v.op in ("vpush", "vpushf"):
        return bor(eq(v.args[1], x), contains(v.args[0], x))
    if v.op == "ite":
        return terms._push_bool(dmap(lambda t: B(contains(t, x)), v.args[0]))
    return lit(N("contains", v, x))


@prim("soroban_sdk::Vec::<T>::contains")
def vec_contains(ip, c, a):
    return B(contains(ip.deref(a[0]), ip.deref(a[1])))


@prim("soroban_sdk::Vec::<T>::first_index_of")
def vec_fio(ip, c, a):
    v, x = ip.deref(a[0]), ip.deref(a[1])
    return opt(c, contains(v, x), N("indexof", v, x, ty="u32"))


def _range_contains(incl):
    def f(ip, c, a):
        r, x = ip.deref(a[0]), ip.deref(a[1])
        lo, hi = fld(r, 0, x.ty), fld(r, 1, x.ty)
        return B(band(le(lo, x), le(x, hi) if incl else lt(x, hi)))
    return f


PRIMS["core::ops::RangeInclusive::<Idx>::contains"] = _range_contains(True)
PRIMS["core::ops::Range::<Idx>::contains"] = _range_contains(False)


@prim("core::ops::RangeBounds::contains")
def range_bounds(ip, c, a):
    t = c.targ(0)
    if "RangeToInclusive" in t:
        return B(le(ip.deref(a[1]), fld(ip.deref(a[0]), 0, None)))
    if "RangeTo<" in t:
        return B(lt(ip.deref(a[1]), fld(ip.deref(a[0]), 0, None)))
    if "RangeFrom<" in t:
        return B(le(fld(ip.deref(a[0]), 0, None), ip.deref(a[1])))
    if "RangeInclusive" in t or "core::ops::Range<" in t:
        return _range_contains("Inclusive" in t)(ip, c, a)
    return NotImplemented


PRIMS["core::ops::RangeTo::<Idx>::contains"] = lambda ip, c, a: B(lt(ip.deref(a[1]), fld(ip.deref(a[0]), 0, None)))
PRIMS["core::ops::RangeFrom::<Idx>::contains"] = lambda ip, c, a: B(le(fld(ip.deref(a[0]), 0, None), ip.deref(a[1])))
PRIMS["core::ops::RangeToInclusive::<Idx>::contains"] = lambda ip, c, a: B(le(ip.deref(a[1]), fld(ip.deref(a[0]), 0, None)))


@prim("core::slice::<impl [T]>::contains")
def slice_contains(ip, c, a):
    v, x = ip.deref(a[0]), ip.deref(a[1])
    if v.op in ("agg", "vec"):
        els = v.args[2] if v.op == "agg" else v.args[0]
        full = lambda q: full(ip.deref(q)) if q.op in ("ref", "cref") else q
        return B(bors(*[eq(full(q), full(x)) for q in els]) if els else 0)
    return B(contains(v, x))


# ------------------------------------------------------------------ core odds and ends

@prim("core::intrinsics::cold_path")
def cold(ip, c, a):
    return UNIT


@prim("core::mem::swap")
def mswap(ip, c, a):
    x, y = ip.deref(a[0]), ip.deref(a[1])
    wr(ip, a[0], y)
    wr(ip, a[1], x)
    return UNIT


@prim("core::mem::replace")
def mreplace(ip, c, a):
    x = ip.deref(a[0])
    wr(ip, a[0], ip.deref(a[1]) if a[1].op == "cref" else a[1])
    return x


for n in ("core::intrinsics::is_val_statically_known",):
    PRIMS[n] = _const(FALSE)


@prim("core::option::Option::<T>::is_some")
def is_some(ip, c, a):
    return B(int_eq(disc_of(ip.deref(a[0])), I(1)))


@prim("core::option::Option::<T>::is_none")
def is_none(ip, c, a):
    return B(int_eq(disc_of(ip.deref(a[0])), I(0)))


@prim("core::option::Option::<T>::unwrap_or")
def unwrap_or(ip, c, a):
    x = ip.deref(a[0])
    return ite(int_eq(disc_of(x), I(1)), payload(x, 1, 0, c.dty["s"]), a[1])


@prim("core::option::Option::<T>::unwrap_or_default")
def unwrap_or_default(ip, c, a):
    x = ip.deref(a[0])
    d = default(c.dty)
    return ite(int_eq(disc_of(x), I(1)), payload(x, 1, 0, c.dty["s"]), d)


def default(t):
    if t["s"] in INT_TYS:
        return I(0)
    if t["s"] == "bool":
        return FALSE
    return N("default", t["s"], ty=t["s"])


@prim("core::default::Default::default")
def dflt(ip, c, a):
    return default(c.dty)


_COND["core::default::Default::default"] = lambda c: c.dty["s"] in INT_TYS or c.dty["s"] == "bool"


# ------------------------------------------------------------------ closures over the elements of a literal array

def _elements(ip, r):
    it = ip.deref(r)
    if it.op == "agg" and it.ty == "iter" and it.args[1] == "slice":
        coll, pos, end = it.args[2]
        els = coll.args[2] if coll.op == "agg" else coll.args[0] if coll.op == "vec" else None
        if els is not None and pos.op == "int" and end.op == "int" and end.args[0] - pos.args[0] <= 8:
            return els[pos.args[0]:end.args[0]]
    return None


def _closure_of(ip, env):
    e = ip.deref(env)
    for fn in ip.crate.fns.values():
        if fn.argc == 2:
            t = ip.crate.types[fn.locals[1]]
            if t["k"] == "ref":
                t = ip.crate.types[t["t"]]
            if t["k"] == "closure" and t["s"] == e.ty:
                return fn
    return None


def _literal(c):
    if c.targ(0).split("<")[0] != "core::slice::Iter":
        return False
    return True


def _each(kind):
    def f(ip, c, a):
        els, fn = _elements(ip, a[0]), _closure_of(ip, a[1])
        if els is None or fn is None:
            g = ip.crate.fns.get(c.callee.get("inst"))
            return ip.apply(c, g, a) if g is not None else ip.unknown_call(c, a)
        done, over = [], 0
        env = a[1] if a[1].op in ("ref", "cref") else N("ref", ip.newcell(a[1]), ())
        for x in els:
            pc0 = ip.pc
            ret = ip.invoke_closure(fn, [env, N("agg", None, "tuple", (N("cref", x),), ty=None)])
            if ret is None:
                ip.pc = 0
                break
            if kind != "each":
                stop = truth(ret) if kind == "any" else bnot(truth(ret))
                p = band(ip.pc, stop)
                if not (type(p) is int and p == 0):
                    done.append((p, dict(ip.state)))
                over = bor(over, p)
                ip.pc = band(ip.pc, bnot(stop))
                if type(ip.pc) is int and ip.pc == 0:
                    break
        if not (type(ip.pc) is int and ip.pc == 0):
            done.append((ip.pc, dict(ip.state)))
        if not done:
            ip.pc = 0
            return None
        ip.pc, st = ip.merge(done)
        ip.state = dict(st)
        if kind == "each":
            return UNIT
        return B(over if kind == "any" else bnot(over))
    return f


@prim("core::array::<impl [T; N]>::map")
def arr_map(ip, c, a):
    """a literal array through a closure, element by element"""
    v, fn = ip.deref(a[0]), _closure_of(ip, a[1])
    if v.op != "vec" or len(v.args[0]) > 8 or fn is None:
        return ip.unknown_call(c, a)
    env = a[1] if a[1].op in ("ref", "cref") else N("ref", ip.newcell(a[1]), ())
    out = []
    for x in v.args[0]:
        r = ip.invoke_closure(fn, [env, N("agg", None, "tuple", (x,), ty=None)])
        if r is None:
            ip.pc = 0
            return None
        out.append(r)
    return N("vec", tuple(out), ty=c.dty["s"])


for _k, _n in (("any", "any"), ("all", "all"), ("each", "for_each")):
    PRIMS["core::iter::Iterator::" + _n] = _each(_k)
    _COND["core::iter::Iterator::" + _n] = _literal
