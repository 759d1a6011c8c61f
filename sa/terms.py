"""Value domain of the analysis: hash-consed value numbers.

 * decision diagrams (D) over canonical comparison atoms describe guards
   (terminals 0/1) and guard-dependent data (terminals: ints or Nodes);
 * integers are polynomials whose coefficients are decision diagrams, so a value
   that depends on a branch has one representation however the branch is written;
 * fixed-point products and quotients are canonical (mode, numerator, denominator);
 * maps, vectors and contract storage are functional terms with store-to-load
   forwarding.
Nothing here explores paths or calls a solver: every operation is a normalising
constructor.
"""
from math import gcd
import sys

sys.setrecursionlimit(200000)

# --------------------------------------------------------------------------- nodes


class Node:
    __slots__ = ("op", "args", "ty", "id", "_fv", "_dd")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_nodes = []


def N(op, *args, ty=None):
    k = (op, args, ty)
    n = _tab.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.ty = ty
        n.id = len(_nodes)
        n._fv = None
        n._dd = None
        _nodes.append(n)
        _tab[k] = n
    return n


INT_TYS = {
    "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64,
    "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
}


def int_range(ty):
    b = INT_TYS[ty]
    if ty[0] == "u":
        return 0, (1 << b) - 1
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


# --------------------------------------------------------------------------- decision diagrams


class D:
    __slots__ = ("v", "h", "l", "id")


_dtab = {}
_vars = []  # var index -> atom Node
_varof = {}


def var_of(atom):
    i = _varof.get(atom)
    if i is None:
        i = len(_vars)
        _vars.append(atom)
        _varof[atom] = i
    return i


def mkD(v, h, l):
    if h is l or (type(h) is int and type(l) is int and h == l):
        return h
    k = (v, h, l)
    d = _dtab.get(k)
    if d is None:
        d = D()
        d.v, d.h, d.l = v, h, l
        d.id = len(_dtab)
        _dtab[k] = d
    return d


def lit(atom):
    return mkD(var_of(atom), 1, 0)


_and = {}
_or = {}
_not = {}
_ite = {}
_restrict = {}


class Blowup(Exception):
    """an optional comparison became too large"""


_limit = [1 << 62]


def band(f, g):
    if f is g:
        return f
    if type(f) is int:
        return g if f else 0
    if type(g) is int:
        return f if g else 0
    if f.id > g.id:
        f, g = g, f
    k = (f, g)
    r = _and.get(k)
    if r is None:
        if f.v == g.v:
            r = mkD(f.v, band(f.h, g.h), band(f.l, g.l))
        elif f.v < g.v:
            r = mkD(f.v, band(f.h, g), band(f.l, g))
        else:
            r = mkD(g.v, band(f, g.h), band(f, g.l))
        _and[k] = r
        if len(_and) > _limit[0]:
            raise Blowup()
    return r


def bor(f, g):
    if f is g:
        return f
    if type(f) is int:
        return 1 if f else g
    if type(g) is int:
        return 1 if g else f
    if f.id > g.id:
        f, g = g, f
    k = (f, g)
    r = _or.get(k)
    if r is None:
        if f.v == g.v:
            r = mkD(f.v, bor(f.h, g.h), bor(f.l, g.l))
        elif f.v < g.v:
            r = mkD(f.v, bor(f.h, g), bor(f.l, g))
        else:
            r = mkD(g.v, bor(f, g.h), bor(f, g.l))
        _or[k] = r
    return r


def bnot(f):
    if type(f) is int:
        return 1 - f
    r = _not.get(f)
    if r is None:
        r = mkD(f.v, bnot(f.h), bnot(f.l))
        _not[f] = r
        _not[r] = f
    return r


def bands(*fs):
    r = 1
    for f in fs:
        r = band(r, f)
    return r


def bors(*fs):
    r = 0
    for f in fs:
        r = bor(r, f)
    return r


def dite(c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    k = (c, a, b)
    r = _ite.get(k)
    if r is None:
        v = c.v
        if type(a) is D and a.v < v:
            v = a.v
        if type(b) is D and b.v < v:
            v = b.v

        def cof(x, hi):
            if type(x) is D and x.v == v:
                return x.h if hi else x.l
            return x

        r = mkD(v, dite(cof(c, 1), cof(a, 1), cof(b, 1)), dite(cof(c, 0), cof(a, 0), cof(b, 0)))
        _ite[k] = r
    return r


def drestrict(f, c):
    """Coudert-Madre restrict: simplify f using care set c (c != 0)."""
    if type(f) is not D or type(c) is not D:
        return f
    k = (f, c)
    r = _restrict.get(k)
    if r is None:
        if c.v < f.v:
            r = drestrict(f, bor(c.h, c.l))
        elif c.v == f.v:
            if c.h == 0 and type(c.h) is int:
                r = drestrict(f.l, c.l)
            elif c.l == 0 and type(c.l) is int:
                r = drestrict(f.h, c.h)
            else:
                r = mkD(f.v, drestrict(f.h, c.h), drestrict(f.l, c.l))
        else:
            r = mkD(f.v, drestrict(f.h, c), drestrict(f.l, c))
        _restrict[k] = r
    return r


def dmap(fn, f, memo=None):
    """apply fn to the terminals"""
    if memo is None:
        memo = {}
    if type(f) is not D:
        r = memo.get(f)
        if r is None:
            r = fn(f)
            memo[f] = r
        return r
    r = memo.get(f)
    if r is None:
        h = dmap(fn, f.h, memo)
        l = dmap(fn, f.l, memo)
        if type(h) is not D and type(l) is not D:
            r = mkD(f.v, h, l)
        else:
            r = dite(mkD(f.v, 1, 0), h, l)
        memo[f] = r
    return r


def dapply(fn, f, g, memo=None):
    if memo is None:
        memo = {}
    k = (f, g)
    r = memo.get(k)
    if r is not None:
        return r
    fd, gd = type(f) is D, type(g) is D
    if not fd and not gd:
        r = fn(f, g)
    else:
        v = f.v if fd and (not gd or f.v <= g.v) else g.v

        def cof(x, hi):
            if type(x) is D and x.v == v:
                return x.h if hi else x.l
            return x

        h = dapply(fn, cof(f, 1), cof(g, 1), memo)
        l = dapply(fn, cof(f, 0), cof(g, 0), memo)
        hv = h.v if type(h) is D else 1 << 60
        lv = l.v if type(l) is D else 1 << 60
        if v < hv and v < lv:
            r = mkD(v, h, l)
        else:
            r = dite(mkD(v, 1, 0), h, l)
    memo[k] = r
    return r


_addm = {}
_mulm = {}


def dadd(f, g):
    if type(f) is int and type(g) is int:
        return f + g
    return dapply(lambda a, b: a + b, f, g, _addm)


def dmul(f, g):
    if type(f) is int and type(g) is int:
        return f * g
    if type(f) is int and f == 0 or type(g) is int and g == 0:
        return 0
    return dapply(lambda a, b: a * b, f, g, _mulm)


def dneg(f):
    return -f if type(f) is int else dmap(lambda a: -a, f)


def dterms(f, out=None, seen=None):
    """distinct terminals"""
    if out is None:
        out, seen = {}, set()
    if type(f) is not D:
        out[f] = True
        return out
    if f in seen:
        return out
    seen.add(f)
    dterms(f.h, out, seen)
    dterms(f.l, out, seen)
    return out


def dvars(f, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    if type(f) is D and f not in seen:
        seen.add(f)
        out.add(f.v)
        dvars(f.h, out, seen)
        dvars(f.l, out, seen)
    return out


def dsize(f, seen=None):
    if seen is None:
        seen = set()
    if type(f) is not D or f in seen:
        return 0
    seen.add(f)
    return 1 + dsize(f.h, seen) + dsize(f.l, seen)


def dmin(f):
    return min(dterms(f))


# --------------------------------------------------------------------------- basic constructors


def I(v):
    return N("int", v)


def B(d):
    return N("bdd", d, ty="bool")


TRUE = B(1)
FALSE = B(0)
UNIT = N("agg", "()", None, (), ty="()")
ENV = N("env", ty="soroban_sdk::Env")
NOW = N("now", ty="u64")
SEQ = N("seq", ty="u32")
SELF = N("self", ty="soroban_sdk::Address")
UNDEF = N("undef")


def is_int(n):
    return n.op == "int" or n.op == "poly" or n.ty in INT_TYS


def is_const(n):
    return n.op == "int"


def nonneg(n):
    if n.op == "int":
        return n.args[0] >= 0
    if n.op == "poly":
        return all(dmin(c) >= 0 and all(nonneg(a) for a, _ in m) for m, c in n.args[0])
    if n.ty in INT_TYS and n.ty[0] == "u":
        return True
    if n.op == "muldiv":
        return nonneg(n.args[1]) and nonneg(n.args[2])
    if n.op == "sum":
        return nonneg(n.args[2])
    if n.op == "pow":
        return nonneg(n.args[0])
    return False


# --------------------------------------------------------------------------- polynomials


def to_poly(n):
    if n.op == "int":
        return {(): n.args[0]} if n.args[0] != 0 else {}
    if n.op == "poly":
        return dict(n.args[0])
    return {((n, 1),): 1}


def mk_poly(p):
    p = {m: c for m, c in p.items() if not (type(c) is int and c == 0)}
    if not p:
        return I(0)
    if len(p) == 1:
        ((m, c),) = p.items()
        if type(c) is int:
            if m == ():
                return I(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
    return N("poly", tuple(sorted(p.items(), key=lambda kv: _mkey(kv[0]))))


def _mkey(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def add(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] + b.args[0])
    p = to_poly(a)
    for m, c in to_poly(b).items():
        if m in p:
            p[m] = dadd(p[m], c)
        else:
            p[m] = c
    return mk_poly(p)


def scale(a, k):
    if a.op == "int":
        return I(a.args[0] * k)
    return mk_poly({m: dmul(c, k) for m, c in to_poly(a).items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a is b:
        return I(0)
    return add(a, neg(b))


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def mul(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] * b.args[0])
    pa, pb = to_poly(a), to_poly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            c = dmul(c1, c2)
            r[m] = dadd(r[m], c) if m in r else c
    return mk_poly(r)


def adds(*xs):
    r = I(0)
    for x in xs:
        r = add(r, x if isinstance(x, Node) else I(x))
    return r


def muls(*xs):
    r = I(1)
    for x in xs:
        r = mul(r, x if isinstance(x, Node) else I(x))
    return r


# ---- splitting gated values into cases

SPLIT_LEAVES = 40
SPLIT_SIZE = 400


class TooBig(Exception):
    pass


def split(n):
    """Node -> diagram whose terminals are ungated Nodes (one level)."""
    if n.op == "ite":
        return n.args[0]
    if n.op == "poly":
        r = None
        gated = False
        for m, c in n.args[0]:
            if type(c) is D:
                gated = True
                break
        if not gated:
            return n
        base = {}
        gs = []
        for m, c in n.args[0]:
            if type(c) is D:
                gs.append((m, c))
            else:
                base[m] = c
        r = mk_poly(base)
        for m, c in gs:
            t = dmap(lambda k, m=m: mk_poly({m: k}), c)
            r = dapply(add, r, t)
            if dsize(r) > SPLIT_SIZE or len(dterms(r)) > SPLIT_LEAVES:
                raise TooBig()
        return r
    return n


def from_dd(d):
    """diagram with Node terminals -> Node"""
    if type(d) is not D:
        return d
    ts = list(dterms(d))
    real = [t for t in ts if t is not UNDEF]
    if real and len(real) < len(ts):
        # an undefined value can never be observed
        care = dmap(lambda t: 0 if t is UNDEF else 1, d)
        d = drestrict(d, care)
        if type(d) is not D:
            return d
        ts = [t for t in dterms(d)]
        if any(t is UNDEF for t in ts):
            d = dmap(lambda t: real[0] if t is UNDEF else t, d)
            if type(d) is not D:
                return d
            ts = list(dterms(d))
    if all(is_int(t) for t in ts):
        monos = {}
        for t in ts:
            for m in to_poly(t):
                monos[m] = True
        return mk_poly({m: dmap(lambda t, m=m: to_poly(t).get(m, 0), d) for m in monos})
    if all(t.op == "bdd" for t in ts):
        r = 0
        # terminals are boolean functions: push
        memo = {}

        def go(x):
            if type(x) is not D:
                return x.args[0]
            q = memo.get(x)
            if q is None:
                q = dite(mkD(x.v, 1, 0), go(x.h), go(x.l))
                memo[x] = q
            return q

        return B(go(d))
    if all(t.op == "agg" for t in ts):
        t0 = ts[0]
        if all(t.args[0] == t0.args[0] and t.args[1] == t0.args[1] and len(t.args[2]) == len(t0.args[2]) for t in ts):
            return agg(t0.args[0], t0.args[1], tuple(
                from_dd(_flat(dmap(lambda t, i=i: t.args[2][i], d))) for i in range(len(t0.args[2]))))
    if all(t.op == "enum" for t in ts) and len({t.args[0] for t in ts}) == 1:
        t0 = ts[0]
        disc = from_dd(_flat(dmap(lambda t: t.args[1], d)))
        nv = len(t0.args[2])
        pl = []
        for vi in range(nv):
            have = [t for t in ts if t.args[2][vi] is not None]
            if not have:
                pl.append(None)
                continue
            k = len(have[0].args[2][vi])
            pl.append(tuple(
                from_dd(_flat(dmap(lambda t, i=i: UNDEF if t.args[2][vi] is None else t.args[2][vi][i], d)))
                for i in range(k)))
        return enum(t0.args[0], disc, tuple(pl))
    return N("ite", d, ty=ts[0].ty)


def _flat(d):
    """diagram whose terminals may themselves be 'ite' nodes -> flat diagram"""
    if type(d) is not D:
        return d.args[0] if d.op == "ite" else d
    memo = {}

    def go(x):
        if type(x) is not D:
            return x.args[0] if x.op == "ite" else x
        q = memo.get(x)
        if q is None:
            h, l = go(x.h), go(x.l)
            q = dite(mkD(x.v, 1, 0), h, l)
            memo[x] = q
        return q

    # int polys with gated coefficients are kept as terminals; handled by from_dd
    return go(d)


def from_dd_int(d):
    """diagram with int-Node terminals which may be gated polys"""
    if type(d) is not D:
        return d
    h = from_dd_int(d.h)
    l = from_dd_int(d.l)
    return ite(mkD(d.v, 1, 0), h, l)


def lift(fn, *args):
    """apply fn to ungated cases of args; fn: Nodes -> Node"""
    try:
        ds = [split(a) for a in args]
        if not any(type(d) is D for d in ds):
            return fn(*args)
        cur = ds[0]
        if len(ds) == 1:
            res = dmap(lambda a: fn(a), cur)
        else:
            # pair up successively
            t = dmap(lambda a: N("tup", a), cur)
            for d in ds[1:]:
                t = dapply(lambda x, y: N("tup", *(x.args + (y,))), t, d)
                if dsize(t) > SPLIT_SIZE or len(dterms(t)) > SPLIT_LEAVES:
                    raise TooBig()
            res = dmap(lambda x: fn(*x.args), t)
        if type(res) is D and any(t.op in ("poly", "bdd", "ite") and has_dd(t) for t in dterms(res)):
            memo = {}

            def go(x):
                if type(x) is not D:
                    return x
                q = memo.get(x)
                if q is None:
                    q = ite(mkD(x.v, 1, 0), go(x.h), go(x.l))
                    memo[x] = q
                return q

            return go(res)
        return from_dd(res)
    except TooBig:
        return fn(*args)


def has_dd(n):
    """does the node's own representation depend on guards?"""
    if n.op == "poly":
        return any(type(c) is D for _, c in n.args[0])
    if n.op == "bdd":
        return type(n.args[0]) is D
    return n.op == "ite"


def _lit(c):
    """single literal -> (atom, positive)"""
    if type(c) is D and type(c.h) is int and type(c.l) is int:
        return _vars[c.v], c.h == 1
    return None, None


def ite(c, a, b):
    """guarded choice; c is a 0/1 diagram"""
    if type(c) is int:
        return a if c else b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if is_int(a) and is_int(b):
        at, pos = _lit(c)
        if at is not None and at.op == "lt":
            q, k = at.args
            x, y = (a, b) if pos else (b, a)  # x if q<k else y
            dxy = sub(x, y)
            # equal at q == k-1: the boundary belongs to either side
            pd, pq = to_poly(dxy), to_poly(sub(q, I(k - 1)))
            if pd and set(pd) == set(pq):
                m0 = next(iter(pd))
                if all(type(v) is int for v in pd.values()):
                    num, den = pd[m0], pq[m0]
                    if all(pd[m] * den == pq[m] * num for m in pd):
                        c2 = lt_const(q, k - 1)
                        return ite_int(c2, x, y)
        return ite_int(c, a, b)
    if a.op == "bdd" and b.op == "bdd":
        return B(dite(c, a.args[0], b.args[0]))
    if a.op == "agg" or b.op == "agg":
        t = a if a.op == "agg" else b
        o = b if a.op == "agg" else a
        if o.op == "agg":
            if o.args[0] == t.args[0] and o.args[1] == t.args[1] and len(o.args[2]) == len(t.args[2]):
                return agg(t.args[0], t.args[1], tuple(ite(c, x, y) for x, y in zip(a.args[2], b.args[2])))
        elif o.ty == t.ty and _STRUCT_FIELDS.get(o.ty) is not None:
            fo = tuple(fld(o, i) for i in range(len(t.args[2])))
            ft = t.args[2]
            fa, fb = (ft, fo) if a is t else (fo, ft)
            return agg(t.args[0], t.args[1], tuple(ite(c, x, y) for x, y in zip(fa, fb)))
    if a.op == "enum" or b.op == "enum":
        t = a if a.op == "enum" else b
        if a.op != "enum":
            a = expand_enum(a, t)
        if b.op != "enum":
            b = expand_enum(b, t)
        if a.op == "enum" and b.op == "enum" and a.args[0] == b.args[0]:
            pl = []
            for x, y in zip(a.args[2], b.args[2]):
                if x is None:
                    pl.append(y)
                elif y is None:
                    pl.append(x)
                else:
                    pl.append(tuple(ite(c, p, q) for p, q in zip(x, y)))
            return enum(a.args[0], ite(c, a.args[1], b.args[1]), tuple(pl))
    da = a.args[0] if a.op == "ite" else a
    db = b.args[0] if b.op == "ite" else b
    return from_dd(dite(c, da, db))


def ite_int(c, a, b):
    pa, pb = to_poly(a), to_poly(b)
    r = {}
    for m in list(pa) + [m for m in pb if m not in pa]:
        r[m] = dite(c, pa.get(m, 0), pb.get(m, 0))
    return mk_poly(r)


# --------------------------------------------------------------------------- comparisons -> guards


def lt_const(q, k):
    """guard q < k for an ungated polynomial q without constant part, content 1, leading coeff > 0"""
    if k <= 0 and nonneg(q):
        return 0
    return lit(N("lt", q, k))


def lt0(p):
    """guard p < 0"""
    try:
        d = split(p)
    except TooBig:
        return lit(N("lt0", p))
    if type(d) is D:
        return _push_bool(dmap(lambda t: B(_lt0u(t)), d))
    return _lt0u(d)


def _push_bool(d):
    if type(d) is not D:
        return d.args[0]
    memo = {}

    def go(x):
        if type(x) is not D:
            return x.args[0]
        q = memo.get(x)
        if q is None:
            q = dite(mkD(x.v, 1, 0), go(x.h), go(x.l))
            memo[x] = q
        return q

    return go(d)


def _lt0u(p):
    if p.op == "int":
        return 1 if p.args[0] < 0 else 0
    pp = to_poly(p)
    k = pp.pop((), 0)
    g = 0
    for c in pp.values():
        g = gcd(g, c)
    lead = min(pp, key=_mkey)
    s = 1 if pp[lead] > 0 else -1
    q = mk_poly({m: s * c // g for m, c in pp.items()})
    # g*s*q + k < 0
    if s > 0:
        return lt_const(q, -(k // g))  # q < ceil(-k/g)
    # -g*q + k < 0  <=>  q > k/g  <=>  not (q < floor(k/g)+1)
    return bnot(lt_const(q, k // g + 1))


def lt(a, b):
    if a is b:
        return 0
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt(b, a))


def int_eq(a, b):
    if a is b:
        return 1
    p = sub(a, b)
    try:
        d = split(p)
    except TooBig:
        return lit(N("eq0", p))
    if type(d) is D:
        return _push_bool(dmap(lambda t: B(_eq0u(t)), d))
    return _eq0u(d)


def _eq0u(p):
    if p.op == "int":
        return 1 if p.args[0] == 0 else 0
    pp = to_poly(p)
    if len(pp) == 1:
        (m, c), = pp.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bin" and m[0][0].args[0] in ("BitOr", "BitXor"):
            _, x, y = m[0][0].args
            return band(int_eq(x, I(0)), int_eq(y, I(0))) if m[0][0].args[0] == "BitOr" else int_eq(x, y)
    k = pp.get((), 0)
    g = 0
    for m, c in pp.items():
        if m != ():
            g = gcd(g, c)
    if k % g:
        return 0
    return band(bnot(_lt0u(p)), _lt0u(sub(p, I(1))))


_DISTINCT = {"int", "str", "sym"}


def eq(a, b):
    """guard a == b"""
    if a is b:
        return 1
    if is_int(a) and is_int(b):
        return int_eq(a, b)
    if a.op == "bdd" and b.op == "bdd":
        x, y = a.args[0], b.args[0]
        return dite(x, y, bnot(y))
    if a.op == "bdd" or b.op == "bdd":
        x, y = (a, b) if a.op == "bdd" else (b, a)
        return dite(x.args[0], truth(y), bnot(truth(y)))
    if a.op == "ite" or b.op == "ite":
        da = a.args[0] if a.op == "ite" else a
        db = b.args[0] if b.op == "ite" else b
        return _push_bool(dapply(lambda x, y: B(eq(x, y)), da, db))
    if a.op == "agg" and b.op == "agg" and len(a.args[2]) == len(b.args[2]):
        r = 1
        for x, y in zip(a.args[2], b.args[2]):
            r = band(r, eq(x, y))
        return r
    if a.op == "vec" and b.op == "vec":
        if len(a.args[0]) != len(b.args[0]):
            return 0
        r = 1
        for x, y in zip(a.args[0], b.args[0]):
            r = band(r, eq(x, y))
        return r
    if (a.op == "agg") != (b.op == "agg"):
        t, o = (a, b) if a.op == "agg" else (b, a)
        if _STRUCT_FIELDS.get(o.ty) is not None:
            r = 1
            for i, x in enumerate(t.args[2]):
                r = band(r, eq(x, fld(o, i)))
            return r
    if a.op == "enum" or b.op == "enum":
        t = a if a.op == "enum" else b
        ea, eb = expand_enum(a, t), expand_enum(b, t)
        if ea.op == "enum" and eb.op == "enum":
            r = eq(ea.args[1], eb.args[1])
            for vi, (x, y) in enumerate(zip(ea.args[2], eb.args[2])):
                if x and y:
                    e = 1
                    for p, q in zip(x, y):
                        e = band(e, eq(p, q))
                    r = band(r, bor(bnot(eq(ea.args[1], I(_disc_of(ea.args[0], vi)))), e))
            return r
    if a.op in _DISTINCT and b.op in _DISTINCT:
        return 0
    if b.id < a.id:
        a, b = b, a
    return lit(N("eq", a, b))


def truth(n):
    """bool-typed Node -> guard"""
    if n.op == "bdd":
        return n.args[0]
    if n.op == "ite":
        return _push_bool(dmap(lambda t: B(truth(t)), n.args[0]))
    if n.op == "int":
        return 1 if n.args[0] else 0
    return lit(N("b", n))


# --------------------------------------------------------------------------- arithmetic


def muldiv(mode, num, den):
    """floor/ceil/trunc(num/den)"""
    if num.op == "int" and den.op == "int" and den.args[0] != 0:
        a, b = num.args[0], den.args[0]
        if mode == "floor":
            return I(a // b)
        if mode == "ceil":
            return I(-((-a) // b))
        q = abs(a) // abs(b)
        return I(q if (a >= 0) == (b >= 0) else -q)
    if den.op == "int" and den.args[0] == 1:
        return num
    if num.op == "int" and num.args[0] == 0:
        return num
    if has_dd(num) or has_dd(den):
        return lift(lambda a, b: muldiv_u(mode, a, b), num, den)
    return muldiv_u(mode, num, den)


def muldiv_u(mode, num, den):
    if num.op == "int" and (den.op == "int" or num.args[0] == 0):
        return muldiv(mode, num, den) if not (den.op == "int" and den.args[0] == 0) else UNDEF
    # exact division by constants / cancellation of a common constant factor or monomial
    pn, pd = to_poly(num), to_poly(den)
    if not any(type(c) is D for c in list(pn.values()) + list(pd.values())) and pn and pd:
        g = 0
        for c in list(pn.values()) + list(pd.values()):
            g = gcd(g, c)
        if g > 1:
            pn = {m: c // g for m, c in pn.items()}
            pd = {m: c // g for m, c in pd.items()}
            num, den = mk_poly(pn), mk_poly(pd)
            if den.op == "int" and den.args[0] == 1:
                return num
        if den.op == "int" and den.args[0] > 0 and mode in ("floor", "ceil"):
            # pull out whole multiples: floor((d*x + r)/d) = x + floor(r/d)
            dv = den.args[0]
            whole = {m: c // dv for m, c in pn.items() if c % dv == 0}
            if whole:
                rest = {m: c for m, c in pn.items() if c % dv != 0}
                if not rest:
                    return mk_poly(whole)
                return add(mk_poly(whole), muldiv_u(mode, mk_poly(rest), den))
    if mode == "trunc" and nonneg(num) and nonneg(den):
        mode = "floor"
    return N("muldiv", mode, num, den, ty="i128")


def power(base, exp):
    if base.op == "int" and exp.op == "int" and 0 <= exp.args[0] < 200:
        return I(base.args[0] ** exp.args[0])
    return lift(lambda a, b: I(a.args[0] ** b.args[0]) if a.op == "int" and b.op == "int" and 0 <= b.args[0] < 200
                else N("pow", a, b, ty="i128"), base, exp)


def imin(a, b):
    return ite(lt(a, b), a, b)


def imax(a, b):
    return ite(lt(a, b), b, a)


def convert(n, to):
    """`as` conversion between integer types"""
    if n.op == "int":
        lo, hi = int_range(to)
        v = n.args[0] & ((1 << INT_TYS[to]) - 1)
        if v > hi:
            v -= 1 << INT_TYS[to]
        return I(v)
    if has_dd(n):
        try:
            d = split(n)
        except TooBig:
            d = n
        if type(d) is D and (all(t.op == "int" for t in dterms(d)) or len(dterms(d)) <= 3 and any(t.op == "int" or fits(t, to) for t in dterms(d))):
            return lift(lambda t: convert(t, to), n)
    if fits(n, to):
        return n
    return N("narrow", n, to, ty=to)


def fits(n, to):
    lo, hi = int_range(to)
    if n.op == "int":
        return lo <= n.args[0] <= hi
    if n.op == "poly":
        return False
    if n.op == "indexof":
        return int_range("u32")[1] <= hi
    if n.ty in INT_TYS:
        a, b = int_range(n.ty)
        return lo <= a and b <= hi
    return False


# --------------------------------------------------------------------------- aggregates

# tyname -> [(field name, tyname)] for structs/tuples; filled by the loader
_STRUCT_FIELDS = {}
# tyname -> [(variant name, discriminant, [(field name, tyname)])]
_ENUMS = {}


def _disc_of(ty, vi):
    e = _ENUMS.get(ty)
    return e[vi][1] if e else vi


def agg(ty, name, fields):
    """struct/tuple/array value; collapses to X when every field is the field of the same X"""
    if fields and fields[0].op == "fld":
        x = fields[0].args[0]
        if x.ty == ty and all(f.op == "fld" and f.args[0] is x and f.args[1] == i for i, f in enumerate(fields)):
            return x
    return N("agg", ty, name, fields, ty=ty)


def fld(x, i, ty=None):
    if x.op == "agg":
        return x.args[2][i]
    if x is UNDEF:
        return UNDEF
    if x.op == "ite":
        return from_dd(_flat(dmap(lambda t: fld(t, i, ty), x.args[0]))) if not _int_field(x, i, ty) else \
            from_dd_int(dmap(lambda t: fld(t, i, ty), x.args[0]))
    fs = _STRUCT_FIELDS.get(x.ty)
    if fs:
        nm, fty = fs[i]
    else:
        nm, fty = str(i), ty
    return N("fld", x, i, nm, ty=fty)


def _int_field(x, i, ty):
    fs = _STRUCT_FIELDS.get(x.ty)
    t = fs[i][1] if fs else ty
    return t in INT_TYS


def set_fld(x, i, v, n=None):
    if x.op == "agg":
        fs = list(x.args[2])
        fs[i] = v
        return agg(x.args[0], x.args[1], tuple(fs))
    fs = _STRUCT_FIELDS.get(x.ty)
    cnt = len(fs) if fs else n
    if cnt is None:
        cnt = i + 1
    vals = [fld(x, j) for j in range(cnt)]
    vals[i] = v
    return agg(x.ty, None, tuple(vals))


def enum(ty, disc, payloads):
    """collapse to an opaque X where everything is still X's"""
    if disc.op == "disc":
        x = disc.args[0]
        ok = x.ty == ty
        for vi, p in enumerate(payloads):
            if p:
                for fi, f in enumerate(p):
                    if not (f.op == "pay" and f.args[0] is x and f.args[1] == vi and f.args[2] == fi):
                        ok = False
        if ok:
            return x
    return N("enum", ty, disc, payloads, ty=ty)


def variant(ty, vi, fields):
    nv = len(_ENUMS[ty])
    pl = [None] * nv
    pl[vi] = tuple(fields)
    return enum(ty, I(_ENUMS[ty][vi][1]), tuple(pl))


def expand_enum(x, like=None):
    if x.op == "enum":
        return x
    ty = x.ty
    e = _ENUMS.get(ty)
    if x is UNDEF and like is not None:
        return x
    if e is None:
        return x
    if x.op == "ite":
        ds = dmap(lambda t: expand_enum(t), x.args[0])
        return from_dd(ds)
    pl = []
    for vi, (vn, d, fs) in enumerate(e):
        pl.append(tuple(N("pay", x, vi, fi, ty=fty) for fi, (fn_, fty) in enumerate(fs)) if fs else None)
    return N("enum", ty, disc_of(x), tuple(pl), ty=ty)


def disc_of(x):
    if x.op == "enum":
        return x.args[1]
    if x is UNDEF:
        return UNDEF
    if x.op == "ite":
        return from_dd_int(dmap(disc_of, x.args[0]))
    e = _ENUMS.get(x.ty)
    if e and len(e) == 2 and e[0][1] == 0 and e[1][1] == 1:
        # two-variant enum: the discriminant is a boolean
        return mk_poly({(): lit(N("is", x, 1))})
    return N("disc", x, ty="u32")


def payload(x, vi, fi, ty=None):
    if x.op == "enum":
        p = x.args[2][vi]
        return UNDEF if p is None else p[fi]
    if x is UNDEF:
        return UNDEF
    if x.op == "ite":
        return from_dd_int(dmap(lambda t: payload(t, vi, fi, ty), x.args[0]))
    e = _ENUMS.get(x.ty)
    fty = e[vi][2][fi][1] if e else ty
    return N("pay", x, vi, fi, ty=fty)


# --------------------------------------------------------------------------- maps and vectors


def sel(m, k, ty):
    """value stored at k (defined only where has(m,k))"""
    while True:
        if m.op == "store":
            m0, k0, v = m.args
            e = eq(k0, k)
            if type(e) is int:
                if e:
                    return v
                m = m0
                continue
            return ite(e, v, sel(m0, k, ty))
        if m.op == "del":
            if eq(m.args[1], k) == 1:
                return UNDEF
            m = m.args[0]
            continue
        break
    if m.op == "mapnew" or m is UNDEF:
        return UNDEF
    if m.op == "ite":
        return _sel_dd(lambda t: sel(t, k, ty), m.args[0])
    if k.op == "ite" or (is_int(k) and has_dd(k)):
        try:
            kd = split(k)
        except TooBig:
            kd = k
        if type(kd) is D:
            return _sel_dd(lambda t: sel(m, t, ty), kd)
    return N("sel", m, k, ty=ty)


def _sel_dd(fn, d):
    memo = {}

    def go(x):
        if type(x) is not D:
            return fn(x)
        q = memo.get(x)
        if q is None:
            q = ite(mkD(x.v, 1, 0), go(x.h), go(x.l))
            memo[x] = q
        return q

    return go(d)


def has(m, k):
    if m.op == "store":
        m0, k0, v = m.args
        return bor(eq(k0, k), has(m0, k))
    if m.op == "del":
        m0, k0 = m.args
        return band(bnot(eq(k0, k)), has(m0, k))
    if m.op == "mapnew" or m is UNDEF:
        return 0
    if m.op == "ite":
        return _push_bool(dmap(lambda t: B(has(t, k)), m.args[0]))
    if k.op == "keyat" and k.args[0] is m:
        return 1
    if k.op == "ite" or (is_int(k) and has_dd(k)):
        try:
            kd = split(k)
        except TooBig:
            kd = k
        if type(kd) is D:
            return _push_bool(dmap(lambda t: B(has(m, t)), kd))
    return lit(N("has", m, k))


def store(m, k, v):
    if m.op == "ite":
        return _sel_dd(lambda t: store(t, k, v), m.args[0])
    if m.op == "store" and m.args[1] is k:
        m = m.args[0]
    elif m.op == "del" and m.args[1] is k:
        m = m.args[0]
    elif m.op == "store" and eq(m.args[1], k) == 0 and _has_key(m.args[0], k):
        # commute past a store to a provably different key
        m0, k0, v0 = m.args
        return N("store", store(m0, k, v), k0, v0, ty=m.ty)
    return N("store", m, k, v, ty=m.ty)


def _has_key(m, k):
    while m.op == "store":
        if m.args[1] is k:
            return True
        if eq(m.args[1], k) != 0:
            return False
        m = m.args[0]
    return False


def delete(m, k):
    if m.op == "ite":
        return _sel_dd(lambda t: delete(t, k), m.args[0])
    if m.op == "mapnew":
        return m
    if m.op == "store" and m.args[1] is k:
        m = m.args[0]
    return N("del", m, k, ty=m.ty)


def vlen(v):
    if v.op == "vec":
        return I(len(v.args[0]))
    if v.op == "vpush":
        return add(vlen(v.args[0]), I(1))
    if v.op == "vpushf":
        return add(vlen(v.args[0]), I(1))
    if v.op in ("vpopf", "vpopb", "vrem"):
        return sub(vlen(v.args[0]), I(1))
    if v.op == "vset":
        return vlen(v.args[0])
    if v.op == "vappend":
        return add(vlen(v.args[0]), vlen(v.args[1]))
    if v.op == "ite":
        return from_dd_int(dmap(vlen, v.args[0]))
    if v is UNDEF:
        return UNDEF
    if v.op == "keys" or v.op == "values":
        return mlen(v.args[0])
    if v.op == "vdrop":
        return sub(vlen(v.args[0]), v.args[1])
    if v.op == "vtab":
        return v.args[1]
    return N("len", v, ty="u32")


def mlen(m):
    if m.op == "mapnew":
        return I(0)
    if m.op == "ite":
        return from_dd_int(dmap(mlen, m.args[0]))
    if m is UNDEF:
        return UNDEF
    if m.op == "store":
        m0, k, v = m.args
        return add(mlen(m0), mk_poly({(): bnot(has(m0, k))}))
    if m.op == "del":
        m0, k = m.args
        return sub(mlen(m0), mk_poly({(): has(m0, k)}))
    return N("len", m, ty="u32")


def at(v, i, ty):
    if v.op == "vec":
        if i.op == "int":
            return v.args[0][i.args[0]] if 0 <= i.args[0] < len(v.args[0]) else UNDEF
        if len(v.args[0]) <= 8:
            r = UNDEF
            for j in range(len(v.args[0]) - 1, -1, -1):
                r = ite(eq(i, I(j)), v.args[0][j], r)
            return r
    if v.op == "vpush":
        v0, x = v.args
        return ite(eq(i, vlen(v0)), x, at(v0, i, ty))
    if v.op == "vpushf":
        v0, x = v.args
        return ite(eq(i, I(0)), x, at(v0, sub(i, I(1)), ty))
    if v.op == "vpopf":
        return at(v.args[0], add(i, I(1)), ty)
    if v.op == "vpopb":
        return at(v.args[0], i, ty)
    if v.op == "vdrop":
        return at(v.args[0], add(v.args[1], i), ty)
    if v.op == "vtab":
        return Subst({v.args[2]: i})(v.args[3])
    if v.op == "vset":
        v0, j, x = v.args
        return ite(eq(i, j), x, at(v0, i, ty))
    if v.op == "ite":
        return _sel_dd(lambda t: at(t, i, ty), v.args[0])
    if v is UNDEF:
        return UNDEF
    if v.op == "keys":
        return N("keyat", v.args[0], i, ty=ty)
    if v.op == "values":
        return sel(v.args[0], N("keyat", v.args[0], i, ty=v.args[1]), ty)
    return N("at", v, i, ty=ty)


def vdrop(v, n):
    """v without its first n elements"""
    if n.op == "int" and n.args[0] == 0:
        return v
    if v.op == "vdrop":
        return vdrop(v.args[0], add(v.args[1], n))
    return N("vdrop", v, n, ty=v.ty)


def vec_op(op, v, *xs):
    if v.op == "ite":
        return _sel_dd(lambda t: vec_op(op, t, *xs), v.args[0])
    if v.op == "vec":
        es = v.args[0]
        if op == "vpush":
            return N("vec", es + (xs[0],), ty=v.ty)
        if op == "vpushf":
            return N("vec", (xs[0],) + es, ty=v.ty)
        if op == "vpopf" and es:
            return N("vec", es[1:], ty=v.ty)
        if op == "vpopb" and es:
            return N("vec", es[:-1], ty=v.ty)
        if op == "vset" and xs[0].op == "int" and 0 <= xs[0].args[0] < len(es):
            j = xs[0].args[0]
            return N("vec", es[:j] + (xs[1],) + es[j + 1:], ty=v.ty)
    if op == "vpopf" and v.op == "vpushf":
        return v.args[0]
    if op == "vpopf" and v.op == "vdrop":
        return vdrop(v.args[0], add(v.args[1], I(1)))
    if op == "vpopb" and v.op == "vpush":
        return v.args[0]
    if op == "vpushf" and v.op == "vpopf" and xs[0].op == "at" and xs[0].args[0] is v.args[0] and \
            xs[0].args[1] is I(0):
        return v.args[0]
    if op == "vpushf" and v.op == "vdrop" and to_poly(v.args[1]).get((), 0) in (1, 2, 3):
        w = vdrop(v.args[0], sub(v.args[1], I(1)))
        return vec_op("vset", w, I(0), xs[0])
    if op == "vpushf" and v.op == "vpopf":
        # replace the head
        return vec_op("vset", v.args[0], I(0), xs[0])
    if op == "vset" and xs[1] is at(v, xs[0], xs[1].ty):
        return v
    return N(op, v, *xs, ty=v.ty)


# --------------------------------------------------------------------------- traversal: restrict / substitute


# loop binders: op -> index of the first argument in the scope of the loop's own symbols (arguments: depth, bound, ...)
BINDERS = {"sum": 2, "fold": 3, "ex": 2, "all": 2, "vtab": 2}


def free(n):
    """frozenset of loop symbols (iota/mu) free in n"""
    f = n._fv
    if f is not None:
        return f
    if n.op in ("iota", "mu"):
        s = {n}
        for a in n.args:
            if isinstance(a, Node):
                s |= free(a)
        f = frozenset(s)
    elif n.op in BINDERS:
        s = set()
        for a in n.args:
            _freeargs(a, s)
        d = n.args[0]
        s = {x for x in s if x.args[0] != d}
        for a in n.args[1:BINDERS[n.op]]:
            _freeargs(a, s)
        f = frozenset(s)
    else:
        s = set()
        for a in n.args:
            _freeargs(a, s)
        f = frozenset(s)
    n._fv = f
    return f


_dfree = {}


def dfree(d):
    if type(d) is not D:
        return free(d) if isinstance(d, Node) else frozenset()
    f = _dfree.get(d)
    if f is None:
        f = free(_vars[d.v]) | dfree(d.h) | dfree(d.l)
        _dfree[d] = f
    return f


def _freeargs(a, s):
    if isinstance(a, Node):
        s |= free(a)
    elif type(a) is D:
        s |= dfree(a)
    elif type(a) is tuple:
        for x in a:
            _freeargs(x, s)


class Rewriter:
    """bottom-up rebuild through the normalising constructors"""

    def __init__(self):
        self.memo = {}
        self.dmemo = {}

    def leaf(self, n):
        """override: return replacement or None"""
        return None

    def skip(self, n):
        return False

    def skipd(self, d):
        return False

    def guard(self, d):
        """0/1 diagram"""
        if type(d) is not D:
            return d
        if self.skipd(d):
            return d
        r = self.dmemo.get(d)
        if r is None:
            r = dite(self.atom(_vars[d.v]), self.guard(d.h), self.guard(d.l))
            self.dmemo[d] = r
        return r

    def atom(self, a):
        """atom Node -> guard"""
        if self.skip(a):
            return lit(a)
        op = a.op
        if op == "lt":
            return lt(self(a.args[0]), I(a.args[1]))
        if op == "lt0":
            return lt0(self(a.args[0]))
        if op == "eq0":
            return int_eq(self(a.args[0]), I(0))
        if op == "eq":
            return eq(self(a.args[0]), self(a.args[1]))
        if op == "b":
            return truth(self(a.args[0]))
        if op == "has":
            return has(self(a.args[0]), self(a.args[1]))
        if op == "is":
            d = disc_of(self(a.args[0]))
            if d is UNDEF:
                return lit(a)
            return int_eq(d, I(a.args[1]))
        return lit(N(op, *[self.arg(x) for x in a.args], ty=a.ty))

    def arg(self, a):
        if isinstance(a, Node):
            return self(a)
        if type(a) is tuple:
            return tuple(self.arg(x) for x in a)
        if type(a) is D:
            return self.guard(a)
        return a

    def dd(self, d):
        """diagram with Node terminals -> Node"""
        if type(d) is not D:
            return self(d)
        r = self.dmemo.get(("n", d))
        if r is None:
            r = ite(self.atom(_vars[d.v]), self.dd(d.h), self.dd(d.l))
            self.dmemo[("n", d)] = r
        return r

    def ddi(self, d):
        """diagram with int terminals -> diagram with int terminals"""
        if type(d) is not D:
            return d
        r = self.dmemo.get(("i", d))
        if r is None:
            r = dite(self.atom(_vars[d.v]), self.ddi(d.h), self.ddi(d.l))
            self.dmemo[("i", d)] = r
        return r

    def __call__(self, n):
        if self.skip(n):
            return n
        r = self.memo.get(n)
        if r is None:
            r = self.leaf(n)
            if r is None:
                r = self.rebuild(n)
            self.memo[n] = r
        return r

    def rebuild(self, n):
        op = n.op
        if op in ("int", "str", "sym", "arg", "env", "now", "seq", "self", "undef", "map0", "iota0", "ref"):
            return n
        if op == "poly":
            acc = I(0)
            for m, c in n.args[0]:
                t = mk_poly({(): self.ddi(c)})
                for a, e in m:
                    x = self(a)
                    for _ in range(e):
                        t = mul(t, x)
                acc = add(acc, t)
            return acc
        if op == "bdd":
            return B(self.guard(n.args[0]))
        if op == "ite":
            return self.dd(n.args[0])
        if op == "muldiv":
            return muldiv(n.args[0], self(n.args[1]), self(n.args[2]))
        if op == "pow":
            return power(self(n.args[0]), self(n.args[1]))
        if op == "narrow":
            return convert(self(n.args[0]), n.args[1])
        if op == "agg":
            return agg(n.args[0], n.args[1], tuple(self(x) for x in n.args[2]))
        if op == "fld":
            return fld(self(n.args[0]), n.args[1], n.ty)
        if op == "enum":
            return enum(n.args[0], self(n.args[1]), tuple(None if p is None else tuple(self(x) for x in p) for p in n.args[2]))
        if op == "pay":
            return payload(self(n.args[0]), n.args[1], n.args[2], n.ty)
        if op == "disc":
            return disc_of(self(n.args[0]))
        if op == "sel":
            return sel(self(n.args[0]), self(n.args[1]), n.ty)
        if op == "store":
            return store(self(n.args[0]), self(n.args[1]), self(n.args[2]))
        if op == "del":
            return delete(self(n.args[0]), self(n.args[1]))
        if op == "len":
            x = self(n.args[0])
            if x.ty and "Map<" in x.ty.split("(")[0][:40] or x.op in ("mapnew", "store", "del"):
                return mlen(x)
            return vlen(x)
        if op == "at":
            return at(self(n.args[0]), self(n.args[1]), n.ty)
        if op in ("vpush", "vpushf", "vpopf", "vpopb", "vset"):
            return vec_op(op, *[self(x) for x in n.args])
        if op == "vdrop":
            return vdrop(*[self(x) for x in n.args])
        return N(op, *[self.arg(x) for x in n.args], ty=n.ty)


class Subst(Rewriter):
    def __init__(self, m):
        super().__init__()
        self.m = m
        self.keys = set(m)
        self.loopsyms = all(k.op in ("iota", "mu") for k in m)

    def leaf(self, n):
        return self.m.get(n)

    def skip(self, n):
        if n in self.m:
            return False
        if self.loopsyms:
            return not (free(n) & self.keys)
        return False

    def skipd(self, d):
        return self.loopsyms and not (dfree(d) & self.keys)

    def binder(self, n):
        """substitute below a binder without touching the symbols it binds"""
        k = BINDERS[n.op]
        d = n.args[0]
        inner = self
        bound = lambda x: any(y.op in ("iota", "mu") and y.args[0] == d for y in ((x,) if x.op in ("iota", "mu") else free(x)))
        if any(bound(x) for x in self.keys):
            m = {x: v for x, v in self.m.items() if not bound(x)}
            inner = Subst(m) if m else None
        out = [d] + [self.arg(a) for a in n.args[1:k]]
        out += [inner.arg(a) if inner is not None else a for a in n.args[k:]]
        return N(n.op, *out, ty=n.ty)

    def atom(self, a):
        if a.op in BINDERS:
            if self.loopsyms and not (free(a) & self.keys):
                return lit(a)
            return lit(self.binder(a))
        return super().atom(a)

    def rebuild(self, n):
        if n.op in BINDERS:
            return self.binder(n)
        return super().rebuild(n)


class Assume(Rewriter):
    """simplify a node under a guard assumed true"""

    def __init__(self, care):
        super().__init__()
        self.care = care
        self.vs = dvars(care)

    def guard(self, d):
        if type(d) is not D:
            return d
        r = self.dmemo.get(d)
        if r is None:
            r = drestrict(super().guard(d), self.care)
            self.dmemo[d] = r
        return r

    def atom(self, a):
        v = _varof.get(a)
        if v is not None:
            x = drestrict(mkD(v, 1, 0), self.care)
            if type(x) is int:
                return x
        if not _deep_dd(a):
            return lit(a)
        return super().atom(a)

    def skip(self, n):
        return not _deep_dd(n)

    def rebuild(self, n):
        r = super().rebuild(n)
        return r

    def dd(self, d):
        if type(d) is D:
            d = drestrict(d, self.care)
        return super().dd(d)

    def ddi(self, d):
        if type(d) is D:
            d = drestrict(d, self.care)
        return super().ddi(d)


def _deep_dd(n):
    """does n contain any decision diagram anywhere?"""
    f = n._dd
    if f is None:
        f = _dda(n.args)
        n._dd = f
    return f


def _dda(a):
    if isinstance(a, Node):
        return _deep_dd(a)
    if type(a) is D:
        return True
    if type(a) is tuple:
        return any(_dda(x) for x in a)
    return False


_assume = {}


def assume(n, care):
    if type(care) is not D:
        return n
    a = _assume.get(care)
    if a is None:
        if len(_assume) > 3000:
            _assume.clear()
        a = Assume(care)
        _assume[care] = a
    return a(n)


def assume_guard(d, care):
    if type(care) is not D or type(d) is not D:
        return d
    return drestrict(d, care)


# --------------------------------------------------------------------------- entailment


def order_clauses(vs):
    """facts relating comparison atoms on the same linear form"""
    byq = {}
    for v in vs:
        a = _vars[v]
        if a.op == "lt":
            byq.setdefault(a.args[0], []).append((a.args[1], v))
    r = []
    for q, l in byq.items():
        l.sort()
        for (c1, v1), (c2, v2) in zip(l, l[1:]):
            r.append(bor(mkD(v1, 0, 1), mkD(v2, 1, 0)))
    return r


def axioms(vs):
    r = 1
    for c in order_clauses(vs):
        r = band(r, c)
    return r


def _nn(n, depth=6):
    """a guard sufficient for n >= 0"""
    if nonneg(n):
        return 1
    if depth == 0:
        return 0
    if n.op == "poly":
        r = 1
        for m, c in n.args[0]:
            if type(c) is not int:
                return 0
            if c < 0:
                # a single negative product is fine when no positive term hides it
                return 0
            for a, e in m:
                if e % 2 == 0:
                    continue
                r = band(r, bnot(lt_const(a, 0)) if a.op != "muldiv" else _nn(a, depth - 1))
        return r
    if n.op == "muldiv":
        return band(_nn(n.args[1], depth - 1), _nn(n.args[2], depth - 1))
    if n.op == "sum":
        return 0
    if n.op == "int":
        return 1 if n.args[0] >= 0 else 0
    if is_int(n):
        return bnot(lt_const(n, 0))
    return 0


_deep_memo = {}


_pair_memo = {}


def _pair(v1, v2):
    """what two linear facts give together: [(not both, form, upper?, bound)]; form None: they exclude each other"""
    r = _pair_memo.get((v1, v2))
    if r is not None:
        return r
    r = []
    sides = []
    for v in (v1, v2):
        q, k = _vars[v].args
        # q <= k-1, or -q <= -k
        sides.append([] if has_dd(q) else [(mkD(v, 1, 0), q, k - 1), (mkD(v, 0, 1), neg(q), -k)])
    for l1, p1, c1 in sides[0]:
        for l2, p2, c2 in sides[1]:
            sp = add(p1, p2)
            if len(to_poly(sp)) > max(len(to_poly(p1)), len(to_poly(p2)), 2):
                continue
            cc = c1 + c2
            if sp.op == "int":
                if sp.args[0] > cc:
                    r.append((bnot(band(l1, l2)), None, 0, 0))
                continue
            # sp <= cc, as a guard
            d = _lt0u(sub(sp, I(cc + 1)))
            if type(d) is int:
                if d == 0:
                    r.append((bnot(band(l1, l2)), None, 0, 0))
                continue
            r.append((bnot(band(l1, l2)), _vars[d.v].args[0], d.h == 1, _vars[d.v].args[1]))
    _pair_memo[(v1, v2)] = r
    return r


def deep_clauses(vs):
    """signs of products/quotients, and consequences of pairs of linear facts"""
    vs = frozenset(vs)
    r = _deep_memo.get(vs)
    if r is not None:
        return r
    ats = []
    for v in sorted(vs):
        a = _vars[v]
        if a.op == "lt":
            ats.append((v, a.args[0], a.args[1]))
    cl = []
    for v, q, k in ats:
        if k <= 0 and not nonneg(q):
            g = _nn(q)
            if not (type(g) is int and g == 0):
                cl.append(bor(bnot(g), mkD(v, 0, 1)))
    if len(ats) <= 48:
        byq = {}
        for v, q, k in ats:
            byq.setdefault(q, []).append((v, k))
        for i in range(len(ats)):
            for j in range(i):
                for bad, q2, pos, kk in _pair(ats[i][0], ats[j][0]):
                    if q2 is None:
                        cl.append(bad)
                        continue
                    for v3, k3 in byq.get(q2, ()):
                        # pos: q < kk known; neg: q >= kk known
                        if pos and k3 >= kk:
                            cl.append(bor(bad, mkD(v3, 1, 0)))
                        if not pos and k3 <= kk:
                            cl.append(bor(bad, mkD(v3, 0, 1)))
    cl = list(dict.fromkeys(c for c in cl if not (type(c) is int and c == 1)))
    _deep_memo[vs] = cl
    return cl


def implies(f, g):
    if type(g) is int and g == 1:
        return True
    r = band(f, bnot(g))
    if type(r) is int:
        return r == 0
    r = band(r, axioms(dvars(r)))
    if type(r) is int:
        return r == 0
    return _deep_unsat(f, g, r)


DEEP_SIZE = 4000


def _deep_unsat(f, g, r):
    vs = set(dvars(r)) | set(dvars(g) if type(g) is D else ())
    # signs of the operands matter even where they no longer occur in r
    ops = set()
    for v in vs:
        a = _vars[v]
        if a.op == "lt":
            ops |= _operands(a.args[0])
    if type(f) is D:
        for v in dvars(f):
            a = _vars[v]
            if a.op == "lt" and (a.args[0] in ops or free_small(a.args[0]) & ops):
                vs.add(v)
    todo = deep_clauses(vs)
    allv = set(dvars(r))
    for c in todo:
        if type(c) is not D:
            return True
        dvars(c, allv, set())
    todo = todo + order_clauses(allv)
    m = _consistent(r, todo)
    if m is not None:
        return not m
    for i, c in enumerate(todo):
        r = band(r, c)
        if type(r) is int:
            return r == 0
        if i % 32 == 31 and dsize(r) > DEEP_SIZE:
            break
    return type(r) is int and r == 0


def _consistent(r, clauses, budget=4000):
    """is there a truth assignment of the atoms under which r and all clauses hold?  None: not decided within the budget"""
    touch = {}
    for c in clauses:
        for v in dvars(c):
            touch.setdefault(v, []).append(c)

    def value(c, A):
        """0, 1, or an unassigned atom of c (and whether it is the last one)"""
        while type(c) is D:
            x = A.get(c.v)
            if x is None:
                h, l = c.h, c.l
                a = value(h, A) if type(h) is D else h
                b = value(l, A) if type(l) is D else l
                if type(a) is int and type(b) is int:
                    return a if a == b else (c.v, a)
                return (c.v, None)
            c = c.h if x else c.l
        return c

    def assign(A, v, x):
        todo = [(v, x)]
        while todo:
            v, x = todo.pop()
            y = A.get(v)
            if y is not None:
                if y != x:
                    return False
                continue
            A[v] = x
            for c in touch.get(v, ()):
                e = value(c, A)
                if e == 0 and type(e) is int:
                    return False
                if type(e) is tuple and e[1] is not None:
                    todo.append((e[0], e[1]))
        return True

    left = [budget]

    def go(f, A):
        while type(f) is D:
            x = A.get(f.v)
            if x is None:
                order = (1, 0) if f.l == 0 and type(f.l) is int else (0, 1)
                for x in order:
                    t = f.h if x else f.l
                    if type(t) is int and t == 0:
                        continue
                    left[0] -= 1
                    if left[0] < 0:
                        return None
                    B2 = dict(A)
                    if assign(B2, f.v, x):
                        res = go(t, B2)
                        if res is not False:
                            return res
                return False
            f = f.h if x else f.l
        if f == 0:
            return False
        for c in clauses:
            e = value(c, A)
            if type(e) is tuple:
                for x in (0, 1):
                    left[0] -= 1
                    if left[0] < 0:
                        return None
                    B2 = dict(A)
                    if assign(B2, e[0], x):
                        res = go(1, B2)
                        if res is not False:
                            return res
                return False
            if e == 0:
                return False
        return True
    A = {}
    for c in clauses:
        e = value(c, A)
        if type(e) is tuple and e[1] is not None and not assign(A, e[0], e[1]):
            return False
    return go(r, A)


def _operands(n, depth=4):
    r = set()
    if n.op == "poly":
        for m, c in n.args[0]:
            for a, e in m:
                r.add(a)
                if depth:
                    r |= _operands(a, depth - 1)
    elif n.op == "muldiv":
        r |= _operands(n.args[1], depth - 1) | _operands(n.args[2], depth - 1)
        r.add(n.args[1])
        r.add(n.args[2])
    else:
        r.add(n)
    return r


def free_small(n):
    if n.op == "poly":
        return set(a for m, c in n.args[0] for a, e in m)
    return {n}


def sat(f):
    if type(f) is int:
        return f == 1
    r = band(f, axioms(dvars(f)))
    return not (type(r) is int and r == 0)


def dsat(f):
    """satisfiable as far as the deeper facts show"""
    return sat(f) and not implies(f, 0)


def witness(f):
    """one satisfying assignment as text (for reports)"""
    f = band(f, axioms(dvars(f))) if type(f) is D else f
    out = []
    while type(f) is D:
        if not (type(f.h) is int and f.h == 0):
            out.append(show(_vars[f.v]))
            f = f.h
        else:
            out.append("not " + show(_vars[f.v]))
            f = f.l
    return out


# --------------------------------------------------------------------------- printing


def show(n, depth=7):
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if not isinstance(n, Node):
        if type(n) is D:
            return showd(n, depth - 1)
        return str(n)
    op = n.op
    if op == "int":
        return str(n.args[0])
    if op == "str":
        return repr(n.args[0])
    if op == "sym":
        return ":" + n.args[0]
    if op == "arg":
        return "arg%s" % n.args[0]
    if op in ("now", "seq", "self", "env", "undef"):
        return op.upper()
    if op == "poly":
        out = []
        for m, c in n.args[0]:
            ms = "*".join(s(a) + ("^%d" % e if e > 1 else "") for a, e in m)
            if type(c) is int:
                if ms and c == 1:
                    out.append(ms)
                elif ms:
                    out.append("%d*%s" % (c, ms))
                else:
                    out.append(str(c))
            else:
                out.append("{%s}%s" % (showd(c, depth - 1), "*" + ms if ms else ""))
        return "(" + " + ".join(out) + ")"
    if op == "bdd":
        return showd(n.args[0], depth)
    if op == "ite":
        return "{" + showd(n.args[0], depth - 1) + "}"
    if op == "fld":
        return "%s.%s" % (s(n.args[0]), n.args[2])
    if op == "pay":
        return "%s#%s.%s" % (s(n.args[0]), n.args[1], n.args[2])
    if op == "muldiv":
        return "%s(%s / %s)" % (n.args[0], s(n.args[1]), s(n.args[2]))
    if op == "agg":
        nm = (n.args[0] or "").split("::")[-1].split("<")[0]
        return "%s{%s}" % (nm, ", ".join(s(x) for x in n.args[2]))
    if op == "enum":
        e = _ENUMS.get(n.args[0])
        ps = []
        for i, p in enumerate(n.args[2]):
            if p is not None:
                ps.append("%s(%s)" % (e[i][0] if e else i, ", ".join(s(x) for x in p)))
        return "%s<%s>[%s]" % (n.args[0].split("<")[0].split("::")[-1], s(n.args[1]), "|".join(ps))
    if op == "map0":
        return "S:" + "/".join(str(x) for x in n.args)
    if op == "sel":
        return "%s[%s]" % (s(n.args[0]), s(n.args[1]))
    if op == "lt":
        return "(%s < %s)" % (s(n.args[0]), n.args[1])
    if op == "eq":
        return "(%s == %s)" % (s(n.args[0]), s(n.args[1]))
    if op == "iota":
        return "i%d" % n.args[0]
    if op == "mu":
        return "mu%d<%s>" % (n.args[0], s(n.args[2]))
    return "%s(%s)" % (op, ", ".join(s(x) if not isinstance(x, tuple) else "[" + ",".join(s(y) for y in x) + "]" for x in n.args))


def showd(d, depth=6):
    if type(d) is not D:
        return show(d, depth) if isinstance(d, Node) else str(d)
    if depth <= 0:
        return "…"
    a = show(_vars[d.v], depth - 1)
    if type(d.h) is int and d.h == 1 and type(d.l) is int and d.l == 0:
        return a
    if type(d.h) is int and d.h == 0 and type(d.l) is int and d.l == 1:
        return "!" + a
    if type(d.l) is int and d.l == 0:
        return a + " & " + showd(d.h, depth)
    if type(d.h) is int and d.h == 0:
        return "!" + a + " & " + showd(d.l, depth)
    return "(%s ? %s : %s)" % (a, showd(d.h, depth - 1), showd(d.l, depth - 1))
