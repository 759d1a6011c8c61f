"""Interprocedural value-flow analysis of MIR.

One forward dataflow pass per function context: states are joined where control
flow joins (values become guard-dependent through `ite`), loops are solved to a
fixpoint by widening the changed leaves to symbolic loop-carried values, calls are
analysed in their calling context.  Nothing is executed and no path is enumerated.
"""
import re
from terms import *
import terms
from prims import PRIMS, lookup, contains

MAXDEPTH = 80


class Diverge(Exception):
    pass


class Effect:
    __slots__ = ("kind", "data", "guard", "loops", "loc", "chain")

    def __init__(self, kind, data, guard, loops, loc, chain):
        self.kind, self.data, self.guard, self.loops, self.loc, self.chain = kind, data, guard, loops, loc, chain

    def __repr__(self):
        return "<%s %s | %s | loops=%d %s>" % (self.kind, self.data, showd(self.guard), len(self.loops), self.loc)


def initial(k):
    """value of a state cell nobody has touched yet"""
    if type(k) is tuple and k and k[0] == "st":
        return N("map0", k[1], k[2])
    if k == "world":
        return N("w0")
    return UNDEF


class Loop:
    """facts about a summarised loop"""
    __slots__ = ("depth", "bound", "iota", "steps", "comp", "fn", "line", "exits", "inits", "entry_pc", "reach", "back_pc", "post", "mus", "only")


class Summary:
    pass


def _size(t):
    """bytes a value of the type takes, when known"""
    if t["k"] in ("int", "uint"):
        return t["bits"] // 8
    if t["k"] == "bool":
        return 1
    return t.get("sz")


# types of the SDK whose methods cannot change the ledger
PURE_SDK = tuple("soroban_sdk::%s" % x for x in ("String", "Bytes", "BytesN", "Vec", "Map", "Symbol", "Address", "U256", "I256", "Duration", "Timepoint", "Val", "Error",
    "vec::", "map::", "bytes::", "string::", "symbol::", "address::", "num::", "crypto::", "ledger::", "prng::", "iter::", "unwrap::", "try_from_val_for_contract_fn", "logs::"))


class Interp:
    def __init__(self, crate):
        self.crate = crate
        self.state = None
        self.pc = 1
        self.effects = []
        self.ncell = 0
        self.depth = 0
        self.loopdepth = 0
        self.chain = []
        self.quiet = 0
        self.loops = []
        self.unknown = {}
        self.visited = set()
        self.callsites = 0
        self.changed_cache = {}
        self.curloc = None
        self.nblocks = 0
        self.opaque = {}

    # ------------------------------------------------------------------ entry

    def run(self, fn, args=None):
        self.state = {}
        self.effects = []
        self.loops = []
        vals = []
        for i in range(fn.argc):
            ty = self.crate.types[fn.locals[i + 1]]
            v = args.get(i) if args else None
            if v is None:
                v = self.symarg(ty, i)
            vals.append(v)
        pc, ret = self.call(fn, vals)
        s = Summary()
        s.fn = fn
        s.commit = pc
        s.ret = ret
        s.state = self.state
        s.effects = self.effects
        s.loops = self.loops
        s.args = vals
        return s

    def symarg(self, ty, i):
        if ty["k"] == "ref":
            inner = self.symarg(self.crate.types[ty["t"]], i)
            if ty["mut"]:
                c = self.newcell(inner)
                return N("ref", c, ())
            return N("cref", inner)
        if ty["s"] == "soroban_sdk::Env":
            return ENV
        if ty["k"] == "bool":
            return B(lit(N("b", N("arg", i, ty="bool"))))
        return N("arg", i, ty=ty["s"])

    # ------------------------------------------------------------------ cells and places

    def newcell(self, v):
        self.ncell += 1
        c = self.ncell
        self.state[c] = v
        return c

    def stored(self, dur, cls):
        return self.state.get(("st", dur, cls), N("map0", dur, cls))

    def require(self, g):
        self.pc = band(self.pc, g)

    def deref(self, v):
        while True:
            if v.op == "ref":
                v = self.readref(v)
            elif v.op == "cref":
                v = v.args[0]
            elif v.op == "ite" and any(t.op in ("ref", "cref") for t in dterms(v.args[0])):
                v = terms._sel_dd(self.deref, v.args[0])
            else:
                return v

    def deep(self, v):
        """value seen through references, also inside tuples and vectors (what a Val conversion sees)"""
        v = self.deref(v)
        if v.op == "agg" and any(isinstance(x, Node) and x.op in ("ref", "cref", "agg", "vec") for x in v.args[2]):
            xs = tuple(self.deep(x) for x in v.args[2])
            return v if all(x is y for x, y in zip(xs, v.args[2])) else N("agg", v.args[0], v.args[1], xs, ty=v.ty)
        if v.op == "vec":
            xs = tuple(self.deep(x) for x in v.args[0])
            return v if all(x is y for x, y in zip(xs, v.args[0])) else N("vec", xs, ty=v.ty)
        return v

    def readref(self, r):
        v = self.state.get(r.args[0], UNDEF)
        return self.getpath(v, r.args[1])

    def getpath(self, v, path):
        i = 0
        n = len(path)
        while i < n:
            p = path[i]
            if p[0] == "d":
                # downcast is followed by a field
                if i + 1 < n and path[i + 1][0] == "f":
                    v = payload(v, p[1], path[i + 1][1], path[i + 1][2])
                    i += 2
                    continue
            elif p[0] == "f":
                v = fld(v, p[1], p[2]) if v.op != "enum" else payload(v, 0, p[1], p[2])
            elif p[0] == "i":
                v = at(v, p[1], None)
            i += 1
        return v

    def setpath(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "d":
            if len(path) > 1 and path[1][0] == "f":
                vi, fi = p[1], path[1][1]
                e = expand_enum(v)
                if e.op != "enum":
                    return x if len(path) == 2 else v
                old = e.args[2][vi]
                if old is None:
                    old = tuple(UNDEF for _ in terms._ENUMS[e.args[0]][vi][2])
                new = list(old)
                new[fi] = self.setpath(old[fi], path[2:], x)
                pl = list(e.args[2])
                pl[vi] = tuple(new)
                return enum(e.args[0], e.args[1], tuple(pl))
            return v
        if p[0] == "f":
            if v is UNDEF:
                # field-by-field initialisation
                nf = p[1] + 1
                v = N("agg", p[3] if len(p) > 3 else None, None, tuple(UNDEF for _ in range(nf)))
            if v.op == "agg" and len(v.args[2]) <= p[1]:
                fs = v.args[2] + tuple(UNDEF for _ in range(p[1] + 1 - len(v.args[2])))
                v = N("agg", v.args[0], v.args[1], fs, ty=v.ty)
            old = fld(v, p[1], p[2])
            return set_fld(v, p[1], self.setpath(old, path[1:], x), p[1] + 1)
        if p[0] == "i":
            old = at(v, p[1], None)
            return vec_op("vset", v, p[1], self.setpath(old, path[1:], x))
        return v

    def resolve(self, fr, pl):
        """place -> ('cell', cell, path) or ('val', value, path)"""
        cell = fr.base + pl[0]
        path = []
        kind, base = "cell", cell
        for e in pl[1]:
            if e == "*":
                cur = self.state.get(base, UNDEF) if kind == "cell" else base
                v = self.getpath(cur, path)
                path = []
                if v.op == "ref":
                    kind, base, path = "cell", v.args[0], list(v.args[1])
                elif v.op == "cref":
                    kind, base = "val", v.args[0]
                elif v.op == "ite":
                    kind, base = "val", self.deref(v)
                else:
                    kind, base = "val", v
            elif e[0] == "f":
                path.append(("f", e[1], fr.fn.crate.tn(e[2])))
            elif e[0] == "d":
                path.append(("d", e[1]))
            elif e[0] == "i":
                path.append(("i", self.state.get(fr.base + e[1], UNDEF)))
            elif e[0] == "c":
                path.append(("i", I(e[1])))
            else:
                path.append(("o",))
        return kind, base, path

    def read(self, fr, pl):
        kind, base, path = self.resolve(fr, pl)
        v = self.state.get(base, UNDEF) if kind == "cell" else base
        return self.getpath(v, path)

    def write(self, fr, pl, x):
        if not pl[1]:
            self.state[fr.base + pl[0]] = x
            return
        kind, base, path = self.resolve(fr, pl)
        if kind == "cell":
            old = self.state.get(base, UNDEF)
            self.state[base] = self.setpath(old, path, x)
        else:
            self.note("lost-write", (x,))

    def writeref(self, r, x):
        if r.op == "ref":
            old = self.state.get(r.args[0], UNDEF)
            if old.op == "ref" and not r.args[1]:
                return self.writeref(old, x)
            self.state[r.args[0]] = self.setpath(old, r.args[1], x)
        elif r.op == "ite":
            # conditional target: weak update of each
            def go(d, g):
                if type(d) is D:
                    go(d.h, band(g, mkD(d.v, 1, 0)))
                    go(d.l, band(g, mkD(d.v, 0, 1)))
                elif d.op == "ref":
                    old = self.readref(d)
                    self.writeref(d, ite(g, x, old))
            go(r.args[0], 1)
        else:
            self.note("lost-write", (x,))

    def note(self, kind, data):
        self.effect("note:" + kind, data)

    def effect(self, kind, data):
        if self.quiet == 0:
            self.effects.append(Effect(kind, data, self.pc, (), self.curloc, tuple(self.chain)))

    # ------------------------------------------------------------------ operands / rvalues

    def const(self, fr, c):
        cr = fr.fn.crate
        t = cr.types[c["ty"]]
        return self.constv(cr, t, c)

    def constv(self, cr, t, c):
        if "int" in c:
            v = int(c["int"])
            return I(v)
        if "bool" in c:
            return TRUE if c["bool"] else FALSE
        if "str" in c:
            return N("cref", N("str", c["str"]))
        if "ref" in c:
            r = c["ref"]
            return N("cref", self.constv(cr, cr.types[r["ty"]], r))
        k = t["k"]
        if "zst" in c:
            if k == "tuple":
                return UNIT
            if k in ("fndef", "closure"):
                return N("fnptr", t["s"], self._fnkey(t), ty=t["s"])
            if k == "adt" and t["ak"] == "struct":
                fs = [self.constv(cr, cr.types[x], {"zst": True}) for _, x in t["v"][0]["f"]]
                return agg(t["s"], None, tuple(fs))
            return N("zst", t["s"], ty=t["s"])
        b = c.get("bytes")
        if b is not None:
            x = self.decode(cr, t, b)
            if x is not None:
                return x
        return N("const", t["s"], str(c.get("bytes") or c.get("mem") or c.get("txt")), ty=t["s"])

    def _fnkey(self, t):
        if t["k"] == "fndef":
            return t["c"].get("inst")
        return None

    def decode(self, cr, t, hexs):
        n = len(hexs) // 2
        bs = [None if hexs[2 * i] == "_" else int(hexs[2 * i:2 * i + 2], 16) for i in range(n)]
        k = t["k"]

        def num(lo, ln):
            x = bs[lo:lo + ln]
            if any(y is None for y in x):
                return None
            return int.from_bytes(bytes(x), "little")

        if k in ("int", "uint"):
            v = num(0, t["bits"] // 8)
            if v is None:
                return UNDEF
            if k == "int" and v >> (t["bits"] - 1):
                v -= 1 << t["bits"]
            return I(v)
        if t["s"] == "soroban_sdk::Symbol":
            # a short symbol: six bits a character above an eight-bit tag
            ws = [x for x in (num(8 * i, 8) for i in range(n // 8)) if x and x & 0xff == 14]
            if len(ws) == 1:
                v, out = ws[0] >> 8, ""
                while v:
                    out = " _0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[v & 63] + out
                    v >>= 6
                return N("sym", out)
            return None
        if k == "bool":
            v = num(0, 1)
            return UNDEF if v is None else (TRUE if v else FALSE)
        if k == "adt" and t["ak"] == "enum":
            vs = t["v"]
            if n and all(_size(cr.types[x]) == 0 for v in vs for _, x in v["f"]):
                d = num(0, n)
                for i, v in enumerate(vs):
                    if (int(v["d"]) & ((1 << (8 * n)) - 1)) == d:
                        return variant(t["s"], i, [self.decode(cr, cr.types[x], "") for _, x in v["f"]])
            # a tag followed by at most one integer
            pay = [[cr.types[x] for _, x in v["f"] if _size(cr.types[x]) != 0] for v in vs]
            if all(len(x) <= 1 and all(y["k"] in ("int", "uint") for y in x) for x in pay):
                sz = max(x[0]["bits"] // 8 for x in pay if x) if any(pay) else 0
                if sz and (n == 2 * sz or n == sz + 16):
                    for i, v in enumerate(vs):
                        if int(v["d"]) & 255 == num(0, 1):
                            return variant(t["s"], i, [self.decode(cr, cr.types[x], hexs[2 * (n - sz):] if _size(cr.types[x]) != 0 else "") for _, x in v["f"]])
        def part(ft, lo):
            sz = _size(ft)
            return None if sz is None else self.decode(cr, ft, hexs[2 * lo:2 * (lo + sz)])

        fs = None
        if k == "tuple":
            fs = t["ts"]
        elif k == "adt" and t["ak"] == "struct":
            fs = [x for _, x in t["v"][0]["f"]]
        if fs is not None and "off" in t and len(t["off"]) == len(fs):
            xs = [part(cr.types[x], lo) for x, lo in zip(fs, t["off"])]
            if all(x is not None for x in xs):
                return agg(t["s"], None, tuple(xs)) if xs else UNIT
        if k in ("array", "slice"):
            et = cr.types[t["t"]]
            sz = _size(et)
            if sz and n % sz == 0 and n // sz <= 256:
                xs = [part(et, j * sz) for j in range(n // sz)]
                if all(x is not None for x in xs):
                    return N("vec", tuple(xs), ty=t["s"])
        return None

    def operand(self, fr, o):
        if "p" in o:
            return self.read(fr, o["p"])
        if "c" in o:
            return self.const(fr, o["c"])
        # runtime checks (ub checks, overflow checks, contract checks)
        return FALSE if "Overflow" not in o["rt"] else TRUE

    def opty(self, fr, o):
        cr = fr.fn.crate
        if "c" in o:
            return cr.types[o["c"]["ty"]]
        if "p" in o:
            l, pj = o["p"]
            t = cr.types[fr.fn.locals[l]]
            for e in pj:
                if e == "*":
                    t = cr.types[t["t"]] if "t" in t else {"k": "other", "s": "?"}
                elif e[0] == "f":
                    t = cr.types[e[2]]
                elif e[0] == "d":
                    pass
                else:
                    t = cr.types[t["t"]] if "t" in t else {"k": "other", "s": "?"}
            return t
        return {"k": "bool", "s": "bool"}

    def placety(self, fr, pl):
        return self.opty(fr, {"p": pl})

    def rvalue(self, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            kind, base, path = self.resolve(fr, r[1])
            if kind == "cell":
                return N("ref", base, tuple(path))
            return N("cref", self.getpath(base, path))
        if k == "cast":
            v = self.operand(fr, r[2])
            t = fr.fn.crate.types[r[3]]
            if r[1] == "IntToInt":
                v2 = self.deref(v)
                if v2.op == "bdd":
                    return mk_poly({(): v2.args[0]})
                if t["k"] in ("int", "uint"):
                    if v2.op == "enum" and not is_int(v2):
                        v2 = disc_of(v2)
                    src = self.opty(fr, r[2])
                    if src["k"] in ("int", "uint"):
                        if v2.op == "int":
                            return convert(v2, t["s"])
                        a, b = int_range(src["s"])
                        lo, hi = int_range(t["s"])
                        if lo <= a and b <= hi:
                            return v2
                        return convert(v2, t["s"])
                    return convert(v2, t["s"]) if is_int(v2) else v2
            return v
        if k in ("bin", "cbin"):
            a = self.operand(fr, r[2])
            b = self.operand(fr, r[3])
            ty = self.opty(fr, r[2])
            v = self.binop(r[1], a, b, ty)
            if k == "cbin":
                op = r[1]
                o = FALSE
                if ty["k"] == "uint" and op == "Sub":
                    o = B(lt(a, b))
                elif is_const(v):
                    lo, hi = int_range(ty["s"])
                    o = B(0 if lo <= v.args[0] <= hi else 1)
                return N("agg", "checked", None, (v, o))
            return v
        if k == "un":
            a = self.operand(fr, r[2])
            if r[1] == "Not":
                if a.op == "bdd" or a.ty == "bool":
                    return B(bnot(truth(a)))
                return N("bitnot", a, ty=a.ty)
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return vlen(self.deref(a))
            return N("un", r[1], a)
        if k == "disc":
            v = self.read(fr, r[1])
            return disc_of(v)
        if k == "agg":
            ops = [self.operand(fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return agg(dty["s"], None, tuple(ops)) if ops else UNIT
            if kk[0] == "array":
                return N("vec", tuple(ops), ty=dty["s"])
            if kk[0] == "adt":
                t = fr.fn.crate.types[kk[1]]
                if t["ak"] == "enum":
                    return variant(t["s"], kk[2], ops)
                return agg(t["s"], None, tuple(ops))
            if kk[0] == "closure":
                return N("agg", dty["s"], "closure", tuple(ops), ty=dty["s"])
            return N("agg", dty["s"], None, tuple(ops), ty=dty["s"])
        if k == "repeat":
            v = self.operand(fr, r[1])
            return N("repeat", v, ty=dty["s"])
        if k == "len":
            return vlen(self.read(fr, r[1]))
        return N("rv", r[1] if len(r) > 1 and isinstance(r[1], str) else k, ty=dty["s"])

    def binop(self, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.deref(a), self.deref(b)
            if a.op == "bdd" or b.op == "bdd":
                g = eq(a, b)
                if op == "Ne":
                    g = bnot(g)
                elif op != "Eq":
                    x, y = truth(a), truth(b)
                    g = {"Lt": band(bnot(x), y), "Gt": band(x, bnot(y)), "Le": bor(bnot(x), y), "Ge": bor(x, bnot(y))}[op]
                return B(g)
            if op == "Eq":
                return B(eq(a, b))
            if op == "Ne":
                return B(bnot(eq(a, b)))
            if op == "Lt":
                return B(lt(a, b))
            if op == "Le":
                return B(le(a, b))
            if op == "Gt":
                return B(lt(b, a))
            return B(le(b, a))
        if a.op == "bdd" or b.op == "bdd":
            x, y = truth(a), truth(b)
            if op == "BitAnd":
                return B(band(x, y))
            if op == "BitOr":
                return B(bor(x, y))
            if op == "BitXor":
                return B(dite(x, bnot(y), y))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "Div":
            self.require(bnot(int_eq(b, I(0))))
            return muldiv("floor" if ty["k"] == "uint" else "trunc", a, b)
        if op == "Rem":
            self.require(bnot(int_eq(b, I(0))))
            q = muldiv("floor" if ty["k"] == "uint" else "trunc", a, b)
            return sub(a, mul(b, q))
        if b.op == "int" and a.op != "int" and op in ("Shr", "ShrUnchecked") and 0 <= b.args[0] < 128:
            return muldiv("floor", a, I(1 << b.args[0]))
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            if op in ("Shl", "ShlUnchecked"):
                return convert(I(x << y), ty["s"])
            if op in ("Shr", "ShrUnchecked"):
                return I(x >> y)
            if op == "BitAnd":
                return I(x & y)
            if op == "BitOr":
                return I(x | y)
            if op == "BitXor":
                return I(x ^ y)
        if op == "BitAnd" and ty["k"] == "uint":
            if a.op == "int":
                a, b = b, a
            if b.op == "int" and b.args[0] > 0 and b.args[0] & (b.args[0] + 1) == 0:
                m = I(b.args[0] + 1)
                return sub(a, mul(m, muldiv("floor", a, m)))
        if op in ("Shl", "ShlUnchecked") and b.op == "int":
            return N("bin", "Shl", a, b, ty=ty["s"])
        return N("bin", op, a, b, ty=ty["s"])

    # ------------------------------------------------------------------ functions

    def call(self, fn, args):
        """analyse fn in this context; returns (pc_ret, value); self.state is the state after return"""
        if self.depth > MAXDEPTH:
            raise RuntimeError("call depth exceeded at " + fn.name)
        if fn.key in self.opaque:
            pc0 = self.pc
            r = self.opaque[fn.key](self, args)
            pc = self.pc
            if type(pc) is int and pc == 0:
                self.pc = pc0
                return 0, UNDEF
            return pc, r
        self.visited.add(fn.key)
        self.depth += 1
        self.chain.append(fn.tname)
        fr = Frame()
        fr.fn = fn
        fr.base = self.ncell + 1
        self.ncell += len(fn.locals) + 1
        hi = self.ncell
        lo = fr.base
        for i, v in enumerate(args):
            self.state[fr.base + 1 + i] = v
        saved_pc = self.pc
        estart = len(self.effects)
        lstart = len(self.loops)
        ex = self.region(fr, 0, self.state, None, None)
        rets = ex.get("ret", [])
        self.chain.pop()
        self.depth -= 1
        self.pc = saved_pc
        if not rets:
            del self.effects[estart:]
            del self.loops[lstart:]
            return 0, UNDEF
        pc, st = self.merge(rets)
        ret = st.get(fr.base, UNDEF)
        # drop the callee's frame and temporaries
        for c in [c for c in st if type(c) is int and c >= lo]:
            if c <= hi or not self._reachable(ret, c):
                del st[c]
        self.state = st
        g0 = saved_pc
        for e in self.effects[estart:]:
            e.guard = band(g0, band(e.guard, pc))
        for L in self.loops[lstart:]:
            L.reach = band(g0, band(L.reach, pc))
        self.pc = band(saved_pc, pc)
        return pc, ret

    def _reachable(self, v, c):
        return False

    def merge(self, edges):
        """edges: [(pc, state)] -> (pc, state)"""
        if len(edges) == 1:
            return edges[0]
        pcs = [e[0] for e in edges]
        total = 0
        for p in pcs:
            total = bor(total, p)
        # selection conditions, simplified by what is known at the join
        acc = edges[-1][1]
        care = edges[-1][0]
        out = dict(acc)
        for pc, st in reversed(edges[:-1]):
            care = bor(care, pc)
            c = drestrict(pc, care)
            for k in list(out.keys()):
                v = out[k]
                w = st.get(k)
                if w is None:
                    w = initial(k)
                if w is not v:
                    out[k] = ite(c, w, v)
            for k in st:
                if k not in out:
                    d = initial(k)
                    out[k] = st[k] if d is UNDEF else ite(c, st[k], d)
        return total, out

    def region(self, fr, entry, state, blocks, header):
        """analyse an acyclic region (loops inside are summarised).
        returns {'ret': [(pc,st)], 'back': [...], ('exit',b): [...]}"""
        fn = fr.fn
        loops = fn.loops()
        live = fn.live()
        addr = fn.addr_taken()
        nl = len(fn.locals)
        pend = {entry: [(1, state)]}
        out = {}
        for b in fn.rpo():
            if b not in pend:
                continue
            edges = pend.pop(b)
            edges = [e for e in edges if not (type(e[0]) is int and e[0] == 0)]
            if not edges:
                continue
            if len(edges) > 1:
                lv = live[b]
                nedges = []
                for pc_, st_ in edges:
                    nedges.append((pc_, {k: v for k, v in st_.items()
                                         if not (type(k) is int and fr.base <= k < fr.base + nl)
                                         or (k - fr.base) in lv or (k - fr.base) in addr or k == fr.base}))
                edges = nedges
            pc, st = self.merge(edges)
            self.pc = pc
            self.state = dict(st)
            if b in loops and b != header:
                res = self.loop(fr, b, loops[b])
                for key, lst in res.items():
                    for (p, s) in lst:
                        if key == "ret":
                            out.setdefault("ret", []).append((p, s))
                        else:
                            tgt = key[1]
                            self.edge(pend, out, tgt, p, s, blocks, header)
                continue
            self.nblocks += 1
            succs = self.block(fr, b)
            for tgt, p, s in succs:
                if tgt == "ret":
                    out.setdefault("ret", []).append((p, s))
                else:
                    self.edge(pend, out, tgt, p, s, blocks, header)
        return out

    def edge(self, pend, out, tgt, p, s, blocks, header):
        if tgt == header and header is not None:
            out.setdefault("back", []).append((p, s))
        elif blocks is not None and tgt not in blocks:
            out.setdefault(("exit", tgt), []).append((p, s))
        else:
            pend.setdefault(tgt, []).append((p, s))

    def block(self, fr, b):
        fn = fr.fn
        blk = fn.blocks[b]
        for st in blk["s"]:
            if st[0] == "=":
                dty = self.placety(fr, st[1])
                v = self.rvalue(fr, st[2], dty)
                self.write(fr, st[1], v)
            elif st[0] == "sd":
                v = self.read(fr, st[1])
                e = expand_enum(v)
                if e.op == "enum":
                    self.write(fr, st[1], enum(e.args[0], I(terms._disc_of(e.args[0], st[2])), e.args[2]))
        t = blk["t"]
        k = t[0]
        if type(self.pc) is int and self.pc == 0:
            return []
        if k == "goto":
            return [(t[1], self.pc, self.state)]
        if k == "ret":
            return [("ret", self.pc, self.state)]
        if k == "switch":
            d = self.operand(fr, t[1])
            res = []
            rest = 1
            dd = self.deref(d)
            ty = self.opty(fr, t[1])
            by = {}
            for val, tgt in t[2]:
                val = int(val)
                if dd.op == "bdd" or dd.ty == "bool":
                    g = truth(dd)
                    c = g if val else bnot(g)
                elif dd is UNDEF:
                    c = 0
                else:
                    if ty["k"] == "int" and val >> (ty["bits"] - 1):
                        # signed discriminants are written unsigned
                        val2 = val - (1 << ty["bits"])
                        c = bor(int_eq(dd, I(val2)), int_eq(dd, I(val)))
                    else:
                        c = int_eq(dd, I(val))
                c = band(c, rest)
                rest = band(rest, bnot(c))
                by[tgt] = bor(by.get(tgt, 0), c)
            by[t[3]] = bor(by.get(t[3], 0), rest)
            for tgt, c in by.items():
                p = band(self.pc, c)
                if type(p) is int and p == 0:
                    continue
                res.append((tgt, p, dict(self.state) if len(by) > 1 else self.state))
            return res
        if k == "assert":
            c = truth(self.operand(fr, t[1]))
            if not t[2]:
                c = bnot(c)
            msg = t[3]
            if msg == "BoundsCheck" or msg.startswith("Overflow") or msg.endswith("ByZero"):
                self.pc = band(self.pc, c)
            if type(self.pc) is int and self.pc == 0:
                return []
            return [(t[4], self.pc, self.state)]
        if k == "call":
            return self.callterm(fr, blk, t)
        return []

    def loc(self, fr, blk):
        f, l = blk.get("fl", ""), blk.get("l", 0)
        if f.startswith("/") or not f:
            f, l = fr.fn.file, None
            for st in blk["s"]:
                l = st[-1]
            if l is None or l == 0:
                l = fr.fn.line
        return "%s:%s" % (f, l)

    def callterm(self, fr, blk, t):
        callee, ops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, o) for o in ops]
        if fr.fn.local:
            self.curloc = self.loc(fr, blk)
        self.callsites += 1
        if target is None and callee.get("inst") not in self.crate.fns:
            return []  # panics
        dty = self.placety(fr, dest)
        c = Call(callee, ops, dty, fr, self)
        ret = self.docall(c, args)
        if ret is None or (type(self.pc) is int and self.pc == 0) or target is None:
            return []
        self.write(fr, dest, ret)
        return [(target, self.pc, self.state)]

    def docall(self, c, args):
        callee = c.callee
        h = lookup(c)
        if h is not None:
            return h(self, c, args)
        if callee.get("kind") == "dyn":
            f = self.deref(self.operand(c.fr, callee["op"])) if "op" in callee else UNDEF
            if f.op == "fnptr" and f.args[1] in self.crate.fns:
                return self.invoke(self.crate.fns[f.args[1]], args)
            return self.unknown_call(c, args)
        inst = callee.get("inst")
        fn = self.crate.fns.get(inst)
        if fn is None:
            return self.unknown_call(c, args)
        return self.apply(c, fn, args)

    def apply(self, c, fn, args):
        callee = c.callee
        if callee.get("closure"):
            return self.invoke_closure(fn, args)
        if fn.spread is not None:
            # rust-call ABI body: the last argument is a tuple
            pass
        if fn.argc == 0 and fn.name.startswith("core::") and not fn.blocks:
            return self.unknown_call(c, args)
        return self.invoke(fn, args)

    def invoke_closure(self, fn, args):
        """args = [env, (tuple of args)]"""
        env = args[0]
        rest = []
        if len(args) > 1 and fn.argc != len(args) or (len(args) == 2 and fn.spread is None):
            tup = args[1]
            nargs = fn.argc - 1
            for i in range(nargs):
                rest.append(fld(tup, i, self.crate.tn(fn.locals[2 + i])))
        else:
            rest = args[1:]
        et = self.crate.types[fn.locals[1]]
        if et["k"] == "ref":
            if env.op not in ("ref", "cref"):
                env = N("ref", self.newcell(env), ())
            # collapse & &closure
            while env.op == "ref" and self.readref(env).op in ("ref", "cref"):
                env = self.readref(env)
        else:
            env = self.deref(env)
        return self.invoke(fn, [env] + rest)

    def invoke(self, fn, args):
        pc, ret = self.call(fn, args)
        if type(pc) is int and pc == 0:
            self.pc = 0
            return None
        return ret

    def unknown_call(self, c, args):
        nm = c.callee.get("def", "dyn")
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        vals = tuple(self.deref(a) for a in args)
        if nm.startswith("soroban_") and not nm.startswith(PURE_SDK):
            if "invoke" in nm:
                self.effect("inv", ("?", vals[1] if len(vals) > 1 else UNDEF, nm, vals))
            else:
                self.effect("foreign", (nm,) + vals)
        for i, (o, a) in enumerate(zip(c.ops, args)):
            ty = self.opty(c.fr, o)
            if ty["k"] == "ref" and ty.get("mut") and a.op == "ref":
                old = vals[i]
                self.writeref(a, N("upd", nm, i, vals, ty=old.ty))
        if c.dty["k"] == "never":
            return None
        if c.dty["s"] == "()":
            return UNIT
        if c.dty["k"] == "bool":
            return B(lit(N("b", N("app", nm, vals, ty="bool"))))
        if c.dty["k"] == "ref":
            return N("cref", N("app", nm, vals, ty=self.crate.types[c.dty["t"]]["s"]))
        return N("app", nm, vals, ty=c.dty["s"])

    # ------------------------------------------------------------------ loops

    def loop(self, fr, h, body):
        fn = fr.fn
        entry_pc = self.pc
        entry_state = dict(self.state)
        # forget locals that are dead at the header
        lv = fn.live()[h]
        keep = set()
        refs = []
        for k, v in entry_state.items():
            if type(k) is int and fr.base <= k < fr.base + len(fn.locals):
                if (k - fr.base) in lv or k == fr.base and 0 in lv:
                    keep.add(k)
                    refs.append(v)
            else:
                keep.add(k)
                refs.append(v)
        seen = set()
        while refs:
            v = refs.pop()
            for c in _refcells(v, seen):
                if c not in keep and c in entry_state:
                    keep.add(c)
                    refs.append(entry_state[c])
        for k in list(entry_state):
            if k not in keep:
                del entry_state[k]
        self.loopdepth += 1
        ldepth = self.loopdepth
        ckey = (tuple(self.chain), fn.key, h)
        changed = self.changed_cache.get(ckey, {})
        # changed: (rel cell, path) -> True ; cells are stored relative to frame base when local
        saved_loops = len(self.loops)
        try:
            # ---- 1. find the changed leaves
            self.quiet += 1
            rnd = 0
            estart = len(self.effects)
            while True:
                rnd += 1
                if rnd > 40:
                    raise RuntimeError("loop does not stabilise in %s" % fn.name)
                mus = {}
                st = dict(entry_state)
                cur = {}
                for (ck, path) in changed:
                    cell = ck[1] + fr.base if ck[0] == "l" else ck[1]
                    if cell not in st:
                        d0 = initial(cell)
                        if d0 is UNDEF:
                            continue
                        entry_state[cell] = st[cell] = d0
                    v0 = self.getpath(st[cell], path)
                    m = N("mu", ldepth, ("tmp", len(mus)), UNIT, ty=v0.ty if not is_int(v0) else (v0.ty or "i128"))
                    if v0.op == "bdd":
                        m = B(lit(N("b", m)))
                    mus[(cell, path)] = (v0, m)
                    st[cell] = self.setpath(st[cell], path, m)
                start = dict(st)
                n0 = self.ncell
                self.pc = 1
                ex = self.region(fr, h, st, body, h)
                back = ex.get("back", [])
                if not back:
                    break
                bpc, bst = self.merge(back)
                new = False
                for cell in bst:
                    if cell not in start and initial(cell) is not UNDEF:
                        start[cell] = entry_state[cell] = initial(cell)
                for cell, v in start.items():
                    w = bst.get(cell, UNDEF)
                    if w is v:
                        continue
                    for path in diff(v, w, ()):
                        ck = ("l", cell - fr.base) if type(cell) is int and fr.base <= cell < fr.base + len(fn.locals) else ("g", cell)
                        # keep only maximal leaves
                        if (ck, path) not in changed:
                            v0 = self.getpath(start[cell], path)
                            if v0 is UNDEF and False:
                                continue
                            # an ancestor already tracked?
                            if any(c2 == ck and path[:len(p2)] == p2 for (c2, p2) in changed):
                                continue
                            for old in [o for o in changed if o[0] == ck and o[1][:len(path)] == path]:
                                del changed[old]
                            changed[(ck, path)] = True
                            new = True
                if not new:
                    break
            self.quiet -= 1
            stored = {k: True for k in changed if k[0][0] == "l" or not (type(k[0][1]) is int)}
            self.changed_cache[ckey] = stored
            if not back:
                # the body never repeats: treat as straight-line code
                self.pc = entry_pc
                st = dict(entry_state)
                es = len(self.effects)
                ex = self.region(fr, h, st, body, h)
                for e in self.effects[es:]:
                    e.guard = band(entry_pc, e.guard)
                out = {}
                for k, l in ex.items():
                    out[k] = [(band(entry_pc, p), s) for p, s in l]
                return out
            # ---- 2. classify
            steps = {}
            for key, (v0, m) in mus.items():
                cell, path = key
                steps[key] = self.getpath(bst.get(cell, UNDEF), path)
            induct = {}
            for key, (v0, m) in mus.items():
                s = steps[key]
                if is_int(m) and m.op == "mu" and is_int(s):
                    d = sub(s, m)
                    if d.op != "int" and len(to_poly(d)) == 1 and not any(mm for mm in to_poly(d)):
                        # advances whenever the body repeats
                        d = assume(d, bpc)
                    if d.op == "int":
                        induct[key] = d.args[0]
            drops = set()
            for key, (v0, m) in mus.items():
                s = steps[key]
                if isinstance(s, Node) and s.op == "ite" and len([k for k in ex if k != "back" and k[-1] not in fn.dead()]) == 1:
                    s = assume(s, bpc)      # as it is whenever the body repeats (and it only ends when the body cannot)
                if isinstance(s, Node) and s.op == "vpopf" and s.args[0] is m:
                    drops.add(key)
            iota0 = N("mu", ldepth, ("tmp", "iota"), UNIT, ty="u32")
            sub0 = {mus[key][1]: vdrop(mus[key][0], iota0) for key in drops}
            for key, dlt in induct.items():
                v0, m = mus[key]
                sub0[m] = add(v0, scale(iota0, dlt))
            S0 = Subst(sub0)
            # the trip count: an exit edge taken exactly when iota reaches a bound
            bound = None
            exits = [(k, p, s) for k, l in ex.items() if k != "back" for (p, s) in l]
            bidx = None
            for i, (k, p, s) in enumerate(exits):
                p2 = assume_guard(S0.guard(p), entry_pc)
                nb = self._bound(p2, iota0)
                if nb is not None:
                    bound, bidx = nb, i
                    break
            if bound is not None and bound.op == "int" and 0 <= bound.args[0] <= 8:
                out = self.unroll(fr, h, body, entry_pc, entry_state, bound.args[0])
                if out is not None:
                    return out
            if bound is None:
                sig = 0
                for i, (k, p, s) in enumerate(exits):
                    sig = bor(sig, S0.guard(p))
                bound = N("trip", ldepth, B(sig) if not (dfree(sig)) else N("exitcond", fn.tname.split("::")[-1], h), ty="u32")
            iota = N("iota", ldepth, bound, ty="u32")
            # ---- 3. canonical symbols and the reporting pass
            final = {}
            names = {}
            for key, (v0, m) in mus.items():
                if key in induct:
                    final[key] = add(v0, scale(iota, induct[key]))
                elif key in drops:
                    final[key] = vdrop(v0, iota)
                else:
                    tag = v0
                    n = names.get(tag, 0)
                    names[tag] = n + 1
                    if v0.op == "bdd":
                        final[key] = B(lit(N("b", N("mu", ldepth, bound, tag, n, ty="bool"))))
                    else:
                        final[key] = N("mu", ldepth, bound, tag, n, ty=v0.ty if v0.ty else ("i128" if is_int(v0) else steps[key].ty))
            st = dict(entry_state)
            for (cell, path), m in final.items():
                st[cell] = self.setpath(st[cell], path, m)
            self.pc = 1
            estart = len(self.effects)
            lstart = len(self.loops)
            ex = self.region(fr, h, st, body, h)
            bpc, bst = self.merge(ex["back"])
            steps = {key: self.getpath(bst.get(key[0], UNDEF), key[1]) for key in final}
            exits = [(k, p, s) for k, l in ex.items() if k != "back" for (p, s) in l]
            # ways out from which there is no return (a panic) are iterations that do not complete
            dead = fn.dead()
            kept = [i for i, (k, p, s) in enumerate(exits) if i == bidx or k[-1] not in dead]
            if kept:
                bidx = kept.index(bidx) if bidx is not None else None
                exits = [exits[i] for i in kept]
            comp = bpc
            for _, p, _ in exits:
                comp = bor(comp, p)
            inrange = lt(iota, bound) if bidx is not None else 1
            # effects of an iteration happen only if it completes
            L = Loop()
            L.depth, L.bound, L.iota = ldepth, bound, iota
            L.comp, L.fn, L.line = comp, fn.tname, fn.blocks[h]["l"]
            L.steps = {k: steps[k] for k in steps}
            L.inits = {k: mus[k][0] for k in mus}
            L.exits = len(exits)
            L.only = exits[0][1] if bidx is None and len(exits) == 1 else 1     # holds at the only way out
            L.entry_pc = entry_pc
            L.reach = entry_pc      # composed with what encloses it as calls and loops return
            L.back_pc = bpc
            # ---- 4. values after the loop
            L.mus = final
            post = {}
            for key, m in final.items():
                v0 = mus[key][0]
                s = steps[key]
                if key in drops:
                    post[key] = vdrop(v0, bound)
                    continue
                post[key] = self._post(key, v0, m, s, final, iota, bound, ldepth, induct, bpc, names)
            L.post = post
            if self.quiet == 0:
                self.loops.append(L)
            smap = {}
            for key, m in final.items():
                if key in induct or key in drops:
                    continue
                if m.op == "bdd":
                    pass
                else:
                    smap[m] = post[key]
            smap[iota] = bound
            bmap = {}
            for key, m in final.items():
                if m.op == "bdd" and key not in induct:
                    at_ = terms._vars[m.args[0].v]
                    bmap[at_.args[0]] = post[key]
            smap.update(bmap)
            SB = Subst(smap)
            # iteration-completion obligation
            compc = comp
            others = [(i, e) for i, e in enumerate(exits) if i != bidx]
            allg = 1
            okc = drestrict(comp, inrange) if type(inrange) is D else comp
            if not (type(okc) is int and okc == 1):
                allg = bnot(exists(ldepth, bound, iota, bnot(okc)))
            out = {}
            early = 0
            res = []
            for i, (k, p, s) in others:
                pe = drestrict(p, inrange) if type(inrange) is D else p
                if bidx is None and len(others) == 1:
                    # the only way out of the loop
                    g = 1
                else:
                    g = exists(ldepth, bound, iota, pe)
                g = band(g, bnot(early))
                early = bor(early, g)
                if bidx is None and len(others) == 1:
                    s2 = {c: SB(v) if isinstance(v, Node) else v for c, v in s.items()}
                else:
                    s2 = s
                    cs = bound_cases(bound) if bidx is not None and len(others) == 1 and type(pe) is D else None
                    if cs is not None and len(cs) == 1:
                        v1 = cs[0][1]
                        y = sought(v1, iota, assume_guard(pe, cs[0][0]))
                        if y is not None:
                            # the first element equal to y ends the search
                            mus_ = set(m for m in final.values() if m.op == "mu")
                            first = Subst({iota: N("indexof", v1, y, ty="u32")})
                            s2 = {c: first(v) if isinstance(v, Node) and iota in free(v) and not (free(v) & mus_) else v for c, v in s.items()}
                res.append((k, band(entry_pc, band(g, allg)), s2))
            if bidx is not None:
                k, p, s = exits[bidx]
                s2 = {c: (SB(v) if free(v) else v) for c, v in s.items()}
                res.append((k, band(entry_pc, band(bnot(early), allg)), s2))
            for k, p, s in res:
                out.setdefault(k, []).append((p, s))
            lp = (ldepth, bound, iota)
            for e in self.effects[estart:]:
                e.guard = band(entry_pc, bands(e.guard, comp, inrange))
                e.loops = (lp,) + e.loops
            for l in self.loops[lstart:]:
                if l is not L:
                    l.reach = band(entry_pc, bands(l.reach, comp, inrange))
            return out
        finally:
            self.loopdepth -= 1

    def unroll(self, fr, h, body, entry_pc, entry_state, n):
        """a loop of a small fixed number of iterations is straight-line code"""
        es, ls = len(self.effects), len(self.loops)
        cur, st, out = entry_pc, dict(entry_state), {}
        depth, self.loopdepth = self.loopdepth, self.loopdepth - 1
        try:
            for _ in range(n + 2):
                e0, l0 = len(self.effects), len(self.loops)
                self.pc = cur
                ex = self.region(fr, h, st, body, h)
                for e in self.effects[e0:]:
                    e.guard = band(cur, e.guard)
                for l in self.loops[l0:]:
                    l.reach = band(cur, l.reach)
                back = ex.pop("back", [])
                for k, lst in ex.items():
                    out.setdefault(k, []).extend((band(cur, p), s) for p, s in lst)
                back = [b for b in back if not (type(b[0]) is int and b[0] == 0)]
                if not back:
                    return out
                bp, st = self.merge(back)
                st = dict(st)
                cur = band(cur, bp)
                if type(cur) is int and cur == 0:
                    return out
            del self.effects[es:]
            del self.loops[ls:]
            return None
        finally:
            self.loopdepth = depth

    def _bound(self, p, iota):
        """p is exactly 'iota >= N' -> N"""
        if type(p) is not D:
            return None
        if iota not in free(terms._vars[p.v]):
            # a loop-invariant case split
            h = I(0) if type(p.h) is int and p.h == 1 else self._bound(p.h, iota)
            l = I(0) if type(p.l) is int and p.l == 1 else self._bound(p.l, iota)
            if h is None or l is None:
                return None
            return ite(mkD(p.v, 1, 0), h, l)
        # pattern: single literal lt(q,k) negative/positive
        if not (type(p.h) is int and type(p.l) is int):
            return None
        a = terms._vars[p.v]
        if a.op != "lt":
            if a.op == "has" or a.op == "is":
                return None
            return None
        q, k = a.args
        pq = to_poly(q)
        mi = ((iota, 1),)
        if mi not in pq or type(pq[mi]) is not int or abs(pq[mi]) != 1:
            return None
        rest = dict(pq)
        ci = rest.pop(mi)
        if any(iota in free(x) for m in rest for x, _ in m):
            return None
        r = mk_poly(rest)
        if ci == 1 and p.h == 0:
            # exit iff not (iota + r < k) i.e. iota >= k - r
            return sub(I(k), r)
        if ci == -1 and p.h == 1:
            # exit iff r - iota < k  i.e. iota > r - k i.e. iota >= r-k+1
            return add(sub(r, I(k)), I(1))
        return None

    def _post(self, key, v0, m, s, final, iota, bound, depth, induct, bpc, names):
        if key in induct:
            return add(v0, scale(bound, induct[key]))
        mine = set(x for k, x in final.items() if x.op == "mu")
        mine |= set(terms._vars[x.args[0].v].args[0] for k, x in final.items() if x.op == "bdd" and type(x.args[0]) is D)
        if is_int(m) and is_int(s):
            d = sub(s, m)
            if not (free(d) & mine):
                return add(v0, mk_sum(depth, bound, iota, d))
        if s is m:
            return v0
        if s.op == "vpush" and s.args[0] is m and v0.op == "vec" and not v0.args[0] and not (free(s.args[1]) & mine):
            return N("vtab", depth, bound, iota, s.args[1], ty=v0.ty)
        # last-writer / flag form: ite(c, v, mu) with c, v independent of the loop-carried state
        if m.op == "bdd":
            g = s.args[0] if s.op == "bdd" else truth(s)
            at_ = m.args[0]
            hi = drestrict(g, at_)
            lo = drestrict(g, bnot(at_))
            if type(hi) is int and hi == 1 and not (dfree(lo) & mine):
                # stays true once true
                return B(bor(truth(v0), exists(depth, bound, iota, lo)))
            if type(lo) is int and lo == 0 and not (dfree(hi) & mine):
                return B(band(truth(v0), bnot(exists(depth, bound, iota, bnot(hi)))))
            return B(lit(N("b", N("fold", depth, bound, v0, s, ty="bool"))))
        return N("fold", depth, bound, v0, s, m, ty=m.ty)


def bound_cases(bound):
    """a bound that is, case by case, nothing or the length of a vector: [(guard, vector)]"""
    if bound.op == "len":
        return [(1, bound.args[0])]
    try:
        d = split(bound)
    except TooBig:
        return None
    if type(d) is not D:
        return None
    out = []

    def go(f, g):
        if type(f) is D:
            v = mkD(f.v, 1, 0)
            return go(f.h, band(g, v)) and go(f.l, band(g, bnot(v)))
        if f.op == "len":
            out.append((g, f.args[0]))
            return True
        return f.op == "int" and f.args[0] == 0
    return out if len(dterms(d)) <= 3 and go(d, 1) and out else None


def exists(depth, bound, iota, g):
    """some step before the bound satisfies g"""
    if type(g) is not D:
        return lt(I(0), bound) if g else 0
    cs = bound_cases(bound)
    if cs is not None:
        r = 0
        for when, v in cs:
            m = member(v, iota, assume_guard(g, when))
            if m is None:
                break
            r = bor(r, band(when, m))
        else:
            return r
    return lit(N("ex", depth, bound, B(g)))


def sought(v, iota, g):
    """y when g is exactly 'element number iota of v equals y'"""
    if g.h == 1 and g.l == 0 and terms._vars[g.v].op == "eq":
        a = terms._vars[g.v].args
        for x, y in (a, a[::-1]):
            if x.op == "at" and x.args[0] is v and x.args[1] is iota and iota not in free(y):
                return y
    return None


def member(v, iota, g):
    """a search for an element equal to a fixed value, as membership"""
    def is_el(x):
        return x.op == "at" and x.args[0] is v and x.args[1] is iota
    cands = []
    for i in sorted(dvars(g)):
        a = terms._vars[i]
        if iota not in free(a):
            continue
        if a.op == "eq":
            cands += [(x, y) for x, y in (a.args, a.args[::-1]) if is_el(x)]
        elif a.op == "lt":
            q, k = a.args
            for m, c in to_poly(q).items():
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and is_el(m[0][0]):
                    x = m[0][0]
                    for j in (k, k - 1):
                        cands.append((x, sub(x, scale(sub(q, I(j)), c))))
    for x, y in cands[:6]:
        if iota in free(y):
            continue
        e = eq(x, y)
        h, l = drestrict(g, e), drestrict(g, bnot(e))
        if iota not in dfree(h) and iota not in dfree(l) and implies(l, h):
            return bor(band(contains(v, y), h), band(l, lt(I(0), vlen(v))))
    return None


def mk_sum(depth, bound, iota, d):
    """sum over iota of d; linear"""
    if d.op == "int":
        return scale(bound, d.args[0])
    pp = to_poly(d)
    r = I(0)
    rest = {}
    for mm, c in pp.items():
        if type(c) is int and not any(iota in free(a) for a, _ in mm):
            r = add(r, mul(mk_poly({mm: c}), bound))
        else:
            rest[mm] = c
    if rest:
        body = mk_poly(rest)
        r = add(r, N("sum", depth, bound, body, ty="i128"))
    return r


class Frame:
    __slots__ = ("fn", "base")


class Call:
    __slots__ = ("callee", "ops", "dty", "fr", "ip")

    def __init__(self, callee, ops, dty, fr, ip):
        self.callee, self.ops, self.dty, self.fr, self.ip = callee, ops, dty, fr, ip

    @property
    def name(self):
        return self.callee.get("def", "")

    @property
    def rname(self):
        return self.callee.get("rname", "")

    def targ(self, i):
        return self.fr.fn.crate.tn(self.callee["targs"][i])

    def targs(self):
        return [self.fr.fn.crate.tn(x) for x in self.callee.get("targs", [])]

    def some_ty(self):
        e = terms._ENUMS.get(self.dty["s"])
        return e[1][2][0][1] if e else None


def _refcells(v, seen):
    out = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, Node):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ref":
                out.append(x.args[0])
            else:
                st.extend(x.args)
        elif type(x) is tuple:
            st.extend(x)
        elif type(x) is D:
            for t in dterms(x):
                if isinstance(t, Node):
                    st.append(t)
    return out


def diff(v, w, path):
    """leaf paths where two values differ"""
    if v is w:
        return
    if v is UNDEF:
        yield path
        return
    if v.op == "agg" and w.op == "agg" and len(v.args[2]) == len(w.args[2]) and v.args[0] == w.args[0]:
        fs = terms._STRUCT_FIELDS.get(v.ty)
        for i, (x, y) in enumerate(zip(v.args[2], w.args[2])):
            if x is not y:
                yield from diff(x, y, path + (("f", i, fs[i][1] if fs else None),))
        return
    if (v.op == "agg" or w.op == "agg") and terms._STRUCT_FIELDS.get(v.ty) is not None and v.ty == w.ty:
        fs = terms._STRUCT_FIELDS[v.ty]
        for i in range(len(fs)):
            x, y = fld(v, i), fld(w, i)
            if x is not y:
                yield from diff(x, y, path + (("f", i, fs[i][1]),))
        return
    yield path
