"""Check context: obligations, violations, evidence, and the vocabulary rules are written in."""
import json, os, sys, time
import terms
from terms import *
from mir import Crate
from interp import Interp
import extract as _x

PROPS = {}


def prop(pid, crates, opaque=None):
    """opaque(model, crate name) -> {function key: handler} for functions another property decides on their own"""
    def deco(f):
        f.opaque = opaque
        PROPS[pid] = (f, crates)
        return f
    return deco


class Stop(Exception):
    """the rule cannot continue (already reported)"""


class Model:
    def __init__(self, dump):
        self.dump = dump
        self.crates = {}
        self.sums = {}
        self.ips = {}
        self.opaque = None
        self._op = {}

    def crate(self, name):
        c = self.crates.get(name)
        if c is None:
            c = self.crates[name] = Crate(name, os.path.join(self.dump, name + ".json"))
        return c

    def entries(self, crate):
        return self.crate(crate).entries()

    def S(self, crate, entry):
        k = (crate, entry)
        if k not in self.sums:
            C = self.crate(crate)
            f = C.entries().get(entry)
            if f is None:
                self.sums[k] = None
            else:
                ip = Interp(C)
                if self.opaque:
                    if crate not in self._op:
                        self._op[crate] = self.opaque(self, crate)
                    ip.opaque = self._op[crate]
                s = ip.run(f)
                s.crate, s.entry = crate, entry
                s.unknown = ip.unknown
                s.nblocks, s.ncalls = ip.nblocks, ip.callsites
                self.sums[k] = s
                self.ips[k] = ip
        return self.sums[k]


class Ctx:
    def __init__(self, pid, model, verbose=False):
        self.pid, self.M = pid, model
        self.oblig = 0
        self.bad = []
        self.samples = []
        self.rules = {}
        self.entries = {}
        self.effects = 0
        self.sites = set()
        self.verbose = verbose
        self.assumptions = []

    # ------------------------------------------------------------- reporting
    def ok(self, cond, rule, where, msg, key=None):
        """one obligation.  where: Summary | Effect | str"""
        self.oblig += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        w = self.where(where)
        if w:
            self.sites.add(w)
        if len(self.samples) < 12 and self.rules[rule] == 1:
            self.samples.append({"rule": rule, "at": w, "obligation": msg[:300], "held": bool(cond)})
        if not cond:
            self.bad.append({"key": key or (rule + "|" + self.anchor(where)), "rule": rule, "at": w, "msg": msg})
        return bool(cond)

    def fail(self, rule, where, msg, key=None):
        self.ok(False, rule, where, msg, key)

    def anchor(self, w):
        if w is None:
            return "-"
        if isinstance(w, str):
            return w
        if hasattr(w, "entry"):
            return w.crate + "::" + w.entry
        if hasattr(w, "kind"):
            return "%s:%s" % (w.kind, w.chain[-1] if w.chain else "?")
        return str(w)

    def where(self, w):
        if w is None:
            return ""
        if isinstance(w, str):
            return w
        if hasattr(w, "entry"):
            return "%s::%s (%s)" % (w.crate, w.entry, floc(w.fn))
        if hasattr(w, "kind"):
            return "%s [%s]" % (w.loc, " > ".join(short(c) for c in w.chain))
        return str(w)

    # ------------------------------------------------------------- summaries
    def S(self, crate, entry):
        s = self.M.S(crate, entry)
        if s is None:
            self.fail("anchor", "%s::%s" % (crate, entry), "exported entry point is missing")
            raise Stop()
        if (crate, entry) not in self.entries:
            self.entries[(crate, entry)] = True
            self.effects += len(s.effects)
            # an analysis gap is never silent
            for e in s.effects:
                if e.kind.startswith("note:"):
                    self.fail("analysis-gap", e, "the analysis lost a write here: " + e.kind)
        return s

    def all(self, crate, but=()):
        es = self.M.entries(crate)
        return {n: self.S(crate, n) for n in sorted(es) if n not in but}


def short(n):
    return n.split("<")[0].split("::")[-1] if isinstance(n, str) else str(n)


def floc(fn):
    return "%s:%s" % (getattr(fn, "file", "?"), getattr(fn, "line", "?"))


# ----------------------------------------------------------------- vocabulary

TT = UNIT


def arg(s, i):
    """i-th contract argument (0 = first after Env)"""
    return s.args[i + 1]


def effs(s, kind, **kw):
    """effects of a kind; keyword filters: cls, dur, method, topic, guard-satisfiable only"""
    out = []
    for e in s.effects:
        if e.kind != kind:
            continue
        if type(e.guard) is int and e.guard == 0:
            continue
        if not sat(e.guard):
            continue
        if "cls" in kw and e.data[1] != kw["cls"]:
            continue
        if "dur" in kw and e.data[0] != kw["dur"]:
            continue
        if "method" in kw and e.data[2] != kw["method"]:
            continue
        if "topic" in kw and topic(e) != kw["topic"]:
            continue
        out.append(e)
    return out


def topic(e):
    t = e.data[0]
    if t.op == "agg" and t.args[2] and t.args[2][0].op == "sym":
        return t.args[2][0].args[0]
    return None


def base(dur, cls, s=None):
    """the storage map of a key class at entry"""
    return N("map0", dur, cls)


def final(s, dur, cls):
    return s.state.get(("st", dur, cls), N("map0", dur, cls))


def get(dur, cls, key, ty):
    return sel(N("map0", dur, cls), key, ty)


_units = {}


def settle_care(care):
    """(rewriter, rest): the facts a guard implies outright, as a rewriter, and the guard rewritten by it"""
    r = _units.get(care)
    if r is None:
        u = 1
        for v in dvars(care):
            p = mkD(v, 1, 0)
            if implies(care, p):
                u = band(u, p)
            elif implies(care, bnot(p)):
                u = band(u, bnot(p))
        r = (None, care)
        if type(u) is D:
            U = terms.Assume(u)
            r = (U, U.guard(care))
        _units[care] = r
    return r


def _split_var(a, b, care):
    """a condition buried inside an argument of a or b that care leaves open"""
    seen, todo = set(), [a, b]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Node):
            todo += list(x.args)
        elif type(x) is tuple:
            todo += list(x)
        elif type(x) is D:
            for v in dvars(x):
                p = mkD(v, 1, 0)
                if sat(band(care, p)) and sat(band(care, bnot(p))):
                    return v
            todo += [t for t in dterms(x) if isinstance(t, Node)]
    return None


def _opaque_in(t):
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Node):
            if x.op == "emis":
                out[x] = True
                continue
            if x.op in ("fold", "mu"):
                continue
            todo += list(x.args)
        elif type(x) is tuple:
            todo += list(x)
        elif type(x) is D:
            todo += [terms._vars[v] for v in dvars(x)] + [t for t in dterms(x) if isinstance(t, Node)]
    return list(out)


def _congruent(a, b, care):
    """opaque applications in a and b whose arguments agree under care are equal"""
    xa, xb = _opaque_in(a), _opaque_in(b)
    m = {}
    for x in xa:
        if x in xb:
            continue
        for y in xb:
            if y in xa or len(x.args) != len(y.args) or x.args[0] != y.args[0]:
                continue
            if all(u is v or isinstance(u, Node) and isinstance(v, Node) and _same_args(u, v, care) for u, v in zip(x.args[1:], y.args[1:])):
                m[x] = y
                break
    return Subst(m) if m else None


def _same_args(u, v, care):
    if same(u, v, care, 0):
        return True
    S = _congruent(u, v, care)
    return S is not None and same(S(u), v, care, 0)


def same(a, b, care=1, fuel=3):
    """a and b denote the same value wherever care holds"""
    if a is b:
        return True
    if type(care) is int and care == 0:
        return True
    if type(care) is D:
        a2, b2 = assume(a, care), assume(b, care)
        if a2 is b2:
            return True
        a, b = a2, b2
    if a.op == "agg" and b.op == "agg" and a.ty == b.ty and len(a.args[2]) == len(b.args[2]):
        return all(same(x, y, care, fuel) for x, y in zip(a.args[2], b.args[2]))
    try:
        e = eq(a, b)
    except Exception:
        return False
    if implies(care, e):
        return True
    V = set(dvars(care)) if type(care) is D else set()
    if type(e) is D:
        V |= set(dvars(e))
    z = Absorb(V)
    if z.qs:
        a2, b2 = z(a), z(b)
        if a2 is b2:
            return True
        if a2 is not a or b2 is not b:
            a, b = assume(a2, care), assume(b2, care)
            try:
                e = eq(a, b)
            except Exception:
                return False
            if implies(care, e):
                return True
    if type(care) is D:
        U, c2 = settle_care(care)
        if U is not None:
            a2, b2 = U(a), U(b)
            if (c2 is not care or a2 is not a or b2 is not b) and same(a2, b2, c2, 0):
                return True
    if type(care) is D and fuel > 0:
        S = _congruent(a, b, care)
        if S is not None and same(S(a), b, care, 0):
            return True
        v = _split_var(a, b, care)
        if v is not None:
            p = mkD(v, 1, 0)
            return same(a, b, band(care, p), fuel - 1) and same(a, b, band(care, bnot(p)), fuel - 1)
    if os.environ.get("SA_NOPIN"):
        return False
    if terms._limit[0] < 1 << 62:
        return _same_pinned(a, b, care, e, 2, [int(os.environ.get("FUEL","24"))])
    terms._limit[0] = len(terms._and) + 6000000
    try:
        return _same_pinned(a, b, care, e, 2, [int(os.environ.get("FUEL","24"))])
    except terms.Blowup:
        return False
    finally:
        terms._limit[0] = 1 << 62


class Absorb(Rewriter):
    """a product vanishes where one of its factors is 0: push that into the coefficients"""

    def __init__(self, V):
        super().__init__()
        self.qs = {}
        for v in V:
            a = terms._vars[v]
            if a.op == "lt" and a.args[1] in (0, 1):
                q = a.args[0]
                z = eq(q, I(0))
                if type(z) is D:
                    self.qs[q] = z

    def skip(self, n):
        return not (n.op in ("poly", "muldiv", "ite", "agg", "enum", "store", "vec") or n.ty in INT_TYS)

    def zero_of(self, p, memo={}):
        """guard under which the ungated polynomial p is visibly 0"""
        pp = to_poly(p)
        if not pp:
            return 1
        r = 0
        for q, z in self.qs.items():
            if q.op != "poly":
                if all(any(a is q for a, e in m) for m in pp):
                    r = bor(r, z)
            else:
                pq = to_poly(q)
                if len(pq) > len(pp) or any(type(c) is D for c in pq.values()):
                    continue
                # p = c * x * q for a monomial x ?
                m0 = max(pq, key=len)
                for m in pp:
                    md = _mono_div(m, m0)
                    if md is None or type(pp[m]) is not int or pp[m] % pq[m0]:
                        continue
                    if mul(mk_poly({md: pp[m] // pq[m0]}), q) is mk_poly(pp):
                        r = bor(r, z)
                        break
        for m in pp:
            pass
        if len(pp) == 1:
            (m,) = pp
            for a, e in m:
                if a.op == "muldiv":
                    r = bor(r, self.zero_of(a.args[1]))
        return r

    def rebuild(self, n):
        if n.op == "poly" or n.op == "muldiv" or (is_int(n) and n in self.qs):
            pp = to_poly(n)
            out = {}
            ch = False
            for m, c in pp.items():
                if m:
                    z = self.zero_of(mk_poly({m: 1}))
                    if not (type(z) is int and z == 0):
                        c2 = dite(z, 0, c)
                        if c2 is not c:
                            ch = True
                        c = c2
                out[m] = c
            return mk_poly(out) if ch else n
        if n.op in ("agg", "enum", "ite", "store", "vec"):
            return super().rebuild(n)
        return n


def _mono_div(m, d):
    r = dict(m)
    for a, e in d:
        if r.get(a, 0) < e:
            return None
        r[a] -= e
        if not r[a]:
            del r[a]
    return tuple((a, r[a]) for a, e in m if a in r)


def _pins(bad):
    """(guard, atom, value): regions of `bad` where some quantity is pinned to a value"""
    lts = {}
    for v in dvars(bad):
        a = terms._vars[v]
        if a.op == "lt":
            lts.setdefault(a.args[0], set()).add(a.args[1])
        elif a.op == "eq":
            x, y = a.args
            if x.op not in ("arg", "self"):
                x, y = y, x
            if x.op in ("arg", "self"):
                yield lit(a), x, y
    for q, ks in lts.items():
        cand = ks | {k - 1 for k in ks}
        for k in sorted(cand):
            g = band(lt_const(q, k + 1), bnot(lt_const(q, k)))
            if not sat(band(bad, g)):
                continue
            poly = to_poly(q)
            for m, c in poly.items():
                if len(m) == 1 and m[0][1] == 1 and type(c) is int and abs(c) == 1:
                    x = m[0][0]
                    rest = sub(q, scale(x, c))
                    if x in free_atoms(rest):
                        continue
                    yield g, x, scale(sub(I(k), rest), c)
                    break


def free_atoms(p):
    r, todo, seen = set(), [p], set()
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, Node):
            r.add(n)
            if n.op == "poly":
                for m, c in n.args[0]:
                    todo += [a for a, _ in m]
            else:
                todo += list(n.args)
        elif type(n) is tuple:
            todo += list(n)
    return r


def _same_pinned(a, b, care, e, depth, fuel):
    bad = band(care, bnot(e))
    if depth == 0:
        return False
    # what is pinned everywhere first
    for g, x, v in sorted(_pins(bad), key=lambda p: not implies(bad, p[0])):
        r = band(bad, g)
        if not sat(r):
            continue
        fuel[0] -= 1
        if fuel[0] < 0:
            return False
        S = Subst({x: v})
        a2, b2, r2 = S(a), S(b), S.guard(r)
        if a2 is b2 or not sat(r2):
            bad = band(bad, bnot(g))
            continue
        try:
            e2 = eq(a2, b2)
        except ArithmeticError:
            continue
        if implies(r2, e2) or _same_pinned(assume(a2, r2) if type(r2) is D else a2, assume(b2, r2) if type(r2) is D else b2, r2, e2, depth - 1, fuel):
            bad = band(bad, bnot(g))
    return not sat(bad)


def storage_keys(s):
    """(dur, cls) touched by a write or delete"""
    r = set()
    for e in s.effects:
        if e.kind in ("write", "del") and sat(e.guard):
            r.add((e.data[0], e.data[1]))
    return r


def holds(s, cond):
    """every successful execution satisfies cond"""
    return implies(s.commit, cond)


def txt(x, d=7):
    return (showd(x, d) if type(x) in (D, int) else show(x, d))[:400]


# ----------------------------------------------------------------- running a property

def load_known(pid):
    p = os.path.join(_x.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    r = {}
    for f in json.load(open(p)):
        if f.get("property") == pid and f.get("status", "open") == "open":
            r[f["key"]] = f
    return r


def run(pid, verbose=False):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    dump = _x.extract(verbose)
    import rules.load  # noqa
    fn, crates = PROPS[pid]
    ctx = Ctx(pid, Model(dump), verbose)
    try:
        for cr in crates:
            ctx.M.crate(cr)
        ctx.M.opaque = fn.opaque
        fn(ctx)
    except Stop:
        pass
    except Exception as ex:     # fail closed: a program this analysis cannot follow is not shown to be right
        import traceback
        traceback.print_exc()
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        ctx.fail("analysis-gap", "%s:%s" % (os.path.basename(tb.filename), tb.name), "the analysis failed: %r" % ex)
    known = load_known(pid)
    seen = {}
    for b in ctx.bad:
        seen.setdefault(b["key"], b)
    fresh = [b for k, b in seen.items() if k not in known]
    old = [b for k, b in seen.items() if k in known]
    unknown = {}
    for s in ctx.M.sums.values():
        if s is not None:
            for k, v in s.unknown.items():
                unknown[k] = unknown.get(k, 0) + (v if isinstance(v, int) else 1)
    nb = sum(s.nblocks for s in ctx.M.sums.values() if s is not None)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static: whole-program abstract interpretation (gated value numbering over the compiler's "
                           "monomorphised MIR) of the entry points below; every obligation compares a summary "
                           "(commit condition, guarded effects, final storage terms) with the rule.",
            "entry_points": sorted("%s::%s" % k for k in ctx.entries),
            "mir_blocks_interpreted": nb,
            "effects_analysed": ctx.effects,
            "obligations": ctx.oblig,
            "discharged": ctx.oblig - len(ctx.bad),
            "rules": ctx.rules,
            "sites": sorted(ctx.sites)[:80],
            "samples": ctx.samples,
            "opaque_callees": sorted(unknown),
        },
        "assumptions": ctx.assumptions + [
            "soroban host and SDK primitives behave as modelled in sa/prims.py",
            "token, oracle and Comet contracts are external; what they do inside a call is not analysed",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(_x.VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(_x.VERIF, "evidence", pid + ".json")
    for b in fresh + old:
        tag = "KNOWN" if b in old else "BROKEN"
        print("%s rule=%s at %s\n    %s" % (tag, b["rule"], b["at"], b["msg"][:1500]))
    for b in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[b["key"]]["what"]))
    rc = 0
    if fresh:
        rp = os.path.join(_x.VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for b in fresh:
                f.write("rule %s\nat   %s\nkey  %s\n%s\n\n" % (b["rule"], b["at"], b["key"], b["msg"]))
        ev["coverage"]["violation_report"] = [
            {k: b[k] for k in ("rule", "at", "msg")} for b in fresh][:20]
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    if ctx.oblig == 0:
        print("no obligation was generated", file=sys.stderr)
        rc = rc or 2
    json.dump(ev, open(ep, "w"), indent=1)
    print("%s: %d obligations over %d entry points, %d broken, %.1fs" % (
        pid, ctx.oblig, len(ctx.entries), len(seen), time.time() - t0))
    return rc
