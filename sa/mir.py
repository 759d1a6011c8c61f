"""Loader for the MIR dumps written by the compiler driver: types, bodies, CFG facts."""
import json
import re
import terms


class Fn:
    __slots__ = ("key", "name", "tname", "krate", "local", "argc", "spread", "file", "line", "locals", "dbg",
                 "blocks", "_succ", "_pred", "_rpo", "_loops", "_live", "crate", "_addr", "_dead")

    def __init__(self, key, d, crate):
        self.key = key
        self.crate = crate
        self.name = d["name"]
        self.tname = d["tname"]
        self.krate = d["krate"]
        self.local = d["local"]
        self.argc = d["argc"]
        self.spread = d.get("spread")
        self.file = d["file"]
        self.line = d["line"]
        self.locals = d["locals"]
        self.dbg = d["dbg"]
        self.blocks = d["blocks"]
        self._succ = self._pred = self._rpo = self._loops = self._live = self._addr = self._dead = None

    def succ(self):
        if self._succ is None:
            s = []
            for b in self.blocks:
                t = b["t"]
                k = t[0]
                if k == "goto":
                    s.append([t[1]])
                elif k == "switch":
                    l = [x[1] for x in t[2]]
                    l.append(t[3])
                    s.append(list(dict.fromkeys(l)))
                elif k == "call":
                    s.append([] if t[4] is None else [t[4]])
                elif k == "assert":
                    s.append([t[4]])
                else:
                    s.append([])
            self._succ = s
            p = [[] for _ in s]
            for i, l in enumerate(s):
                for j in l:
                    p[j].append(i)
            self._pred = p
        return self._succ

    def dead(self):
        """blocks from which the function cannot return"""
        if self._dead is None:
            live = {i for i, b in enumerate(self.blocks) if b["t"][0] == "ret"}
            todo = list(live)
            while todo:
                for p in self.pred()[todo.pop()]:
                    if p not in live:
                        live.add(p)
                        todo.append(p)
            self._dead = set(range(len(self.blocks))) - live
        return self._dead

    def pred(self):
        self.succ()
        return self._pred

    def rpo(self):
        if self._rpo is None:
            succ = self.succ()
            seen = {0}
            out = []
            st = [(0, iter(succ[0]))]
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        st.append((m, iter(succ[m])))
                        break
                else:
                    out.append(n)
                    st.pop()
            self._rpo = out[::-1]
        return self._rpo

    def loops(self):
        """header -> set of blocks (natural loops; merged per header)"""
        if self._loops is None:
            rpo = self.rpo()
            num = {b: i for i, b in enumerate(rpo)}
            pred = self.pred()
            idom = {0: 0}
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    new = None
                    for p in pred[b]:
                        if p in idom and p in num:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]:
                                        x = idom[x]
                                    while num[y] > num[x]:
                                        y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        changed = True

            def dom(a, b):
                while True:
                    if a == b:
                        return True
                    if b == 0:
                        return False
                    b = idom[b]

            loops = {}
            for b in rpo:
                for s in self.succ()[b]:
                    if dom(s, b):
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(p for p in pred[x] if p in num)
                    elif num[s] <= num[b]:
                        raise RuntimeError("irreducible control flow in " + self.name)
            self._loops = loops
        return self._loops

    def addr_taken(self):
        """locals whose address is taken somewhere in the body"""
        if self._addr is None:
            s = set()
            for b in self.blocks:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "ref":
                        pl = st[2][1]
                        if "*" not in pl[1]:
                            s.add(pl[0])
            self._addr = s
        return self._addr

    def live(self):
        """live-in sets of locals per block (address-taken uses are approximated by the ref itself)"""
        if self._live is None:
            use, kill = [], []
            for b in self.blocks:
                u, k = set(), set()

                def useop(o):
                    if "p" in o:
                        usepl(o["p"])

                def usepl(p):
                    if p[0] not in k:
                        u.add(p[0])
                    for e in p[1]:
                        if isinstance(e, list) and e[0] == "i" and e[1] not in k:
                            u.add(e[1])

                def defpl(p):
                    if not p[1]:
                        k.add(p[0])
                    else:
                        usepl(p)

                for st in b["s"]:
                    if st[0] == "=":
                        r = st[2]
                        t = r[0]
                        if t == "use":
                            useop(r[1])
                        elif t in ("ref", "len", "disc"):
                            usepl(r[1])
                        elif t == "cast":
                            useop(r[2])
                        elif t in ("bin", "cbin"):
                            useop(r[2])
                            useop(r[3])
                        elif t == "un":
                            useop(r[2])
                        elif t == "agg":
                            for o in r[2]:
                                useop(o)
                        elif t == "repeat":
                            useop(r[1])
                        defpl(st[1])
                    elif st[0] == "sd":
                        usepl(st[1])
                t = b["t"]
                if t[0] == "switch":
                    useop(t[1])
                elif t[0] == "assert":
                    useop(t[1])
                elif t[0] == "call":
                    for o in t[2]:
                        useop(o)
                    if isinstance(t[1].get("op"), dict):
                        useop(t[1]["op"])
                    defpl(t[3])
                elif t[0] == "ret":
                    if 0 not in k:
                        u.add(0)
                use.append(u)
                kill.append(k)
            live = [set(u) for u in use]
            succ = self.succ()
            ch = True
            order = self.rpo()[::-1]
            while ch:
                ch = False
                for b in order:
                    n = set(use[b])
                    for s in succ[b]:
                        n |= live[s] - kill[b]
                    if n != live[b]:
                        live[b] = n
                        ch = True
            self._live = live
        return self._live


class Crate:
    def __init__(self, name, path):
        d = json.load(open(path))
        self.name = name
        self.types = d["types"]
        self.fns = {k: Fn(k, f, self) for k, f in d["fns"].items()}
        self.roots = d["roots"]
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)
        self._load_types()

    def tn(self, i):
        return self.types[i]["s"]

    def _load_types(self):
        T = self.types
        for t in T:
            k = t["k"]
            if k == "tuple":
                terms._STRUCT_FIELDS[t["s"]] = [(str(i), T[x]["s"]) for i, x in enumerate(t["ts"])]
            elif k == "adt":
                if t["ak"] == "struct":
                    terms._STRUCT_FIELDS[t["s"]] = [(n, T[x]["s"]) for n, x in t["v"][0]["f"]]
                elif t["ak"] == "enum":
                    terms._ENUMS[t["s"]] = [(v["n"].split("::")[-1], int(v["d"]), [(n, T[x]["s"]) for n, x in v["f"]])
                                            for v in t["v"]]
        # SDK handle types are opaque values
        for s in list(terms._STRUCT_FIELDS):
            if s.startswith("soroban_sdk::") and not s.startswith("soroban_sdk::Context"):
                del terms._STRUCT_FIELDS[s]

    def entries(self):
        """exported contract methods: name -> Fn (resolved through the generated wasm exports)"""
        out = {}
        for f in self.fns.values():
            m = re.search(r"__(\w+)::invoke_raw$", f.name)
            if not m:
                continue
            cands = []
            for b in f.blocks:
                t = b["t"]
                if t[0] == "call" and t[1].get("inst") in self.fns:
                    g = self.fns[t[1]["inst"]]
                    if g.local and re.search(r"::%s$" % m.group(1), g.name):
                        cands.append(g)
            if len(cands) == 1:
                out[m.group(1)] = cands[0]
        return out

    def find(self, suffix):
        """unique local function whose path ends with suffix"""
        c = [f for f in self.fns.values() if f.local and (f.name.endswith("::" + suffix) or f.name == suffix)]
        return c[0] if len(c) == 1 else None
