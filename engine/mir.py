"""Loaded program: functions, types, impls, constants, from the JSON dumps."""
import json, os, re


class Fn:
    __slots__ = ("id", "name", "closure", "pub", "trait", "file", "line", "endline", "argc", "locals", "names", "bbs",
                 "upv", "promoted", "crate", "prog", "_succ", "_live", "_rpo", "_loops", "parent", "_addr", "_count")

    def __init__(self, prog, crate, j, promoted_of=None):
        self.prog, self.crate = prog, crate
        self._succ = self._live = self._rpo = self._loops = self._addr = self._count = None
        if promoted_of is None:
            self.id, self.name = j["id"], j["n"]
            self.closure, self.pub, self.trait = j["closure"], j["pub"], j["trait"]
            self.file, self.line, self.endline = j["span"][0], j["span"][1], j["endline"]
            self.promoted = [Fn(prog, crate, p, (self, i)) for i, p in enumerate(j["promoted"])]
        else:
            o, i = promoted_of
            self.id, self.name = f"{o.id}#promoted{i}", f"{o.name}#promoted{i}"
            self.closure, self.pub, self.trait = False, False, None
            self.file, self.line, self.endline = o.file, o.line, o.endline
            self.promoted = []
        self.argc = j["argc"]
        self.locals = [l[0] for l in j["locals"]]
        self.names = [l[1] for l in j["locals"]]
        self.upv = j["upv"]
        self.bbs = j["bbs"]

    def __repr__(self):
        return f"<Fn {self.name}>"

    def callees(self):
        """(name, span) of every statically known callee; function items passed as values included"""
        out = []
        for b in self.bbs:
            if not b:
                continue
            t = b[1]
            ops = []
            if t[0] == "call":
                ops = [t[1]] + list(t[2])
            for o in ops:
                if o[0] == "k" and isinstance(o[1], dict) and "fn" in o[1]:
                    c = o[1]
                    r = c.get("r", c["fn"])
                    f = self.prog.fns.get(r)
                    out.append((f.name if f is not None else c["fn"], t[5] if t[0] == "call" else None))
        return out

    def term_succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    @property
    def succ(self):
        if self._succ is None:
            self._succ = [self.term_succ(b[1]) if b else [] for b in self.bbs]
        return self._succ

    @property
    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(0, iter(self.succ[0]))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    @property
    def loop_heads(self):
        if self._loops is None:
            self._loops = {s for b in self.rpo for s in self.succ[b] if self.rpo[s] <= self.rpo[b]}
        return self._loops

    @property
    def counting(self):
        """loops `while i < n { .. i += 1 .. }`: test block -> (head, counter, operand n, body block, exit block, blocks of the loop)"""
        if self._count is None:
            self._count = {}
            pred = {}
            for b in self.rpo:
                for x in self.succ[b]:
                    pred.setdefault(x, []).append(b)
            for h in self.loop_heads:
                body, work = {h}, [b for b in pred[h] if self.rpo[h] <= self.rpo[b]]
                while work:
                    b = work.pop()
                    if b not in body:
                        body.add(b)
                        work += pred.get(b, ())
                c = self._counter(h, body)
                if c is not None:
                    self._count[c[0]] = (h,) + c[1:] + (body,)
        return self._count

    def _counter(self, h, body):
        t, sts = h, []
        for _ in range(6):
            ss, term = self.bbs[t]
            if any(x[0] != "=" or not isinstance(x[1], int) for x in ss):
                return None
            sts += ss
            if term[0] == "switch":
                break
            if term[0] == "goto" or term[0] == "assert" or term[0] == "call" and isinstance(term[3], int) and re.search(r"::len$", str(self._callee(term))):
                n = self.succ[t]
                if len(n) < 1 or n[0] not in body:
                    return None
                t = n[0]
            else:
                return None
        else:
            return None
        defs = {x[1]: x[2] for x in sts}
        if len(term[2]) != 1 or term[2][0][0] != 0 or term[1][0] not in ("cp", "mv") or not isinstance(term[1][1], int):
            return None
        no, yes = term[2][0][1], term[3]
        c = defs.get(term[1][1])
        if c is None or c[0] != "bin" or c[1] not in ("Lt", "Gt") or yes not in body or no in body:
            return None
        x, n = (c[2], c[3]) if c[1] == "Lt" else (c[3], c[2])
        while x[0] in ("cp", "mv") and x[1] in defs and defs[x[1]][0] in ("cp", "mv") and isinstance(defs[x[1]][1], int):
            x = defs[x[1]]
        if x[0] not in ("cp", "mv") or not isinstance(x[1], int) or x[1] in self.addr_taken:
            return None
        i, ups = x[1], 0
        sums = {}
        for b in body:
            ss, term2 = self.bbs[b]
            for s in ss:
                if s[0] == "=" and isinstance(s[1], int) and s[2][0] == "bin" and s[2][1] in ("Add", "AddWithOverflow") and s[2][2][0] in ("cp", "mv") and s[2][2][1] == i and s[2][3][0] == "k" and s[2][3][1].get("v") == 1:
                    sums[s[1]] = s[2][1]
        for b in body:
            ss, term2 = self.bbs[b]
            for s in ss:
                w = s[1] if isinstance(s[1], int) else s[1][0]
                if w != i:
                    continue
                v = s[2] if s[0] == "=" else None
                if s[0] == "=" and isinstance(s[1], int) and (sums.get(i) == "Add" and v[0] == "bin" or v[0] in ("cp", "mv") and (sums.get(v[1]) == "Add" if isinstance(v[1], int) else sums.get(v[1][0]) == "AddWithOverflow" and v[1][1][:2] == ["f", "0"])):
                    ups += 1
                else:
                    return None
            if term2[0] == "call" and (term2[3] if isinstance(term2[3], int) else term2[3][0]) == i:
                return None
        return (t, i, n, yes, no) if ups else None

    @staticmethod
    def _callee(term):
        f = term[1]
        return f[1].get("fn") if f[0] == "k" and isinstance(f[1], dict) else None

    # ---- liveness of locals (address-taken locals are always live) ----
    def _place_use(self, p, use):
        if isinstance(p, int):
            use.add(p)
        else:
            use.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    use.add(e[1])

    def _op_use(self, o, use):
        if o[0] in ("cp", "mv"):
            self._place_use(o[1], use)

    def _rv_use(self, r, use, addr):
        k = r[0]
        if k in ("cp", "mv"):
            self._place_use(r[1], use)
        elif k in ("&", "&m", "&raw"):
            self._place_use(r[1], use)
            b = r[1] if isinstance(r[1], int) else r[1][0]
            if isinstance(r[1], int) or r[1][1] != "*":
                addr.add(b)
        elif k == "rep":
            self._op_use(r[1], use)
        elif k == "cast":
            self._op_use(r[2], use)
        elif k == "bin":
            self._op_use(r[2], use)
            self._op_use(r[3], use)
        elif k == "un":
            self._op_use(r[2], use)
        elif k == "discr":
            self._place_use(r[1], use)
        elif k == "agg":
            for o in r[2]:
                self._op_use(o, use)

    def _compute_live(self):
        n = len(self.bbs)
        uses, defs, addr = [], [], set()
        for b in self.bbs:
            u, d = set(), set()
            if b:
                def useset(s):
                    u.update(x for x in s if x not in d)
                for st in b[0]:
                    if st[0] == "=":
                        s = set()
                        self._rv_use(st[2], s, addr)
                        if not isinstance(st[1], int):
                            self._place_use(st[1], s)
                        useset(s)
                        if isinstance(st[1], int):
                            d.add(st[1])
                    elif st[0] == "setdiscr":
                        s = set()
                        self._place_use(st[1], s)
                        useset(s)
                t = b[1]
                s = set()
                if t[0] == "switch":
                    self._op_use(t[1], s)
                elif t[0] == "call":
                    self._op_use(t[1], s)
                    for o in t[2]:
                        self._op_use(o, s)
                    if not isinstance(t[3], int):
                        self._place_use(t[3], s)
                elif t[0] == "assert":
                    self._op_use(t[1], s)
                elif t[0] == "return":
                    s.add(0)
                elif t[0] == "drop":
                    self._place_use(t[1], s)
                useset(s)
                if t[0] == "call" and isinstance(t[3], int):
                    d.add(t[3])
            uses.append(u)
            defs.append(d)
        live = [set() for _ in range(n)]
        ch = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                nl = uses[b] | (o - defs[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        self._live = live
        self._addr = addr

    @property
    def live(self):
        if self._live is None:
            self._compute_live()
        return self._live

    @property
    def addr_taken(self):
        if self._live is None:
            self._compute_live()
        return self._addr


_ARGS = []


def argnames():
    if not _ARGS:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "argnames.json")
        _ARGS.append(json.load(open(p)) if os.path.exists(p) else {})
    return _ARGS[0]


class Prog:
    def __init__(self, paths):
        self.fns, self.tys, self.adts, self.consts, self.impls, self.statics = {}, {}, {}, {}, [], {}
        self.byname = {}
        for crate, p in paths.items():
            j = json.load(open(p))
            self.tys[crate] = j["tys"]
            for f in j["fns"]:
                fn = Fn(self, crate, f)
                self.fns[fn.id] = fn
                self.byname.setdefault(fn.name, []).append(fn)
            for a in j["adts"]:
                a["crate"] = crate
                if a["id"] not in self.adts or a["id"].startswith(crate + "::"):
                    self.adts[a["id"]] = a
            for c in j["consts"]:
                self.consts[c["id"]] = c
            for s in j["statics"]:
                self.statics[s["id"]] = s
            for i in j["impls"]:
                i["crate"] = crate
                self.impls.append(i)
        self.fn_impl = {}
        for i in self.impls:
            for n, q in i["items"]:
                self.fn_impl[q] = i
        for f in self.fns.values():
            f.parent = None
        # parameters are named by position, as they were when the rules were written, so that renaming one changes nothing
        base = argnames()
        for n, l in self.byname.items():
            b = base.get(n)
            if b and len(l) == 1 and l[0].argc == len(b):
                l[0].names = [l[0].names[0]] + list(b) + l[0].names[len(b) + 1:]

    def ty(self, crate, i):
        return self.tys[crate][i]

    def find(self, suffix, unique=True):
        """functions whose readable name ends with `suffix` (at a :: boundary)"""
        r = [f for f in self.fns.values() if f.name == suffix or f.name.endswith("::" + suffix)]
        if unique:
            if len(r) != 1:
                raise KeyError(f"{suffix}: {len(r)} matches {[x.name for x in r][:5]}")
            return r[0]
        return r


# ---------------------------------------------------------------- printing
def pl(f, p):
    if isinstance(p, int):
        n = f.names[p]
        return f"_{p}" + (f"({n})" if n else "")
    s = pl(f, p[0])
    for e in p[1:]:
        if e == "*":
            s = f"*{s}"
        elif e[0] == "f":
            s += "." + e[1]
        elif e[0] == "v":
            s += f"<{e[1]}>"
        elif e[0] == "i":
            s += f"[{pl(f, e[1])}]"
        else:
            s += str(e)
    return s


def op(f, o):
    if o[0] in ("cp", "mv"):
        return pl(f, o[1])
    c = o[1]
    if "fn" in c:
        return c.get("r", c["fn"])
    if "promoted" in c:
        return f"promoted{c['promoted']}"
    s = json.dumps(c.get("v", c))
    return s if len(s) < 160 else s[:160] + ".."


def show(f, out=print):
    out(f"fn {f.name}  [{f.id}] argc={f.argc} {f.file}:{f.line}")
    for i, b in enumerate(f.bbs):
        if not b or i not in f.rpo:
            continue
        out(f" bb{i}:")
        for s in b[0]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("cp", "mv", "k"):
                    rs = op(f, r)
                elif r[0] in ("&", "&m", "&raw"):
                    rs = r[0] + " " + pl(f, r[1])
                elif r[0] == "bin":
                    rs = f"{r[1]}({op(f,r[2])}, {op(f,r[3])})"
                elif r[0] == "un":
                    rs = f"{r[1]}({op(f,r[2])})"
                elif r[0] == "cast":
                    rs = f"cast[{r[1]}] {op(f,r[2])}"
                elif r[0] == "discr":
                    rs = f"discr {pl(f,r[1])}"
                elif r[0] == "agg":
                    rs = f"{r[1]} {r[3:]} {{{', '.join(op(f,o) for o in r[2])}}}"
                else:
                    rs = str(r)
                out(f"   {pl(f,s[1])} = {rs}   // {s[3][1:]}")
            else:
                out(f"   {s}")
        t = b[1]
        if t[0] == "call":
            out(f"   {pl(f,t[3])} = CALL {op(f,t[1])}({', '.join(op(f,o) for o in t[2])}) -> bb{t[4]}  // {t[5][1:]}")
        elif t[0] == "switch":
            out(f"   switch {op(f,t[1])} {t[2]} else {t[3]}  // {t[5][1:]}")
        elif t[0] == "assert":
            out(f"   assert {op(f,t[1])}=={t[2]} {t[3][0]} -> bb{t[4]}  // {t[5][1:]}")
        else:
            out(f"   {t}")


if __name__ == "__main__":
    import sys, extract
    o, _ = extract.extract((sys.argv[1],))
    p = Prog(o[sys.argv[1]])
    for f in p.find(sys.argv[2], unique=False):
        show(f)
