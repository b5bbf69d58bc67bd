"""Trace-partitioned interprocedural dataflow over MIR with value numbering.

States are (memory, branch facts, must-happened events).  Workspace functions
are virtually inlined; states reaching the same program point are merged
(facts intersected, differing memory replaced by an opaque merge symbol) once
their number exceeds a bound, except that states which differ in a live
boolean/enum value, in a fact that is tested at several places, or in a
rule-relevant fact are kept apart as long as possible.  No path is ever handed
to a solver; branch feasibility uses only recorded facts.
"""
import re
from terms import *
import terms as TM
import fill

NORM = re.compile(r"::\{impl#\d+\}")


def norm(p):
    return NORM.sub("", p)


class State:
    __slots__ = ("mem", "facts", "calls", "ev", "may", "auto", "len_facts")

    def __init__(self):
        self.mem, self.facts, self.calls, self.ev, self.may, self.auto = {}, {}, {}, {}, frozenset(), ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.calls = dict(self.calls)
        s.ev = dict(self.ev)
        s.may = self.may
        s.auto = self.auto
        return s

    # ---------------- facts
    def val(self, t):
        """known constant of t or None"""
        if t.op == "k":
            return t.a[0]
        f = self.facts.get(t)
        if f is not None and f[0] == "=":
            return f[1]
        return None

    def truth(self, t):
        if t.op == "k":
            return bool(t.a[0])
        f = self.facts.get(t)
        if f is not None:
            if f[0] == "=":
                return bool(f[1])
            if 0 in f[1]:
                return True
        o = t.op
        if o == "not":
            v = self.truth(t.a[0])
            return None if v is None else not v
        if o == "eq":
            x, y = t.a
            vx, vy = self.val(x), self.val(y)
            if vx is not None and vy is not None:
                return vx == vy
            if y.op == "k":
                fx = self.facts.get(x)
                if fx is not None and fx[0] == "!" and y.a[0] in fx[1]:
                    return False
                lo, hi = self.bounds(x)
                if (lo is not None and y.a[0] < lo) or (hi is not None and y.a[0] > hi):
                    return False
            return None
        if o == "lt":
            x, y = t.a
            vx, vy = self.val(x), self.val(y)
            if vx is not None and vy is not None and isinstance(vx, int) and isinstance(vy, int):
                return vx < vy
            g = self.facts.get(mk("lt", y, x))
            if g is not None and g == ("=", 1):
                return False
            if y.op == "k" or x.op == "k":
                lox, hix = self.bounds(x)
                loy, hiy = self.bounds(y)
                if hix is not None and loy is not None and hix < loy:
                    return True
                if lox is not None and hiy is not None and lox >= hiy:
                    return False
            return None
        if o == "band":
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if o == "bor":
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def bounds(self, x):
        if x.op == "k":
            return x.a[0], x.a[0]
        f = self.facts.get(x)
        if f is not None and f[0] == "=":
            return f[1], f[1]
        lo, hi = self.facts.get(("lo", x)), self.facts.get(("hi", x))
        lo = lo[1] if lo else None
        if lo is None and x.op == "pure" and x.a[0] == "enumval":
            lo = 0
        if f is not None and f[0] == "!" and lo is not None:
            while lo in f[1]:
                lo += 1
        return lo, (hi[1] if hi else None)

    def assume_eq(self, t, v):
        """t == v (constant). False if infeasible"""
        if t.op == "k":
            return t.a[0] == v
        f = self.facts.get(t)
        if f is not None:
            if f[0] == "=":
                return f[1] == v
            if v in f[1]:
                return False
        lo, hi = self.bounds(t)
        if isinstance(v, int) and ((lo is not None and v < lo) or (hi is not None and v > hi)):
            return False
        self.facts[t] = ("=", v)
        return True

    def assume_ne(self, t, v):
        if t.op == "k":
            return t.a[0] != v
        f = self.facts.get(t)
        if f is not None:
            if f[0] == "=":
                return f[1] != v
            self.facts[t] = ("!", f[1] | {v})
        else:
            self.facts[t] = ("!", frozenset([v]))
        return True

    def assume(self, t, b):
        tv = self.truth(t)
        if tv is not None and tv != b:
            return False
        if t.op == "k":
            return True
        o = t.op
        if o == "not":
            return self.assume(t.a[0], not b)
        if o == "eq" and t.a[1].op == "k":
            return self.assume_eq(t.a[0], t.a[1].a[0]) if b else self.assume_ne(t.a[0], t.a[1].a[0])
        if o == "band" and b:
            return self.assume(t.a[0], True) and self.assume(t.a[1], True)
        if o == "bor" and not b:
            return self.assume(t.a[0], False) and self.assume(t.a[1], False)
        if o == "band" and not b:
            x, y = self.truth(t.a[0]), self.truth(t.a[1])
            if x:
                return self.assume(t.a[1], False)
            if y:
                return self.assume(t.a[0], False)
        if o == "bor" and b:
            x, y = self.truth(t.a[0]), self.truth(t.a[1])
            if x is False:
                return self.assume(t.a[1], True)
            if y is False:
                return self.assume(t.a[0], True)
        self.facts[t] = ("=", int(b))
        if o == "lt":
            x, y = t.a
            if y.op == "k" and isinstance(y.a[0], int):
                k = y.a[0]
                if b:
                    cur = self.facts.get(("hi", x))
                    self.facts[("hi", x)] = ("hi", min(k - 1, cur[1]) if cur else k - 1)
                    lo, hi = self.bounds(x)
                    if lo is not None and lo == hi:
                        self.assume_eq(x, lo)
                else:
                    cur = self.facts.get(("lo", x))
                    self.facts[("lo", x)] = ("lo", max(k, cur[1]) if cur else k)
            elif x.op == "k" and isinstance(x.a[0], int):
                k = x.a[0]
                if b:
                    cur = self.facts.get(("lo", y))
                    self.facts[("lo", y)] = ("lo", max(k + 1, cur[1]) if cur else k + 1)
                else:
                    cur = self.facts.get(("hi", y))
                    self.facts[("hi", y)] = ("hi", min(k, cur[1]) if cur else k)
            lo, hi = self.bounds(x)
            if lo is not None and hi is not None and lo > hi:
                return False
            lo, hi = self.bounds(y)
            if lo is not None and hi is not None and lo > hi:
                return False
        return True

    def is_variant(self, t, dv):
        """True/False/None: is discr(t) == dv"""
        return self.truth(eq(discr(t), K(dv)))

    # ---------------- memory
    def read(self, root, path=()):
        path = tuple(path)
        if root[0] == "C":
            return fldp(root[1], path)
        m = self.mem.get(root)
        if m is None:
            return self.base(root, path)
        v = m.get(path)
        exactv = v
        if v is None:
            for n in range(len(path) - 1, -1, -1):
                w = m.get(path[:n])
                if w is not None:
                    v = fldp(w, path[n:])
                    break
            if v is None:
                v = self.base(root, path)
        # deeper entries override
        n = len(path)
        subs = [(p[n:], w) for p, w in m.items() if len(p) > n and p[:n] == path]
        if subs:
            v = upd(v, subs)
        return v

    def base(self, root, path):
        if root[0] == "L":
            return mk("undef")
        return mk("mem", root, tuple(path), 0)

    def write(self, root, path, v):
        path = tuple(path)
        if root[0] == "C":
            return
        # element writes at unknown index invalidate the other elements
        for i, e in enumerate(path):
            if e[0] == "i" and e[1].op != "k":
                pre = path[:i]
                m = self.mem.get(root, {})
                if any(len(p) > i and p[:i] == pre and p[i][0] == "i" and p[i] != e for p in m):
                    old = self.read(root, pre)
                    self._set(root, pre, mk("updi", old, e[1]))
                elif pre not in m:
                    self._set_base(root, pre, e)
                break
            if e[0] == "i" and e[1].op == "k":
                pre = path[:i]
                m = self.mem.get(root, {})
                if any(len(p) > i and p[:i] == pre and p[i][0] == "i" and p[i][1].op != "k" for p in m):
                    old = self.read(root, pre)
                    self._set(root, pre, mk("updi", old, e[1]))
                break
        self._set(root, path, v)

    def _set_base(self, root, pre, e):
        # remember that some element changed: reads of other indices become opaque
        old = self.read(root, pre)
        self._set(root, pre, mk("updi", old, e[1]))

    def _set(self, root, path, v):
        m = dict(self.mem.get(root, ()))
        n = len(path)
        for p in [p for p in m if len(p) > n and p[:n] == path]:
            del m[p]
        m[path] = v
        self.mem[root] = m

    def purge(self, sym_id, ctx):
        """the opaque symbol sym_id is about to be re-created: forget its old value"""
        if "fills" in self.ev:
            fill.forget(self, sym_id)
        for t in [t for t in self.facts if sym_id in (syms(t) if isinstance(t, T) else syms(t[1]))]:
            del self.facts[t]
        for k in [k for k, t in self.calls.items() if sym_id in syms(t)]:
            del self.calls[k]
        for r in list(self.mem):
            m = self.mem[r]
            if r[0] in ("D", "SES") and any(isinstance(x, T) and sym_id in syms(x) for x in r):
                del self.mem[r]
                continue
            ch = None
            for p, v in m.items():
                if sym_id in syms(v) or any(isinstance(y, T) and sym_id in syms(y) for e in p for y in e):
                    if ch is None:
                        ch = dict(m)
                    i = next((i for i, e in enumerate(p) if any(isinstance(y, T) and sym_id in syms(y) for y in e)), None)
                    if i is not None:
                        # something has been written at a place that can no longer be named
                        for q in [q for q in ch if len(q) > i and q[:i] == p[:i]]:
                            del ch[q]
                        if r[0] not in ("D", "SES") or i:
                            ch[p[:i]] = mk("hv", ("stale", ctx, rootkey(r), pathkey(p[:i])))
                    else:
                        ch[p] = mk("hv", ("stale", ctx, r, p) if False else ("stale", ctx, rootkey(r), pathkey(p)))
            if ch is not None:
                self.mem[r] = ch


def _short_table(st, ctx, n):
    """an index running over a literal array of n elements is followed element by element"""
    return n <= 8 and any(r[0] == "L" and r[1] == ctx and any(v.op == "agg" and v.a[0] == "array" and len(v.a[3]) == n for v in m.values()) for r, m in st.mem.items())


def rootkey(r):
    return tuple(x.id if isinstance(x, T) else x for x in r)


def pathkey(p):
    return tuple(tuple(y.id if isinstance(y, T) else y for y in e) for e in p)


_ctx_tab = {(): 0}
_ctx_rev = {0: ()}


def ctx_push(ctx, fid, bb):
    k = (ctx, fid, bb)
    i = _ctx_tab.get(k)
    if i is None:
        i = len(_ctx_tab)
        _ctx_tab[k] = i
        _ctx_rev[i] = k
    return i


def ctx_stack(ctx):
    out = []
    while ctx:
        ctx, fid, bb = _ctx_rev[ctx]
        out.append((fid, bb))
    out.reverse()
    return out


class Limit(Exception):
    pass


def unpatch(v):
    n = 0
    while v.op == "patch":
        v = v.a[0]
        n += 1
    return v, n


def bool_pair(d):
    """(x, y, same): d says that the truth values x and y are equal (same) or differ"""
    same = True
    while d.op == "not":
        d, same = d.a[0], not same
    if d.op == "eq" and d.a[1].op != "k" and (d.a[0].op in BOOLOPS or d.a[1].op in BOOLOPS):
        return d.a[0], d.a[1], same
    if d.op == "bxor":
        return d.a[0], d.a[1], not same
    return None


class Engine:
    B1, B2, B3 = 12, 48, 160
    MAXDEPTH = 40

    def __init__(self, prog, hooks=None, hot=None, max_steps=3_000_000):
        self.prog = prog
        TM.set_adts(prog.adts)
        self.hooks = hooks
        self.hot = hot if hot is not None else set()
        self.tested = {}
        self.steps = 0
        self.max_steps = max_steps
        self.visited = set()
        self.fn_visited = set()
        self.stackfns = []
        self.callsites = 0
        self.opaque_called = {}
        self.models = {}
        self.policy = lambda fn: "inline"
        self.merges = 0
        self.recursion = set()
        self.split = None
        self._mcache = {}
        self._scache = {}
        import models
        self.ext = models.EXT
        self.track = lambda t: False
        self.unroll = 0
        self.on_drop = getattr(hooks, "on_drop", None)

    # ------------------------------------------------------------ places
    def loc(self, st, fr, p):
        """location (root, path) of a MIR place; value-rooted projections give ('C', value)"""
        if isinstance(p, int):
            return ("L", fr.ctx, p), ()
        root, path = self.loc(st, fr, p[0]) if not isinstance(p[0], int) else (("L", fr.ctx, p[0]), ())
        for e in p[1:]:
            if e == "*":
                v = st.read(root, path)
                root, path = self.deref(v)
            elif e[0] == "f":
                if boxlike(e[3] if len(e) > 3 else None):
                    continue
                path = path + (("f", e[1]),)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                path = norm_idx(path, st.read(("L", fr.ctx, e[1])))
            elif e[0] == "c":
                if e[2]:
                    path = path + (("ce", e[1]),)
                else:
                    path = norm_idx(path, K(e[1]))
            elif e[0] == "ss":
                path = path + (("sl", K(e[1]), K(e[2]) if not e[3] else None),)
            else:
                path = path + (("f", "?"),)
        return root, path

    def deref(self, v):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op == "fld" and v.a[1][0] == "f" and v.a[1][1] == "pointer":
            return self.deref(v.a[0])
        return ("D", v), ()

    def content(self, st, v):
        """value behind a reference term"""
        r, p = self.deref(v)
        return self.rd(st, r, p)

    def rd(self, st, root, path):
        # slices are projections of the content of their base location
        for i, e in enumerate(path):
            if e[0] == "sl":
                return fldp(st.read(root, path[:i]), path[i:])
        return st.read(root, path)

    def wr(self, st, fr, root, path, v, span=None):
        for i, e in enumerate(path):
            if e[0] == "sl":
                base = st.read(root, path[:i])
                rest = path[i + 1:]
                if not rest:
                    self.put(st, root, path[:i], patch(base, e[1], e[2], v))
                elif rest[0][0] == "i":
                    ix = add(e[1], rest[0][1])
                    self.put(st, root, path[:i] + (("i", ix),) + rest[1:], v)
                else:
                    self.put(st, root, path[:i], mk("hv", ("slw", fr.ctx, pathkey(path))))
                break
        else:
            if self.hooks is not None:
                self.hooks.on_write(self, st, fr, root, path, v, span)
            self.put(st, root, path, v)

    def put(self, st, root, path, v):
        if self.fills and "fills" in st.ev:
            fill.note(st, root, path, self.whole(v))
        st.write(root, path, v)

    def whole(self, v):
        """a structure whose fields are those of x one by one is x"""
        if v.op == "agg" and v.a[3] and v.a[0] in self.prog.adts and self.prog.adts[v.a[0]]["k"] == "struct":
            fs = [f[0] for f in self.prog.adts[v.a[0]]["v"][0]["f"]]
            w = v.a[3][0]
            if w.op == "fld":
                x = w.a[0]
            elif w.op == "mem" and w.a[1]:
                x = mk("mem", w.a[0], w.a[1][:-1], *w.a[2:])
            else:
                return v
            if len(fs) == len(v.a[3]) and all(fld(x, ("f", f)) is y for f, y in zip(fs, v.a[3])):
                return x
        return v

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            r, p = self.loc(st, fr, o[1])
            return self.rd(st, r, p)
        if o[0] == "k":
            return self.const(fr.fn, o[1])
        return mk("hv", ("op", str(o)))

    def const(self, fn, c):
        if "promoted" in c:
            base = fn
            if c["promoted"] < len(base.promoted):
                return self.promoted(base, c["promoted"])
            return mk("hv", ("promoted", fn.id, c["promoted"]))
        if "fn" in c:
            return mk("fn", c.get("r", c["fn"]), c["fn"])
        if "param" in c:
            return mk("cparam", c["param"])
        t = self.prog.tys[fn.crate][c["t"]]
        if "v" not in c:
            if t["k"] == "tuple" and not t["a"]:
                return UNIT
            if t["k"] == "closure":
                return AGG("closure", 0, t["p"], ())
            if t["k"] == "adt":
                a = self.prog.adts.get(t["p"])
                if a and a["k"] == "struct" and not a["v"][0]["f"]:
                    return AGG(t["p"], 0, a["v"][0]["n"], ())
            return mk("cst", c.get("path", f"?{c['t']}"), fn.crate)
        v = self.cval(c["v"], t)
        return v

    def cval(self, v, t=None):
        if isinstance(v, bool):
            return K(int(v))
        if isinstance(v, int):
            return K(v)
        if isinstance(v, str):
            if t is not None and t["k"] == "closure":
                return AGG("closure", 0, t["p"], ())
            return mk("cst", v, t["p"] if t and "p" in t else (t["k"] if t else ""))
        if isinstance(v, dict):
            if "str" in v:
                return REF(("C", mk("str", v["str"])), (), K(len(v["str"])))
            if "ref" in v:
                r = v["ref"]
                if isinstance(r, list):
                    x = mk("bytes", tuple(r))
                    return REF(("C", x), (), K(len(r)))
                x = self.cval(r)
                ln = None
                if isinstance(r, dict) and "bytes" in r:
                    ln = K(len(r["bytes"]))
                elif isinstance(r, dict) and "seq" in r:
                    ln = K(len(r["seq"]))
                elif isinstance(r, dict) and "rep" in r:
                    ln = K(r["n"])
                return REF(("C", x), (), ln)
            if "static" in v:
                return REF(("S", v["static"]), ())
            if "bytes" in v:
                return mk("bytes", tuple(v["bytes"]))
            if "rep" in v:
                return mk("rep", K(v["rep"]), v["n"])
            if "adt" in v:
                return AGG(v["adt"], v["vi"], v["vn"], [self.cval(x) for x in v["f"]])
            if "seq" in v:
                if t is not None and t["k"] == "tuple":
                    if not v["seq"]:
                        return UNIT
                    return AGG("tuple", 0, "tuple", [self.cval(x) for x in v["seq"]])
                return AGG("array", 0, "array", [self.cval(x) for x in v["seq"]])
            if "fnptr" in v:
                return mk("fn", v["fnptr"], v["fnptr"])
        return mk("cst", repr(v), "")

    def promoted(self, fn, i):
        key = (fn.id, i)
        c = getattr(self, "_prom", None)
        if c is None:
            c = self._prom = {}
        if key not in c:
            pf = fn.promoted[i]
            st = State()
            h, self.hooks = self.hooks, None
            try:
                outs = self.exec_fn(pf, [st], 0, True)
            finally:
                self.hooks = h
            if len(outs) == 1:
                s, v = outs[0]
                c[key] = self.freeze(s, v)
            else:
                c[key] = mk("hv", ("promoted", fn.id, i))
        return c[key]

    def freeze(self, st, v):
        if v.op == "ref" and v.a[0][0] == "L":
            return REF(("C", self.freeze(st, st.read(v.a[0], v.a[1]))), (), v.a[2])
        if v.op == "agg":
            return AGG(v.a[0], v.a[1], v.a[2], [self.freeze(st, x) for x in v.a[3]])
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, place, span):
        k = r[0]
        if k in ("cp", "mv", "k"):
            return self.operand(st, fr, r)
        if k in ("&", "&m", "&raw"):
            root, path = self.loc(st, fr, r[1])
            ln = None
            if path and path[-1][0] == "sl" and path[-1][2] is not None:
                ln = sub(path[-1][2], path[-1][1])
            elif not path and root[0] == "D" and not isinstance(r[1], int):
                # reborrow of *p: keep p itself (and its length)
                return root[1] if root[0] == "D" else REF(root, path, None)
            if isinstance(r[1], list) and r[1][-1] == "*":
                # reborrow: preserve the reference value
                if len(r[1]) == 2:
                    rr, pp = self.loc(st, fr, r[1][0])
                else:
                    rr, pp = self.loc(st, fr, r[1][:-1])
                v = self.rd(st, rr, pp)
                if v.op == "ref":
                    return v
            return REF(root, path, ln)
        if k == "rep":
            x = self.operand(st, fr, r[1])
            return mk("rep", x, r[2])
        if k == "cast":
            x = self.operand(st, fr, r[2])
            ft, tt = self.prog.tys[fr.fn.crate][r[3]], self.prog.tys[fr.fn.crate][r[4]]
            return self.cast(r[1], x, ft, tt, fr)
        if k == "bin":
            x, y = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(r[1], x, y, self.prog.tys[fr.fn.crate][r[4]])
        if k == "un":
            x = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = self.prog.tys[fr.fn.crate][r[3]]
                if t["k"] == "bool":
                    return not_(x)
                if x.op == "k":
                    return K((~x.a[0]) & ((1 << t.get("b", 64)) - 1))
                return mk("bnot", x, t.get("b", 64))
            if r[1] == "PtrMetadata":
                return self.length(st, x)
            if r[1] == "Neg":
                return scale(x, -1)
            return mk("un", r[1], x)
        if k == "discr":
            root, path = self.loc(st, fr, r[1])
            return discr(self.rd(st, root, path))
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r[2]]
            if r[1] == "array":
                t = self.prog.tys[fr.fn.crate][r[3]]
                if vals and all(v.op == "k" for v in vals) and t["k"] in ("uint", "int") and t.get("b") == 8:
                    return mk("bytes", tuple(v.a[0] for v in vals))
                return AGG("array", 0, "array", vals)
            if r[1] == "tuple":
                return AGG("tuple", 0, "tuple", vals) if vals else UNIT
            if r[1] == "closure":
                return AGG("closure", 0, r[3], vals)
            if r[1] == "adt":
                if boxlike(r[3]) and len(vals) >= 1:
                    return vals[0]
                return AGG(r[3], r[4], r[5], vals)
            return mk("hv", ("agg", fr.ctx, str(r[1])))
        return mk("hv", ("rv", fr.ctx, str(r[:2])))

    def cast(self, kind, x, ft, tt, fr):
        if kind == "IntToInt":
            fb, tb = ft.get("b", 8 if ft["k"] in ("bool",) else 32), tt.get("b", 32)
            if ft["k"] == "bool":
                fb = 1
            if x.op == "k":
                v = x.a[0] & ((1 << tb) - 1)
                if tt["k"] == "int" and v >= 1 << (tb - 1):
                    v -= 1 << tb
                return K(v)
            if tb >= fb:
                return x
            if x.op == "trunc" and x.a[1] <= tb:
                return x
            return mk("trunc", x, tb)
        if "Unsize" in kind:
            if x.op == "ref" and ft["k"] in ("ref", "ptr"):
                et = self.prog.tys[fr.fn.crate][ft["e"]]
                if et["k"] == "array" and isinstance(et["n"], int):
                    return REF(x.a[0], x.a[1], K(et["n"]))
            elif ft["k"] in ("ref", "ptr"):
                et = self.prog.tys[fr.fn.crate][ft["e"]]
                if et["k"] == "array" and isinstance(et["n"], int):
                    r, p = self.deref(x)
                    return REF(r, p, K(et["n"]))
            return x
        return x

    def length(self, st, x):
        if x.op == "ref":
            if x.a[2] is not None:
                return x.a[2]
            p = x.a[1]
            if p and p[-1][0] == "sl":
                if p[-1][2] is not None:
                    return sub(p[-1][2], p[-1][1])
                b = self.length(st, REF(x.a[0], p[:-1]))
                return sub(b, p[-1][1])
            return mk("len", mk("loc", x.a[0], x.a[1]))
        return mk("len", x)

    def binop(self, op, x, y, ty):
        bits = ty.get("b", 64)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.binop(op[:3], x, y, ty)
            return AGG("tuple", 0, "tuple", (r, FALSE))
        if op in ("Add", "AddUnchecked"):
            return add(x, y)
        if op in ("Sub", "SubUnchecked"):
            return sub(x, y)
        if op in ("Mul", "MulUnchecked"):
            if x.op == "k" and isinstance(x.a[0], int):
                return scale(y, x.a[0])
            if y.op == "k" and isinstance(y.a[0], int):
                return scale(x, y.a[0])
            if y.id < x.id:
                x, y = y, x
            return mk("mul", x, y)
        if op == "Eq":
            return eq(x, y)
        if op == "Ne":
            return not_(eq(x, y))
        if op == "Lt":
            return lt(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "Le":
            return not_(lt(y, x))
        if op == "Ge":
            return not_(lt(x, y))
        if ty["k"] == "bool":
            if op == "BitAnd":
                return band(x, y)
            if op == "BitOr":
                return bor(x, y)
            if op == "BitXor":
                return not_(eq(x, y))
        ints = x.op == "k" and y.op == "k" and isinstance(x.a[0], int) and isinstance(y.a[0], int)
        if ints:
            a, b = x.a[0], y.a[0]
            m = (1 << bits) - 1
            try:
                if op == "BitAnd":
                    return K(a & b)
                if op == "BitOr":
                    return K(a | b)
                if op == "BitXor":
                    return K(a ^ b)
                if op in ("Shl", "ShlUnchecked"):
                    return K((a << b) & m)
                if op in ("Shr", "ShrUnchecked"):
                    return K(a >> b)
                if op == "Div" and b:
                    return K(a // b)
                if op == "Rem" and b:
                    return K(a % b)
            except Exception:
                pass
        if op == "BitAnd":
            if x.op == "k" and x.a[0] == 0 or y.op == "k" and y.a[0] == 0:
                return K(0)
            if x is y:
                return x
            if x.op == "k":
                x, y = y, x
            if y.op == "k" and x.op == "and" and x.a[1].op == "k":
                return self.binop("BitAnd", x.a[0], K(x.a[1].a[0] & y.a[0]), ty)
            if y.op != "k" and y.id < x.id:
                x, y = y, x
            return mk("and", x, y)
        if op == "BitOr":
            if x.op == "k" and x.a[0] == 0:
                return y
            if y.op == "k" and y.a[0] == 0:
                return x
            if x is y:
                return x
            if x.op == "k" or (y.op != "k" and y.id < x.id):
                x, y = y, x
            return mk("or", x, y)
        if op == "BitXor":
            if x.op == "k" or (y.op != "k" and y.id < x.id):
                x, y = y, x
            return mk("xor", x, y)
        return mk("bin", op, x, y, bits)

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, args, st, ctx):
        """virtually inline fn; returns [(state, value)]"""
        return self.exec_fn(fn, [(st, args)], ctx)

    def exec_fn(self, fn, entries, ctx, raw=False):
        if len(self.stackfns) > self.MAXDEPTH:
            raise Limit(f"inline depth at {fn.name}")
        self.stackfns.append(fn.id)
        self.fn_visited.add(fn.id)
        fr = Frame(fn, ctx)
        try:
            init = []
            for e in entries:
                if raw:
                    st = e
                else:
                    st, args = e
                    for i, a in enumerate(args):
                        st._set(("L", ctx, i + 1), (), a)
                init.append(st)
            outs = self.run_body(fr, init)
        finally:
            self.stackfns.pop()
        res = []
        for st in outs:
            v = st.read(("L", ctx, 0), ())
            if not raw:
                for r in [r for r in st.mem if r[0] == "L" and r[1] == ctx]:
                    del st.mem[r]
            if v.op == "undef":
                v = UNIT
            res.append((st, v))
        return res

    def run_body(self, fr, init):
        fn = fr.fn
        rpo = fn.rpo
        pend = {0: init}
        acc = {}
        outs = []
        heads = fn.loop_heads
        visits = {}
        while pend:
            bb = min(pend, key=lambda b: rpo[b])
            sts = pend.pop(bb)
            for s in sts:
                self.drop_dead(fr, s, bb)
            if bb in heads:
                sts = self.loop_join(fr, bb, sts, acc.setdefault(bb, {}))
            elif len(sts) > 1:
                sts = self.reduce(fr, bb, sts)
            for s in sts:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit("step budget exhausted")
                self.visited.add((fn.id, bb))
                for nb, ns in self.step(fr, bb, s):
                    if nb is None:
                        outs.append(ns)
                    else:
                        if nb in heads and fn.counting:
                            fill.while_edge(self, fr, bb, nb, ns)
                        pend.setdefault(nb, []).append(ns)
        if len(outs) > 1:
            outs = self.reduce(fr, None, outs)
        return outs

    def drop_dead(self, fr, st, bb):
        live = fr.fn.live[bb]
        adr = fr.fn.addr_taken
        for r in [r for r in st.mem if r[0] == "L" and r[1] == fr.ctx and r[2] not in live and r[2] not in adr]:
            del st.mem[r]

    # ------------------------------------------------------------ merging
    @staticmethod
    def short_table(st, ctx, n):
        return _short_table(st, ctx, n)

    def tagval(self, v, st=None, ctx=None):
        """discrete tag of a value used to keep states apart"""
        if v.op == "k":
            return ("k", v.a[0]) if v.a[0] in (0, 1) else None
        if v.op == "agg":
            if v.a[0].endswith("::Range") and not self.unroll and v.a[3]:
                lo, hi = v.a[3]
                return ("at", lo.a[0]) if st is not None and lo.op == "k" and hi.op == "k" and _short_table(st, ctx, hi.a[0]) else None
            if (v.a[0] == "iter:at" or v.a[0].endswith("::Range")) and v.a[3]:
                x = v.a[3][1] if v.a[0] == "iter:at" else v.a[3][0]
                return ("at", x.a[0]) if x.op == "k" else None
            if v.a[0] in ("tuple", "array", "closure"):
                t = tuple(self.tagval(x) for x in v.a[3][:4])
                return t if any(t) else None
            tag = (v.a[0], v.a[1])
            if v.a[3] and v.a[0] in (OPT, RES, CF):
                return (tag, self.tagval(v.a[3][0]))
            return tag if not is_struct(v.a[0]) else None
        if v.op == "call" and self.track(discr(v)):
            return ("c", v.id)
        return None

    def key0(self, fr, st, bb):
        tags = []
        live = fr.fn.live[bb] if bb is not None else {0}
        for r, m in st.mem.items():
            if r[0] == "L" and r[1] == fr.ctx and (r[2] in live or r[2] in fr.fn.addr_taken):
                v = m.get(())
                if v is not None:
                    tg = self.tagval(v, st, r[1])
                    if tg is not None:
                        tags.append((r[2], tg))
        for h, i, *_ in fr.fn.counting.values():
            w = st.ev.get(("wh", fr.ctx, h))
            if w is not None:
                tags.append((i, ("wh",) + tuple(x.id if isinstance(x, T) else x for x in w)))
                v = st.read(("L", fr.ctx, i), ()) if w == ("u",) else K(0)
                if v.op == "k":
                    tags.append((i, ("at", v.a[0])))
        tags.sort(key=lambda x: (x[0], repr(x[1])))
        tr = []
        for t, f in st.facts.items():
            if isinstance(t, T) and self.track(t):
                tr.append((t.id, f[0], f[1]))
        tr.sort(key=repr)
        return (tuple(tags), tuple(tr), st.auto, self.sigs(st), (fill.shape(st), st.ev.get("wlog")) if self.fills else None)

    sig = None

    def sigs(self, st):
        if self.sig is None:
            return None
        out = []
        c = self._scache
        for r, m in st.mem.items():
            e = c.get(id(m))
            if e is None or e[0] is not m:
                g = []
                for p, v in m.items():
                    x = self.sig(v)
                    if x is not None:
                        g.append((pathkey(p), x))
                e = (m, tuple(sorted(g, key=repr)))
                if len(c) > 400000:
                    c.clear()
                c[id(m)] = e
            if e[1]:
                out.append((rootkey(r), e[1]))
        out.sort(key=repr)
        return tuple(out)

    def key1(self, fr, st, bb):
        hf = [(t.id, f[0], f[1]) for t, f in st.facts.items() if isinstance(t, T) and t in self.hot]
        hf.sort(key=repr)
        return self.key0(fr, st, bb) + (tuple(hf),)

    def reduce(self, fr, bb, sts):
        # exact duplicates
        out = {}
        for s in sts:
            k = self.exact(s)
            if k not in out:
                out[k] = s
        sts = list(out.values())
        if len(sts) <= self.B1:
            return sts
        sts = self.merge_by(fr, bb, sts, self.key1)
        if len(sts) <= self.B2:
            return sts
        sts = self.merge_by(fr, bb, sts, self.key0)
        if len(sts) <= self.B3:
            return sts
        return self.merge_by(fr, bb, sts, lambda a, b, c: b.auto)

    def exact(self, s):
        c = self._mcache
        if len(c) > 400000:
            c.clear()
        mm = []
        for r, m in s.mem.items():
            e = c.get(id(m))
            if e is None or e[0] is not m:
                e = (m, frozenset(m.items()))
                c[id(m)] = e
            mm.append((r, e[1]))
        return (frozenset(mm), frozenset(s.facts.items()), frozenset(s.calls.items()), s.may, s.auto, frozenset(s.ev.items()))

    def merge_by(self, fr, bb, sts, key):
        groups = {}
        for s in sts:
            groups.setdefault(key(fr, s, bb), []).append(s)
        out = []
        for g in groups.values():
            s = g[0]
            for o in g[1:]:
                s = self.join(s, o, (fr.ctx, fr.fn.id, bb))
                self.merges += 1
            out.append(s)
        return out

    def join(self, a, b, site, loop=False, keyed=False):
        mark = ("phi", site)
        self._leaves = []
        again = mark in a.may or mark in b.may
        new = []
        s = State()
        for t, f in a.facts.items():
            g = b.facts.get(t)
            if g is None:
                # maybe implied in b
                if isinstance(t, T) and f[0] == "!" and b.val(t) is not None and b.val(t) not in f[1]:
                    s.facts[t] = f
                continue
            if f == g:
                s.facts[t] = f
            elif f[0] == "=" and g[0] == "!":
                if f[1] not in g[1]:
                    s.facts[t] = g
            elif f[0] == "!" and g[0] == "=":
                if g[1] not in f[1]:
                    s.facts[t] = f
            elif f[0] == "!" and g[0] == "!":
                i = f[1] & g[1]
                if i:
                    s.facts[t] = ("!", i)
            elif f[0] == "lo" and g[0] == "lo":
                s.facts[t] = ("lo", min(f[1], g[1]))
            elif f[0] == "hi" and g[0] == "hi":
                s.facts[t] = ("hi", max(f[1], g[1]))
        if self.ranges:
            for p, q in ((a, b), (b, a)):
                for t, f in p.facts.items():
                    if isinstance(t, tuple) and t[0] in ("lo", "hi") and t not in q.facts:
                        v = self.hull(q, t[1])[t[0] == "hi"]
                        if v is not None:
                            s.facts[t] = (t[0], (min if t[0] == "lo" else max)(v, f[1]))
        for t, g in b.facts.items():
            if t not in a.facts and isinstance(t, T) and g[0] == "!" and a.val(t) is not None and a.val(t) not in g[1]:
                s.facts[t] = g
        s.calls = {k: t for k, t in a.calls.items() if b.calls.get(k) is t}
        s.ev = {k: v for k, v in a.ev.items() if k in b.ev and b.ev[k] == v}
        if "fills" in a.ev and "fills" in b.ev and "fills" not in s.ev:
            fill.both(s, a.ev["fills"], b.ev["fills"])
        s.may = a.may | b.may
        s.auto = a.auto if a.auto == b.auto else ("⊤",)
        for r in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(r), b.mem.get(r)
            if ma is mb or ma == mb:
                s.mem[r] = ma
                continue
            if r[0] == "L" and (ma is None or mb is None):
                continue  # undefined on one side: dead
            m = {}
            for p in sorted(set(ma or ()) | set(mb or ()), key=len):
                va, vb = a.read(r, p), b.read(r, p)
                if va is vb:
                    m[p] = va
                elif va.op == "undef" or vb.op == "undef":
                    m[p] = self.leaf(va, vb, site, loop, (r, p), new)
                else:
                    m[p] = self.phi(va, vb, site, loop, (r, p), new)
            # drop deeper entries that agree with the projection of shallower
            s.mem[r] = m
        if not loop:
            # a joined value of which both sides know the same variant
            for t, va, vb in self._leaves:
                if t.op == "phi" and va.op != "undef" and vb.op != "undef":
                    d = self._dv(a, va)
                    if d is not None and d == self._dv(b, vb):
                        s.facts[discr(t)] = ("=", d)
                    d = va.a[0] if va.op == "k" else a.val(va)
                    if d is not None and d == (vb.a[0] if vb.op == "k" else b.val(vb)):
                        s.facts[t] = ("=", d)
        if loop and new:
            # what a side says about a value of the earlier round does not hold for the new one
            sa, sb = self.mentions(a), self.mentions(b)
            old = {t.id for t, va, vb in self._leaves if (va is not t and t.id in sa) or (vb is not t and t.id in sb)}
            if old:
                for t in list(s.facts):
                    if old & (syms(t) if isinstance(t, T) else syms(t[1])):
                        del s.facts[t]
                for r in list(s.mem):
                    ma, mb = a.mem.get(r), b.mem.get(r)
                    stale = [p for p, v in s.mem[r].items() if isinstance(v, T) and old & syms(v) and (ma is mb or (ma or {}).get(p) is v and (mb or {}).get(p) is v)]
                    if stale:
                        m = dict(s.mem[r])
                        for p in stale:
                            m[p] = mk("phi", site, rootkey(r), pathkey(p))
                        s.mem[r] = m
        if self.ranges:
            for t, va, vb in self._leaves:
                if t.op == "phi" and va.op != "undef" and vb.op != "undef":
                    (l1, h1), (l2, h2) = self.hull(a, va), self.hull(b, vb)
                    if loop and not keyed and (l1, h1) != (l2, h2):
                        # a number that keeps growing has no bound
                        n = self.widened[t.id] = self.widened.get(t.id, 0) + 1
                        if n > 12:
                            continue
                    if l1 is not None and l2 is not None:
                        s.facts[("lo", t)] = ("lo", min(l1, l2))
                    if h1 is not None and h2 is not None:
                        s.facts[("hi", t)] = ("hi", max(h1, h2))
        if new and not loop:
            s.may = s.may | {mark}
            if again:
                # the join point is passed again in a later iteration: values of the
                # earlier incarnation must not be confused with the new ones
                ids = {t.id for t in new}
                for side in (a, b):
                    for t in side.facts:
                        if ids & (syms(t) if isinstance(t, T) else syms(t[1])):
                            s.facts.pop(t, None)
                for r in list(s.mem):
                    ma, mb = a.mem.get(r, {}), b.mem.get(r, {})
                    if any(isinstance(x, T) and ids & syms(x) for x in r):
                        del s.mem[r]
                        continue
                    stale = [p for p, v in s.mem[r].items() if any(p in m and ids & syms(m[p]) for m in (ma, mb))
                             or any(isinstance(y, T) and ids & syms(y) for e in p for y in e)]
                    if stale:
                        m = dict(s.mem[r])
                        for p in stale:
                            m[p] = mk("hv", ("stale", site, rootkey(r), pathkey(p)))
                        s.mem[r] = m
        return s

    @staticmethod
    def mentions(st):
        """the symbols a state speaks about"""
        out = set()
        for f in st.facts:
            out |= syms(f) if isinstance(f, T) else syms(f[1])
        for m in st.mem.values():
            for v in m.values():
                if isinstance(v, T):
                    out |= syms(v)
        return out

    widened = {}
    ranges = False      # keep the range of joined numbers

    @staticmethod
    def hull(st, v):
        if not isinstance(v, T) or (v.op == "k" and not isinstance(v.a[0], int)):
            return None, None
        lo, hi = st.bounds(v)
        c, d = lin_parts(v)
        if v.op == "lin" and len(d) == 1:
            (x, m), = d.items()
            if isinstance(m, int) and m > 0:
                l, h = st.bounds(x)
                lo, hi = lo if l is None else c + m * l, hi if h is None else c + m * h
        return lo, hi

    def _dv(self, st, v):
        if v.op == "agg":
            return dv_of(v) if not (v.a[0] in ("tuple", "array", "closure") or is_struct(v.a[0])) else None
        if v.op in ("fld", "mem", "call", "pure", "phi", "upd"):
            return st.val(discr(v))
        return None

    STRUCT = ("enc", "patch", "app", "pure", "wire", "digest", "hctx", "lin", "fld", "eq", "lt", "trunc", "lenof")

    def leaf(self, va, vb, site, loop, loc, new):
        if loop:
            t = mk("phi", site, rootkey(loc[0]), pathkey(loc[1]), *loc[2:])
        else:
            t = mk("phi", site, va, vb, *[x for x in loc[2:] if x in ("lo", "hi", "v")])
        new.append(t)
        self._leaves.append((t, va, vb))
        return t

    def phi(self, va, vb, site, loop, loc, new):
        if va is vb:
            return va
        if va.op == "agg" and vb.op == "agg" and va.a[:3] == vb.a[:3] and len(va.a[3]) == len(vb.a[3]):
            return AGG(va.a[0], va.a[1], va.a[2], [self.phi(x, y, site, loop, loc + (i,), new) for i, (x, y) in enumerate(zip(va.a[3], vb.a[3]))])
        if va.op == "ref" and vb.op == "ref" and va.a[:2] == vb.a[:2]:
            return REF(va.a[0], va.a[1], va.a[2] if va.a[2] is vb.a[2] else None)
        if va.op in ("enc", "patch") and vb.op in ("enc", "patch"):
            ba, na = unpatch(va)
            bb, nb = unpatch(vb)
            if na != nb and ba.op == "enc" and bb.op == "enc":
                # differently often patched: one patch of unknown range and content
                base = self.phi(ba, bb, site, loop, loc + ("b",), new)
                return mk("patch", base, *[self.leaf(va, vb, site, loop, loc + (i,), new) for i in ("lo", "hi", "v")])
        if va.op == vb.op and va.op in ("enc", "patch", "app", "pure", "wire", "digest", "hctx") and len(va.a) == len(vb.a):
            n0 = len(new)
            r = self.anti(va.a, vb.a, site, loop, loc, new)
            if r is not None:
                return mk(va.op, *r)
            del new[n0:]
        return self.leaf(va, vb, site, loop, loc, new)

    def anti(self, xa, xb, site, loop, loc, new):
        out = []
        for i, (x, y) in enumerate(zip(xa, xb)):
            if x is y or x == y:
                out.append(x)
            elif isinstance(x, T) and isinstance(y, T):
                out.append(self.phi(x, y, site, loop, loc + (i,), new))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                r = self.anti(x, y, site, loop, loc + (i,), new)
                if r is None:
                    return None
                out.append(r)
            else:
                return None
        return tuple(out)

    tokens = {}
    fills = False       # summarise loops that copy or fill a buffer
    peel = 0            # follow that many rounds of each loop without joining, and no further

    def loop_join(self, fr, bb, sts, acc):
        out = []
        if self.peel:
            k = ("rounds", fr.ctx, bb)
            for s in sts:
                n = s.ev.get(k, 0) + 1
                if n <= self.peel + 1:
                    s.ev[k] = n
                    out.append(s)
            return out
        for s in self.reduce(fr, bb, sts) if len(sts) > 1 else sts:
            k = self.key0(fr, s, bb)
            if self.fills:
                # states that come to the loop from outside stay apart
                e = ("in", fr.ctx, bb)
                if e not in s.ev:
                    x = self.tokens.setdefault((e, self.exact(s)), len(self.tokens))
                    s.ev[e] = min(x, 400)
                k = (k, s.ev[e])
            if k not in acc and len(acc) >= max(40, self.B1) and "wlog" not in s.ev:
                k = ("⊤",)
            if k in acc:
                j = self.join(acc[k], s, (fr.ctx, fr.fn.id, bb), True, "'at'" in repr(k[0]))
                if self.exact(j) == self.exact(acc[k]):
                    continue
                acc[k] = j
                out.append(j.copy())
            else:
                acc[k] = s.copy()
                out.append(s)
        return out

    # ------------------------------------------------------------ stepping
    def step(self, fr, bb, st):
        fn = fr.fn
        stmts, term = fn.bbs[bb]
        for s in stmts:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], s[1], s[3])
                root, path = self.loc(st, fr, s[1])
                self.wr(st, fr, root, path, v, s[3])
            elif s[0] == "setdiscr":
                root, path = self.loc(st, fr, s[1])
                st.write(root, path, mk("hv", ("setdiscr", fr.ctx, bb)))
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            if self.on_drop is not None:
                self.on_drop(self, st, fr, bb, term)
            return [(term[2], st)]
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if self.hooks is not None:
                self.hooks.on_assert(self, st, fr, bb, term, c)
            if not st.assume(c, term[2]):
                return []
            return [(term[4], st)]
        if k == "switch":
            return self.switch(fr, bb, st, term)
        if k == "call":
            return self.call(fr, bb, st, term)
        return []

    def switch(self, fr, bb, st, term):
        if bb in fr.fn.counting:
            r = fill.while_test(self, fr, bb, st, term)
            if r is not None:
                return r
        d = self.operand(st, fr, term[1])
        ty = self.prog.tys[fr.fn.crate][term[4]]
        outs = []
        if ty["k"] == "bool":
            self.note_test(d, fr, bb)
            sp = bool_pair(d)
            if sp is not None and st.truth(d) is None:
                # two truth values compared: one of them is decided first
                x, y, same = sp
                tb = {bool(v): b for v, b in term[2]}
                for vx in (False, True):
                    for vy in (False, True):
                        s = st.copy()
                        if s.assume(x, vx) and s.assume(y, vy):
                            outs.append((tb.get((vx == vy) == same, term[3]), s))
                return outs
            for v, tb in term[2]:
                s = st.copy()
                if s.assume(d, bool(v)):
                    outs.append((tb, s))
            seen = [bool(v) for v, _ in term[2]]
            for b in (False, True):
                if b not in seen:
                    if st.assume(d, b):
                        outs.append((term[3], st))
                    break
            return outs
        self.note_test(d, fr, bb)
        known = st.val(d)
        if known is not None:
            for v, tb in term[2]:
                if v == known:
                    return [(tb, st)]
            return [(term[3], st)]
        # the otherwise block is unreachable when every value is covered
        if self.split is not None and len(set(tb for _, tb in term[2])) >= 5 and "split" not in st.may:
            # work sharing between processes: each explores its part of the first dispatch
            i, n = self.split
            tl = sorted(set(tb for _, tb in term[2]) | {term[3]})
            keep = {tb for j, tb in enumerate(tl) if j % n == i}
            st.may = st.may | {"split"}
        else:
            keep = None
        other_unreach = fr.fn.bbs[term[3]] is None or fr.fn.bbs[term[3]][1][0] == "unreachable"
        targets = {}
        for v, tb in term[2]:
            targets.setdefault(tb, []).append(v)
        for tb, vs in targets.items():
            if keep is not None and tb not in keep:
                continue
            if len(vs) == 1:
                s = st.copy()
                if s.assume_eq(d, vs[0]):
                    outs.append((tb, s))
            elif len(vs) >= 3:
                # many values share a target: record the exclusions only
                s = st.copy()
                ok = True
                for v, tb2 in term[2]:
                    if tb2 != tb and not s.assume_ne(d, v):
                        ok = False
                        break
                if ok and any(s.truth(eq(d, K(v))) is not False for v in vs):
                    outs.append((tb, s))
            else:
                for v in vs:
                    s = st.copy()
                    if s.assume_eq(d, v):
                        outs.append((tb, s))
        if not other_unreach and (keep is None or term[3] in keep):
            ok = True
            for v, _ in term[2]:
                if not st.assume_ne(d, v):
                    ok = False
                    break
            if ok and d.op != "k":
                # only one variant left
                vs = self.variants_at(fr, bb, term)
                if vs is not None:
                    f = st.facts.get(d)
                    rest = vs - f[1] if f is not None and f[0] == "!" else vs
                    ok = bool(rest) and (len(rest) > 1 or st.assume_eq(d, next(iter(rest))))
            if ok:
                outs.append((term[3], st))
        return outs

    def variants_at(self, fr, bb, term):
        """discriminants of the enum whose discriminant the switch ending bb looks at"""
        c = self.__dict__.setdefault("_vat", {})
        k = (fr.fn.id, bb)
        if k not in c:
            c[k] = None
            o = term[1]
            if o[0] in ("cp", "mv", "copy", "move"):
                for s in fr.fn.bbs[bb][0]:
                    if s[0] == "=" and s[1] == o[1] and s[2][0] == "discr":
                        t = self.prog.tys[fr.fn.crate][s[2][2]]
                        if t["k"] == "adt" and t["p"] in self.prog.adts:
                            c[k] = frozenset(v["d"] for v in self.prog.adts[t["p"]]["v"])
        return c[k]

    def note_test(self, d, fr, bb):
        if d.op in ("k",):
            return
        st = [d]
        while st:
            x = st.pop()
            if x.op == "not":
                st.append(x.a[0])
                continue
            if x.op in ("band", "bor"):
                st += list(x.a)
                continue
            if x.op == "eq" and x.a[1].op == "k":
                x = x.a[0]
            self.tested.setdefault(x, set()).add((fr.ctx, bb))

    # ------------------------------------------------------------ calls
    def call(self, fr, bb, st, term):
        f, argops, dest, target, span = term[1], term[2], term[3], term[4], term[5]
        self.callsites += 1
        args = [self.operand(st, fr, a) for a in argops]
        cctx = ctx_push(fr.ctx, fr.fn.id, bb)
        if f[0] == "k" and "fn" in f[1]:
            c = f[1]
            rid, tname = c.get("r", c["fn"]), c["fn"]
            rk = c.get("rk")
            ga = [self.prog.tys[fr.fn.crate][g] for g in c["ga"] if isinstance(g, int)]
        else:
            v = self.operand(st, fr, f)
            if v.op == "fn":
                rid, tname, rk, ga = v.a[0], v.a[1], "item", []
            elif v.op == "agg" and v.a[0] == "closure":
                rid, tname, rk, ga = v.a[2], v.a[2], "item", []
            else:
                rid, tname, rk, ga = "<indirect>", "<indirect>", None, []
                args = [v] + args
        call = Call(self, fr, bb, cctx, rid, tname, rk, ga, span, f)
        outs = self.dispatch(call, args, st)
        res = []
        if target is None:
            return []
        for s, v in outs:
            root, path = self.loc(s, fr, dest)
            self.wr(s, fr, root, path, v, span)
            res.append((target, s))
        return res

    def dispatch(self, call, args, st):
        if self.hooks is not None:
            r = self.hooks.on_call(self, call, args, st)
            if r is not None:
                return r
        n = norm(call.tname)
        fn = self.prog.fns.get(call.rid)
        m = self.ext.get(n)
        if m is None and fn is None:
            m = self.ext.get(norm(call.rid))
        if m is not None:
            r = m(self, call, args, st)
            if r is not None:
                return r
        if fn is not None:
            pol = self.policy(fn)
            if callable(pol):
                r = pol(self, call, args, st)
                if r is not None:
                    return r
            elif pol == "inline":
                if self.stackfns.count(fn.id) >= 2:
                    # bounded unrolling: deeper incarnations of a recursive call add no new
                    # outcome when its abstract arguments repeat (recorded for the evidence)
                    self.recursion.add(fn.name)
                    return []
                if fn.closure and call.tname != call.rid:
                    # FnOnce/Fn/FnMut call shims: args = (closure, (args...))
                    return self.call_closure(call, args[0], unpack(args[1]) if len(args) > 1 else [], st)
                return self.exec_fn(fn, [(st, args)], call.ctx)
            elif pol == "pure":
                return [(st, self.pure(fn.name, args, st))]
            return self.opaque(call, args, st)
        return self.opaque(call, args, st)

    def call_closure(self, call, clo, cargs, st, tag=0):
        """invoke a closure or fn item value"""
        if clo.op == "ref":
            inner = self.content(st, clo)
        else:
            inner = clo
        if inner.op == "fn":
            c2 = Call(self, call.fr, call.bb, ctx_push(call.ctx, inner.a[0], ("fn", tag)), inner.a[0], inner.a[1], "item", [], call.span, None)
            return self.dispatch(c2, cargs, st)
        if inner.op == "agg" and inner.a[0] == "closure":
            fn = self.prog.fns.get(inner.a[2])
            if fn is not None:
                ctx = ctx_push(call.ctx, fn.id, ("clo", tag))
                t = self.prog.tys[fn.crate][fn.locals[1]]
                if t["k"] == "ref":
                    if clo.op == "ref":
                        self_arg = clo
                    else:
                        root = ("T", ctx)
                        st._set(root, (), inner)
                        self_arg = REF(root, ())
                else:
                    self_arg = inner
                return self.exec_fn(fn, [(st, [self_arg] + list(cargs))], ctx)
        return [(st, self.fresh(call, st, "closure"))]

    def fresh(self, call, st, tag="", args=()):
        return self.fresh_at(st, call.name, call.ctx, tag, args)

    def fresh_at(self, st, name, ctx, tag="", args=()):
        t = mk("call", name, (ctx, tag) if tag else ctx, tuple(args))
        key = (ctx, tag)
        old = st.calls.get(key)
        marker = ("site", ctx, tag)
        if marker in st.may:
            # re-execution: forget everything about earlier incarnations
            for o in [o for k, o in list(st.calls.items()) if k == key]:
                st.purge(o.id, ctx)
            st.purge(t.id, ctx)
        st.may = st.may | {marker}
        st.calls[key] = t
        return t

    def pure(self, name, args, st):
        return mk("pure", name, tuple(self.deep(st, a) for a in args))

    def deep(self, st, a, n=0):
        """argument value with references replaced by the content they point to"""
        if n > 4:
            return a
        if a.op == "ref":
            return mk("at", self.deep(st, self.rd(st, a.a[0], a.a[1]), n + 1)) if False else self.deep(st, self.rd(st, a.a[0], a.a[1]), n + 1)
        return a

    def opaque(self, call, args, st, keep=()):
        """unknown callee: fresh result, memory reachable through &mut arguments is havocked"""
        self.opaque_called[call.name] = self.opaque_called.get(call.name, 0) + 1
        vals = tuple(self.deep(st, a) for a in args)
        t = self.fresh(call, st, "", vals)
        for i, a in enumerate(args):
            if i in keep:
                continue
            if call.arg_is_mut(i):
                self.havoc(st, call, a, i)
        return [(st, t)]

    def havoc(self, st, call, a, i):
        r, p = self.deref(a)
        h = mk("hv", (call.name, call.ctx, i))
        h = mk("call", call.name + "!out%d" % i, call.ctx, ())
        self.wr(st, call.fr, r, p, h, call.span)


def norm_idx(path, ix):
    if path and path[-1][0] == "sl":
        return path[:-1] + (("i", add(path[-1][1], ix)),)
    return path + (("i", ix),)


def patch(base, lo, hi, v):
    if base.op == "patch" and base.a[1] is lo and base.a[2] is hi:
        base = base.a[0]
    if hi is not None and lo.op == "k" and lo.a[0] == 0 and base.op == "rep" and isinstance(base.a[1], int) and hi.op == "k" and hi.a[0] == base.a[1]:
        return v
    return mk("patch", base, lo, hi, v)


def unpack(t):
    if t.op == "agg" and t.a[0] == "tuple":
        return list(t.a[3])
    if t.op == "unit":
        return []
    return [t]


class Frame:
    __slots__ = ("fn", "ctx")

    def __init__(self, fn, ctx):
        self.fn, self.ctx = fn, ctx


class Call:
    __slots__ = ("eng", "fr", "bb", "ctx", "rid", "tname", "rk", "ga", "span", "f", "fn")

    def __init__(self, eng, fr, bb, ctx, rid, tname, rk, ga, span, f):
        self.eng, self.fr, self.bb, self.ctx, self.rid, self.tname, self.rk, self.ga, self.span, self.f = eng, fr, bb, ctx, rid, tname, rk, ga, span, f
        self.fn = eng.prog.fns.get(rid)

    @property
    def name(self):
        return self.fn.name if self.fn is not None else norm(self.tname)

    def arg_is_mut(self, i):
        """declared type of argument i is &mut / *mut"""
        if self.fn is not None and i + 1 < len(self.fn.locals):
            t = self.eng.prog.tys[self.fn.crate][self.fn.locals[i + 1]]
            return t["k"] in ("ref", "ptr") and t["m"]
        term = self.fr.fn.bbs[self.bb][1]
        if term[0] == "call" and i < len(term[2]):
            o = term[2][i]
            if o[0] in ("cp", "mv") and isinstance(o[1], int):
                t = self.eng.prog.tys[self.fr.fn.crate][self.fr.fn.locals[o[1]]]
                return t["k"] in ("ref", "ptr") and t["m"]
        return False

    def where(self):
        s = self.span
        return f"{s[0]}:{s[1]} in {short(self.fr.fn.name)}"


def short(n):
    return "::".join(n.split("::")[-2:])


class Hooks:
    def on_call(self, eng, call, args, st):
        return None

    def on_write(self, eng, st, fr, root, path, v, span):
        pass

    def on_assert(self, eng, st, fr, bb, term, c):
        pass
