"""Hash-consed symbolic value terms (value numbers)."""


class T:
    __slots__ = ("op", "a", "id", "_syms", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, _n[0]
        t._syms = None
        _n[0] += 1
        _tab[k] = t
    return t


def K(v):
    if v is True:
        v = 1
    elif v is False:
        v = 0
    return mk("k", v)


TRUE, FALSE = K(1), K(0)
UNIT = mk("unit")


def is_k(t):
    return t.op == "k"


def AGG(adt, vi, vn, fields):
    return mk("agg", adt, vi, vn, tuple(fields))


def REF(root, path=(), ln=None):
    return mk("ref", root, tuple(path), ln)


OPT, RES, CF = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"


def SOME(x):
    return AGG(OPT, 1, "Some", (x,))


NONE = AGG(OPT, 0, "None", ())


def OK(x):
    return AGG(RES, 0, "Ok", (x,))


def ERR(x):
    return AGG(RES, 1, "Err", (x,))


def F(n):
    return ("f", str(n))


def V(n):
    return ("v", n)


def syms(t):
    """ids of opaque symbols (calls, havocs, phis) occurring in t"""
    s = t._syms
    if s is None:
        out = set()
        if t.op in ("call", "hv", "phi"):
            out.add(t.id)
        _syms(t.a, out)
        s = t._syms = frozenset(out)
    return s


def _syms(a, out):
    for x in a:
        if isinstance(x, T):
            out |= syms(x)
        elif isinstance(x, tuple):
            _syms(x, out)


def subterms(t, seen=None):
    """all T nodes reachable (including through tuples)"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def _sp(e):
    if isinstance(e, T):
        return show(e, 6)
    if e[0] == "f":
        return "." + e[1]
    if e[0] == "v":
        return "@" + e[1]
    if e[0] == "i":
        return f"[{show(e[1])}]"
    if e[0] == "sl":
        return f"[{show(e[1])}..{show(e[2]) if e[2] is not None else ''}]"
    return str(e)


def _root(r):
    if r[0] == "D":
        return f"(*{show(r[1])})"
    if r[0] == "L":
        return f"L{r[2]}"
    return "<" + ",".join(show(x) if isinstance(x, T) else str(x) for x in r) + ">"


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    if o == "k":
        return str(a[0])
    if o == "agg":
        n = (a[0] or "").split("::")[-1]
        v = f"::{a[2]}" if a[2] != n else ""
        return f"{n}{v}({', '.join(show(x, d+1) for x in a[3])})"
    if o == "ref":
        return "&" + _root(a[0]) + "".join(_sp(e) for e in a[1])
    if o == "mem":
        return _root(a[0]) + "".join(_sp(e) for e in a[1])
    if o == "fld":
        return show(a[0], d + 1) + _sp(a[1])
    if o == "call":
        return f"{a[0].split('::')[-1]}#{a[1]}({', '.join(show(x, d+1) for x in a[2])})"
    if o == "lin":
        return "(" + "+".join([f"{'' if c == 1 else str(c)+'*'}{show(x, d+1)}" for x, c in a[1]] + ([str(a[0])] if a[0] else [])) + ")"
    if o == "pure":
        return f"{a[0].split('::')[-1]}({', '.join(show(x, d+1) for x in a[1])})"
    return f"{o}({', '.join(show(x, d+1) if isinstance(x, (T, tuple)) else str(x) for x in a)})"


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    if t.op == "k" and isinstance(t.a[0], int):
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin_make(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(x, y, sx=1, sy=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    d = {t: k * sx for t, k in d1.items()}
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k * sy
    return lin_make(c1 * sx + c2 * sy, d)


def sub(x, y):
    return add(x, y, 1, -1)


def scale(x, k):
    c, d = lin_parts(x)
    return lin_make(c * k, {t: v * k for t, v in d.items()})


BOOLOPS = ("eq", "lt", "not", "band", "bor", "bxor")


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == "k" and y.op == "k":
        return K(int(x.a[0] == y.a[0]))
    if x.op == "agg" and y.op == "agg":
        if x.a[0] == y.a[0] and x.a[1] != y.a[1]:
            return FALSE
        if x.a[0] == y.a[0] and len(x.a[3]) == len(y.a[3]):
            r = TRUE
            for p, q in zip(x.a[3], y.a[3]):
                r = band(r, eq(p, q))
            return r
    if x.op == "lin" and y.op == "k":
        # move constant
        c, d = lin_parts(x)
        if c != 0:
            return eq(lin_make(0, d), K(y.a[0] - c))
    if y.op == "lin" and x.op == "k":
        return eq(y, x)
    if y.op == "k" and x.op in BOOLOPS:
        return x if y.a[0] == 1 else not_(x)
    if x.op == "k" and y.op in BOOLOPS:
        return eq(y, x)
    # unit-like enum constant compared with an unknown: compare discriminants
    if y.op == "agg" and not y.a[3] and x.op != "agg":
        if is_struct(y.a[0]):
            return TRUE
        return eq(discr(x), K(dv_of(y)))
    if x.op == "agg" and not x.a[3] and y.op != "agg":
        return eq(y, x)
    if y.op == "agg" and is_struct(y.a[0]) and x.op != "agg":
        r = TRUE
        for i, q in enumerate(y.a[3]):
            r = band(r, eq(fld(x, ("f", field_name(y.a[0], i))), q))
        return r
    if x.op == "agg" and is_struct(x.a[0]) and y.op != "agg":
        return eq(y, x)
    if x.op == "k":
        x, y = y, x
    if y.op != "k" and y.id < x.id:
        x, y = y, x
    return mk("eq", x, y)


ADTS = {}


def set_adts(adts):
    ADTS.clear()
    ADTS.update(adts)


def dv_of(agg):
    a = ADTS.get(agg.a[0])
    if a and a["k"] == "enum":
        return a["v"][agg.a[1]]["d"]
    return agg.a[1]


def is_struct(adt):
    a = ADTS.get(adt)
    return a is not None and a["k"] == "struct"


def field_name(adt, i, vi=0):
    a = ADTS.get(adt)
    if a is None:
        return str(i)
    fs = a["v"][vi]["f"]
    return fs[i][0] if i < len(fs) else str(i)


def field_index(adt, name, vi=0):
    a = ADTS.get(adt)
    if a is None:
        return int(name) if name.isdigit() else None
    for i, f in enumerate(a["v"][vi]["f"]):
        if f[0] == name:
            return i
    return None


def discr_raw(t):
    return mk("discr", t)


def discr(t):
    if t.op == "agg":
        return K(dv_of(t))
    if t.op == "upd":
        # only meaningful if the discriminant was not overwritten
        for p, v in t.a[1]:
            if p == (("discr",),):
                return v
        return discr(t.a[0]) if t.a[0].op != "undef" else discr_raw(t)
    if t.op == "k":
        return t
    return discr_raw(t)


def not_(x):
    if x.op == "k":
        return K(1 - x.a[0])
    if x.op == "not":
        return x.a[0]
    return mk("not", x)


def band(x, y):
    if x.op == "k":
        return y if x.a[0] else FALSE
    if y.op == "k":
        return x if y.a[0] else FALSE
    if x is y:
        return x
    return mk("band", x, y)


def bor(x, y):
    if x.op == "k":
        return TRUE if x.a[0] else y
    if y.op == "k":
        return TRUE if y.a[0] else x
    if x is y:
        return x
    return mk("bor", x, y)


def lt(x, y):
    if x.op == "k" and y.op == "k":
        return K(int(x.a[0] < y.a[0]))
    if x is y:
        return FALSE
    # normalise: move the constant of a linear form to the other side
    if x.op == "lin" and y.op == "k":
        c, d = lin_parts(x)
        if c:
            return lt(lin_make(0, d), K(y.a[0] - c))
    if y.op == "lin" and x.op == "k":
        c, d = lin_parts(y)
        if c:
            return lt(K(x.a[0] - c), lin_make(0, d))
    if y.op == "k" and y.a[0] == 0:
        return FALSE if not is_signed_hint(x) else mk("lt", x, y)
    return mk("lt", x, y)


def is_signed_hint(x):
    return x.op == "lin" and any(k < 0 for _, k in x.a[1])


def boxlike(owner):
    return owner in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull")


def fld(t, e):
    """project a value by one path element"""
    o = t.op
    if o == "agg":
        adt, vi, vn, fs = t.a
        if e[0] == "v":
            return t if e[1] == vn else mk("bottom")
        if e[0] == "f":
            if adt in ("tuple", "closure", "array"):
                i = int(e[1])
            else:
                i = field_index(adt, e[1], vi)
            if i is not None and i < len(fs):
                return fs[i]
        if e[0] == "i" and adt == "array":
            if e[1].op == "k" and 0 <= e[1].a[0] < len(fs):
                return fs[e[1].a[0]]
        if e[0] == "sl" and adt == "array" and e[1].op == "k" and e[2] is not None and e[2].op == "k":
            return AGG("array", 0, "array", fs[e[1].a[0]:e[2].a[0]])
    elif o == "bytes":
        b = t.a[0]
        if e[0] == "i" and e[1].op == "k" and e[1].a[0] < len(b):
            return K(b[e[1].a[0]])
        if e[0] == "sl" and e[1].op == "k" and (e[2] is None or e[2].op == "k"):
            return mk("bytes", b[e[1].a[0]:(e[2].a[0] if e[2] is not None else None)])
    elif o == "rep":
        if e[0] == "i":
            return t.a[0]
        if e[0] == "sl":
            hi = e[2]
            n = None
            if hi is not None:
                n = sub(hi, e[1])
            elif isinstance(t.a[1], int):
                n = sub(K(t.a[1]), e[1])
            return mk("rep", t.a[0], n.a[0] if n is not None and n.op == "k" else n)
    elif o == "upd":
        base, subs = t.a
        if e[0] == "sl" and any(p[0][0] == "i" for p, _ in subs):
            # single elements seen through a slice
            inside = []
            for p, v in subs:
                if p[0][0] != "i":
                    if p[0] == e:
                        continue
                    return mk("fld", t, e)
                i = p[0][1]
                if i.op != "k" or e[1].op != "k":
                    return mk("fld", t, e)
                if i.a[0] < e[1].a[0]:
                    continue
                if e[2] is not None and e[2].op == "k" and i.a[0] >= e[2].a[0]:
                    continue
                inside.append(((("i", K(i.a[0] - e[1].a[0])),) + p[1:], v))
            if not any(p[0] == e for p, _ in subs):
                b = fld(base, e)
                return upd(b, inside) if inside else b
        exact, deeper = None, []
        for p, v in subs:
            if p[0] == e:
                if len(p) == 1:
                    exact = v
                else:
                    deeper.append((p[1:], v))
            elif e[0] == "i" and p[0][0] == "i" and not (e[1].op == "k" and p[0][1].op == "k"):
                return mk("fld", t, e)
        b = exact if exact is not None else (fld(base, e) if not (deeper and False) else None)
        if deeper:
            return upd(b, deeper)
        return b
    elif o == "ref":
        # Box internals collapse onto the pointer itself
        return t
    elif o == "patch":
        # patch(base, lo, hi, v)
        b, lo, hi, v = t.a
        if e[0] == "sl":
            if e[1] is lo and e[2] is hi:
                return v
            if e[2] is not None and (e[2] is lo or (e[2].op == "k" and lo.op == "k" and e[2].a[0] <= lo.a[0])):
                return fld(b, e)
        if e[0] == "i" and e[1].op == "k" and lo.op == "k" and hi is not None and hi.op == "k":
            i = e[1].a[0]
            if lo.a[0] <= i < hi.a[0]:
                return fld(v, ("i", K(i - lo.a[0])))
            return fld(b, e)
        if e[0] == "i" and e[1].op == "k" and lo.op == "k" and e[1].a[0] < lo.a[0]:
            return fld(b, e)
        if e[0] == "i" and e[1].op == "k" and e[1].a[0] < 4 and lo.op != "k" and b.op in ("enc", "patch"):
            return fld(b, e)
    elif o == "enc":
        if e[0] == "i" and e[1].op == "k":
            r = header_byte(t, e[1].a[0])
            if r is not None:
                return r
    elif o == "mem":
        return mk("mem", t.a[0], t.a[1] + (e,), t.a[2])
    elif o == "fld" and e[0] == "i" and t.a[1][0] == "sl":
        return fld(t.a[0], ("i", add(t.a[1][1], e[1])))
    elif o == "fld" and e[0] == "sl" and t.a[1][0] == "sl":
        lo = add(t.a[1][1], e[1])
        hi = add(t.a[1][1], e[2]) if e[2] is not None else t.a[1][2]
        return fld(t.a[0], ("sl", lo, hi))
    if e[0] == "sl" and e[1].op == "k" and e[1].a[0] == 0:
        if e[2] is None or e[2] is mk("len", t):
            return t
    if o == "bottom" or o == "undef":
        return t
    return mk("fld", t, e)


HEADER = ("version", "request_response_code")
BYTE_OF = {}


def header_byte(t, i):
    """byte i (0: version, 1: code) of a buffer whose first message was encoded at offset 0.
    (That SPDM messages start with these two bytes is decided by the codec layout rule.)"""
    if i > 1:
        return None
    x = t
    while x.op in ("enc", "patch"):
        if x.op == "enc" and x.a[2].op == "k" and x.a[2].a[0] == 0:
            m = x.a[1]
            if m.op != "agg":
                return None
            if field_index(m.a[0], "header") is not None:
                c = fldp(m, (F("header"), F(HEADER[i])))
            elif field_index(m.a[0], HEADER[i]) is not None:
                c = fld(m, F(HEADER[i]))
            else:
                return None
            if c.op == "agg":
                b = BYTE_OF.get((c.a[0], c.a[2]))
                if b is not None:
                    return K(b)
            return mk("pure", "enumval", (c,))
        if x.op == "patch" and x.a[1].op == "k" and x.a[1].a[0] <= i:
            return None
        x = x.a[0]
    return None


def fldp(t, path):
    for e in path:
        t = fld(t, e)
    return t


def upd(base, subs):
    subs = tuple(sorted(((tuple(p), v) for p, v in subs), key=lambda x: repr_path(x[0])))
    if not subs:
        return base
    if base.op == "agg" and all(len(p) == 1 and p[0][0] == "f" for p, _ in subs):
        adt, vi, vn, fs = base.a
        fs = list(fs)
        ok = True
        for p, v in subs:
            i = int(p[0][1]) if adt in ("tuple", "closure") else field_index(adt, p[0][1], vi)
            if i is None or i >= len(fs):
                ok = False
                break
            fs[i] = v
        if ok:
            return AGG(adt, vi, vn, fs)
    if base.op == "upd":
        d = {p: v for p, v in base.a[1]}
        for p, v in subs:
            for q in [q for q in d if q[:len(p)] == p]:
                del d[q]
            d[p] = v
        return upd(base.a[0], list(d.items()))
    return mk("upd", base, subs)


def repr_path(p):
    return tuple((e[0], e[1].id if len(e) > 1 and isinstance(e[1], T) else (e[1] if len(e) > 1 else ""), e[2].id if len(e) > 2 and isinstance(e[2], T) else "") .__repr__() for e in p)
