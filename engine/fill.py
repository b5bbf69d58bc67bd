"""Loops that copy or set a stretch of a buffer element by element, summarised as one write.

A `for` loop over an iterator whose k-th element is known (slice, array, range, enumerate, take, zip) is followed once
per kind of round with a symbolic round number ix = 0, 1, .. count - 1.  When the first round and every later one make
the same writes buf[lo + ix] = src[c + ix] (or the same value), and the loop ends because the iterator is exhausted,
then afterwards buf[lo .. lo + count] = src[c .. c + count] and the rest of buf is as it was before the first round.

The rounds under way are kept in st.ev["fills"]: (ix, rule, writes of this round); rule is None in the first round."""
from terms import *
from lin import Lin

BROKEN = "broken"
WIRE = None     # follows what loops write and read (wire.Loops)
KNOWN = {}      # round number -> symbols that exist whenever its loop is entered


def note(st, root, path, v):
    out = []
    for ix, rule, ws in st.ev["fills"]:
        if rule == BROKEN:
            continue
        n = next((i for i, e in enumerate(path) if e[0] == "i" and isinstance(e[1], T) and sym(ix) in syms(e[1])), None)
        if n is None or n != len(path) - 1:
            w = ("other", root, path if n is None else path[:n])
        else:
            w = ("at", root, path[:n], sub(path[n][1], ix), v)
            if not plain(ix, w) or rule is not None and w not in [x[:5] for x in rule]:
                continue
            if rule is None:
                w += (st.read(root, path[:n]),)
        if any(x[:3] != w[:3] and x[1] == root and overlap(x[2], w[2]) and "at" in (x[0], w[0]) for x in ws):
            continue
        if w not in ws:
            ws = ws + (w,)
        out.append((ix, rule, ws))
    keep(st, out)


def keep(st, fills):
    """loops that follow no rule are dropped"""
    fills = tuple(f for f in fills if f[1] != BROKEN)
    if fills:
        st.ev["fills"] = fills
    else:
        st.ev.pop("fills", None)


def ats(ws):
    return tuple(w for w in ws if w[0] == "at")


def shape(st):
    """the rounds under way but for the writes to other places"""
    return tuple((ix, rule, ats(ws)) for ix, rule, ws in st.ev.get("fills", ()))


def both(st, a, b):
    """two paths through a round meet"""
    out = []
    for f in a:
        for g in b:
            if f[0] is g[0]:
                same = f[1] == g[1] and ats(f[2]) == ats(g[2])
                out.append((f[0], f[1] if same else BROKEN, f[2] + tuple(w for w in g[2] if w not in f[2])))
    keep(st, out)


def plain(ix, w):
    """place and value follow from the round number alone"""
    _, root, pre, lo, v = w[:5]
    return not (syms(lo) | syms(v)) - {sym(ix)} - KNOWN.get(ix, frozenset()) and sym(ix) not in syms(lo) and (sym(ix) not in syms(v) or source(v, ix) is not None)


def forget(st, sym_id):
    """a symbol is re-created: what was written with its old value follows no rule"""
    keep(st, [(ix, BROKEN if sym(ix) != sym_id and any(isinstance(y, T) and sym_id in syms(y) for w in (*(rule if isinstance(rule, tuple) else ()), *ws) for y in w if w[0] == "at") else rule, ws)
              for ix, rule, ws in st.ev["fills"]])


def sym(ix):
    while ix.op == "fld":
        ix = ix.a[0]
    return ix.id


def overlap(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def judge(ix, rule, ws):
    """the rule the finished round follows"""
    ats = tuple(w for w in ws if w[0] == "at")
    if rule is None:
        return ats or BROKEN
    if rule == BROKEN or [w[:5] for w in rule] != [w[:5] for w in ats]:
        return BROKEN
    return rule


def source(v, ix):
    """v = s[c + ix]: (s, c)"""
    if v.op == "fld" and v.a[1][0] == "i" and v.a[1][1] is not None:
        s, i = v.a[0], v.a[1][1]
    elif v.op == "mem" and v.a[1] and v.a[1][-1][0] == "i":
        s, i = mk("mem", v.a[0], v.a[1][:-1], *v.a[2:]), v.a[1][-1][1]
    else:
        return None
    c = sub(i, ix)
    if sym(ix) in syms(s) or sym(ix) in syms(c):
        return None
    return s, c


def count(eng, it, st):
    """how many rounds an exhausted iterator has made, if that is known"""
    k = it.a[0]
    if k in ("iter:slice", "iter:array"):
        return it.a[3][1]
    if k == "iter:range":
        n = sub(it.a[3][1], it.a[3][0])
        return n if it.a[3][0] is K(0) and WIRE or Lin(st).proves_le(K(0), n) else None
    if k in ("iter:enum", "iter:rev", "iter:copied"):
        return count(eng, it.a[3][0], st)
    if k == "iter:skip":
        x = count(eng, it.a[3][0], st)
        return sub(x, it.a[3][1]) if x is not None and Lin(st).proves_le(it.a[3][1], x) else None
    if k in ("iter:take", "iter:zip"):
        x = count(eng, it.a[3][0], st)
        y = it.a[3][1] if k == "iter:take" else count(eng, it.a[3][1], st)
        if x is None or y is None:
            return None
        l = Lin(st)
        return x if x is y or l.proves_le(x, y) else y if l.proves_le(y, x) else None
    return None


def step(eng, call, st, at, it, started, base, ix, item):
    """one call of next() with a symbolic round number"""
    import models
    fills = st.ev.get("fills", ())
    mine = next((f for f in fills if f[0] is ix), None)
    rest = tuple(f for f in fills if f[0] is not ix)
    rule = None
    if not started:
        now = frozenset(eng.mentions(st))
        KNOWN[ix] = KNOWN[ix] & now if ix in KNOWN else now
    if started:
        rule = judge(*mine) if mine is not None else BROKEN
    d = discr(base)
    b = models.iter_bound(it)
    out = []
    if WIRE and not started:
        WIRE.fits(st, it)
    s = st.copy()
    if s.assume_eq(d, 1):
        ok = True
        if WIRE and not started and not WIRE.some(s, count(eng, it, s)):
            ok = s.assume(FALSE, True)
            s = None
    else:
        s = None
    if s is not None:
        for c in (b, *(bounds(it))):
            if c is not None:
                ok = s.assume(lt(ix, c), True) and ok
        keep(s, rest)
        eng.wr(s, call.fr, at[0], at[1], AGG("iter:run", 0, "run", (it,)), call.span)
        keep(s, s.ev.get("fills", ()) + ((ix, rule, ()),))
        if WIRE:
            WIRE.round(s, ix, started)
        out.append((s, models.SOME(item)))
    if st.assume_eq(d, 0):
        keep(st, rest)
        n = count(eng, it, st)
        if not started:
            if n is not None and not st.assume(lt(K(0), n), False):
                return out
        elif rule != BROKEN and rule and n is not None:
            if not st.assume(lt(K(0), n), True):
                return out
            settle(eng, st, ix, rule, n)
        if WIRE:
            WIRE.end(st, ix, n, started)
        out.append((st, models.NONE))
    return out


def settle(eng, st, ix, rule, n):
    """what n rounds that follow the rule have written"""
    from interp import patch
    for _, root, pre, lo, v, old in rule:
        src = source(v, ix)
        if src is None:
            v = mk("rep", v, n.a[0] if n.op == "k" else n)
        else:
            v = fld(src[0], ("sl", src[1], add(src[1], n)))
        eng.put(st, root, pre, patch(old, lo, add(lo, n), v))


def bounds(it):
    """every limit on the round number"""
    k = it.a[0] if it.op == "agg" else ""
    if k in ("iter:take", "iter:zip"):
        yield from bounds(it.a[3][0])
        if k == "iter:take":
            yield it.a[3][1]
        else:
            yield from bounds(it.a[3][1])
    elif k in ("iter:enum", "iter:rev", "iter:copied"):
        yield from bounds(it.a[3][0])
    elif k == "iter:skip":
        for b in bounds(it.a[3][0]):
            yield sub(b, it.a[3][1])
    elif k in ("iter:slice", "iter:array"):
        yield it.a[3][1]
    elif k == "iter:range":
        yield sub(it.a[3][1], it.a[3][0])


# ---- loops `while i < n { .. i += 1 .. }`; st.ev[("wh", ctx, head)] is (start, n, round number) or ("u",) when followed round by round

def while_test(eng, fr, bb, st, term):
    """the test of such a loop; None: treat it like any other switch"""
    h, i, n, yes, no, _ = fr.fn.counting[bb]
    key, cell = ("wh", fr.ctx, h), ("L", fr.ctx, i)
    v, b = st.read(cell, ()), eng.operand(st, fr, n)
    w = st.ev.get(key)
    if w is None:
        if v.op == "k" and b.op == "k":
            if b.a[0] - v.a[0] <= eng.unroll or eng.short_table(st, fr.ctx, b.a[0]):
                st.ev[key] = ("u",)
                return None
        if not eng.fills:
            import models
            from interp import Call, ctx_push
            out = []
            s = st.copy()
            if s.assume(lt(v, b), True):
                call = Call(eng, fr, bb, ctx_push(fr.ctx, fr.fn.id, ("while", bb)), "while", "while", "item", [], None, None)
                out += [(yes, s2) for s2 in models.forall_at(eng, call, s, v, b)]
            if st.assume(lt(v, b), False):
                out.append((no, st))
            return out
        base = eng.fresh_at(st, "while", (fr.ctx, h))
        ix = fldp(base, (("v", "Some"), ("f", "ix")))
        KNOWN[ix] = frozenset(eng.mentions(st)) & KNOWN.get(ix, frozenset(eng.mentions(st)))
        out = []
        s = st.copy()
        if s.assume(lt(v, b), True) and s.assume(lt(add(v, ix), b), True):
            s.ev[key] = (v, b, ix)
            s.write(cell, (), add(v, ix))
            keep(s, s.ev.get("fills", ()) + ((ix, None, ()),))
            if WIRE:
                WIRE.round(s, ix, False)
            out.append((yes, s))
        if st.assume(lt(v, b), False):
            out.append((no, st))
        return out
    if w == ("u",):
        return None
    v0, b0, ix = w
    fills = st.ev.get("fills", ())
    mine = next((f for f in fills if f[0] is ix), None)
    keep(st, tuple(f for f in fills if f[0] is not ix))
    rule = judge(*mine) if mine is not None and b is b0 else BROKEN
    out = []
    s = st.copy()
    if s.assume(lt(v, b), True):
        keep(s, s.ev.get("fills", ()) + ((ix, rule, ()),))
        if WIRE:
            WIRE.round(s, ix, True)
        out.append((yes, s))
    if st.assume(lt(v, b), False):
        del st.ev[key]
        if b is b0 and st.assume(lt(v0, b), True):
            st.write(cell, (), b)
            if rule != BROKEN and rule:
                settle(eng, st, ix, rule, sub(b, v0))
            if WIRE:
                WIRE.end(st, ix, sub(b, v0), True)
        out.append((no, st))
    return out


def while_edge(eng, fr, bb, nb, st):
    """control reaches the head of such a loop"""
    for h, i, _, _, _, body in fr.fn.counting.values():
        if h != nb:
            continue
        key, cell = ("wh", fr.ctx, h), ("L", fr.ctx, i)
        w = st.ev.get(key)
        if w is None:
            return
        if bb not in body:
            del st.ev[key]
        elif w != ("u",):
            v0, b, ix = w
            if st.read(cell, ()) is add(add(v0, ix), K(1)):
                eng.fresh_at(st, "while", (fr.ctx, h))
                st.write(cell, (), add(v0, ix))
            else:
                keep(st, tuple(f for f in st.ev.get("fills", ()) if f[0] is not ix))
                del st.ev[key]
