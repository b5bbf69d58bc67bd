"""Encoders and decoders over a sequence of typed items instead of bytes.

Encoding appends items, decoding takes them off the front:
  ("v", type, value)       what `encode` of a type of its own writes: an integer, a code, flags, or a nested structure
  ("rep", n, ix, items)    n rounds of a loop, the items of round ix = 0, 1, .. n - 1
  ("end", ix)              (decoding) end of the items of one round
Kept per path in st.ev["wlog"] = (items, loops); a path on which the items cannot be followed gets st.ev["wbad"] = reason."""
import fill
import models
import raw
import domain
from interp import State
from terms import *
from lin import Lin

TO_END = ("SpdmErrorResponseVendorExtData",)    # takes whatever there is
CODEC, SPDM = "codec::codec::Codec", "spdmlib::common::spdm_codec::SpdmCodec"


def subst(t, x, y):
    """t with x replaced by y"""
    if not (syms(t) & syms(x)) and x not in subterms(t):
        return t
    memo = {}

    def go(a):
        if isinstance(a, T):
            if a is x:
                return y
            r = memo.get(a)
            if r is None:
                if a.op == "lin":
                    r = K(a.a[0])
                    for b, k in a.a[1]:
                        r = add(r, scale(go(b), k))
                elif a.op == "fld":
                    r = fld(go(a.a[0]), go(a.a[1]))
                else:
                    r = mk(a.op, *(go(b) for b in a.a))
                memo[a] = r
            return r
        if isinstance(a, tuple):
            return tuple(go(b) for b in a)
        return a
    return go(t)


def tsubst(tok, x, y):
    """items with the round number x replaced by y"""
    if isinstance(tok, T):
        return subst(tok, x, y)
    if isinstance(tok, tuple):
        return tuple(tsubst(a, x, y) for a in tok)
    return tok


def size(toks):
    """number of bytes of the items: known sizes summed, the size of a structure an unknown of its own"""
    n = K(0)
    for t in toks:
        if t[0] == "v":
            b = INT.get(t[1])
            n = add(n, K(b) if b else mk("wsize", t[1], t[2]))
        elif t[0] == "rep":
            s = size(t[3])
            if t[2] in subterms(s):
                n = add(n, mk("wsum", t[1], s))
            elif s.op == "k":
                n = add(n, scale(t[1], s.a[0]))
            elif t[1].op == "k":
                n = add(n, scale(s, t[1].a[0]))
            else:
                n = add(n, mk("mul", *sorted((t[1], s))))
    return n


INT = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "codec::codec::u24": 3}


def recut(items, n, t):
    """the integers in front as one integer of n bytes"""
    bs = []
    i = 0
    while len(bs) < n and i < len(items) and items[i][0] == "v" and items[i][1] in INT:
        w, v = INT[items[i][1]], items[i][2]
        bs += [K(v.a[0] >> 8 * j & 255) if v.op == "k" else v if w == 1 else mk("byte", v, j, w) for j in range(w)]
        i += 1
    if len(bs) < n:
        return items
    a, rest = bs[:n], bs[n:]
    if all(b.op == "k" for b in a):
        v = K(sum(b.a[0] << 8 * j for j, b in enumerate(a)))
    elif n == 1:
        v = a[0]
    elif a[0].op == "byte" and a[0].a[2] == n and all(b is mk("byte", a[0].a[0], j, n) for j, b in enumerate(a)):
        v = a[0].a[0]
    else:
        v = mk("le", *a)
    return (("v", t, v),) + tuple(("v", "u8", b) for b in rest) + items[i:]


class Loops:
    """rounds of the loops on the way (called from fill)"""

    def __init__(self, mode):
        self.mode = mode

    def bad(self, st, why):
        if "wbad" not in st.ev:
            st.ev["wbad"] = why

    def round(self, st, ix, started):
        items, loops = st.ev["wlog"]
        if started:
            items, loops, _ = self.close(st, ix, items, loops)
            if items is None:
                return
        elif self.mode == "enc":
            loops = loops + ((ix, items, None),)
        else:
            loops = loops + ((ix, items, None),)
        st.ev["wlog"] = (items, loops)

    def fits(self, st, it):
        """a value to encode is well formed: a count of elements is not larger than their array (C24)"""
        if it.a[0] == "iter:take":
            x = it.a[3][0]
            if x.op == "agg" and x.a[0] in ("iter:slice", "iter:array") and x.a[3][1].op == "k":
                st.assume(lt(x.a[3][1], it.a[3][1]), False)

    def some(self, st, n):
        return n is None or st.assume(lt(K(0), n), True) and not Lin(st).unsat()

    def close(self, st, ix, items, loops):
        """the round that ends"""
        if not loops or loops[-1][0] is not ix:
            self.bad(st, "a loop within a loop is left halfway")
            return None, None, None
        _, base, first = loops[-1]
        if self.mode == "enc":
            toks = items[len(base):]
            if first is not None and toks != first:
                self.bad(st, f"rounds of a loop write different things: {pr(first)} / {pr(toks)}")
            return base, loops[:-1] + ((ix, base, toks if first is None else first),), toks
        opened = base and base[0][0] == "rep" and ("end", ix) in items
        if opened:
            if items[0] != ("end", ix):
                self.bad(st, f"a round of a loop leaves {pr(items[:items.index(('end', ix))])}")
            if first is False:
                self.bad(st, "rounds of a loop differ")
        elif items is not base and items != base:
            self.bad(st, f"a round of a loop takes what is not written in a loop: {pr(base[:3])}")
        elif first is True:
            self.bad(st, "rounds of a loop differ")
        return base, loops[:-1] + ((ix, base, bool(opened)),), opened

    def end(self, st, ix, n, started):
        """the loop is over after n rounds"""
        if not started:
            return
        items, loops = st.ev["wlog"]
        base, loops, r = self.close(st, ix, items, loops)
        if base is None:
            return
        if self.mode == "enc":
            if r or loops[-1][2]:
                if n is None:
                    self.bad(st, "a loop of unknown length writes")
                    n = K(0)
                base = base + (("rep", n, ix, loops[-1][2]),)
        elif r or loops[-1][2]:
            if n is None or not same(st, n, base[0][1]):
                self.bad(st, f"{show(base[0][1])[:80]} items are written in a loop and {show(n)[:80] if n is not None else '?'} read")
            base = base[1:]
        st.ev["wlog"] = (base, loops[:-1])


def same(st, x, y):
    if x is y:
        return True
    l = Lin(st)
    return l.proves_eq(x, y) or l.unsat()


def pr(toks):
    if isinstance(toks, tuple) and toks and toks[0] == "rep":
        return f"({show(toks[1])[:60]} times {pr(toks[3])})"
    if isinstance(toks, tuple) and toks and toks[0] == "v":
        return f"{toks[1].split('::')[-1]} {show(toks[2])[:60]}"
    if isinstance(toks, tuple) and toks and isinstance(toks[0], tuple):
        return ", ".join(pr(t) for t in toks[:6])
    return str(toks)[:80]


def ty_of(fn):
    return fn.name[1:].split(" as ")[0]


def kind(fn):
    if "closure" in fn.name:
        return None
    for tr, e, r in ((CODEC, "::encode", "::read"), (SPDM, "::spdm_encode", "::spdm_read")):
        if fn.trait == tr:
            return "enc" if fn.name.endswith(e) else "dec" if fn.name.endswith(r) else None
    return None


def policy(entry, mode, inline=()):
    def w(fn):
        t = ty_of(fn)

        def m(eng, call, args, st):
            v = eng.content(st, args[0])
            items, loops = st.ev["wlog"]
            st.ev["wlog"] = (items + (("v", t, v),), loops)
            return [(st, OK(K(INT[t]) if t in INT else mk("wsize", t, v)))]
        return m

    def rd(fn):
        t = ty_of(fn)

        def m(eng, call, args, st):
            if eng.deref(args[-1])[0] != st.ev["wrd"]:
                # not the message itself but a part of it that has been taken out
                r, p = eng.deref(args[-1])
                s = st.copy()
                v = eng.fresh(call, st, "part", ())
                eng.wr(st, call.fr, r, p + (("f", "offs"),), mk("after", v), call.span)
                return [(s, NONE), (st, SOME(v))]
            items, loops = st.ev["wlog"]
            if items and items[0][0] == "rep" and loops:
                ix, base, opened = loops[-1]
                _, n, ix0, toks = items[0]
                items = tuple(tsubst(x, ix0, ix) for x in toks) + (("end", ix),) + items[1:]
            elif items and items[0][0] == "rep" and items[0][1].op == "k" and items[0][1].a[0] <= 64:
                _, n, ix0, toks = items[0]
                items = tuple(tsubst(x, ix0, K(i)) for i in range(n.a[0]) for x in toks) + items[1:]
            if t in INT and items and items[0][0] == "v" and items[0][1] in INT and items[0][1] != t:
                items = recut(items, INT[t], t)
            if not items:
                if "wbad" not in st.ev and ty_of(entry).split("::")[-1] not in TO_END:
                    st.ev["wbad"] = f"a {t.split('::')[-1]} is read where nothing is left"
                return [(st, NONE)]
            if items[0][0] != "v" or items[0][1] != t:
                if "wbad" not in st.ev:
                    st.ev["wbad"] = f"a {t.split('::')[-1]} is read where {pr(items[0])} was written"
                return [(st, NONE)]
            st.ev["wlog"] = (items[1:], loops)
            return [(st, SOME(items[0][2]))]
        return m

    def elem(v, i):
        if v.op == "mem" and v.a[1] and v.a[1][-1][0] == "sl":
            return fld(mk("mem", v.a[0], v.a[1][:-1], *v.a[2:]), ("i", add(v.a[1][-1][1], i)))
        if v.op == "fld" and v.a[1][0] == "sl":
            return fld(v.a[0], ("i", add(v.a[1][1], i)))
        return fld(v, ("i", i))

    def extend(eng, call, args, st):
        """bytes as they are"""
        v, n = eng.content(st, args[1]), eng.length(st, args[1])
        items, loops = st.ev["wlog"]
        s = st.copy()
        if n.op == "k" and n.a[0] <= 64:
            st.ev["wlog"] = (items + tuple(("v", "u8", elem(v, K(i))) for i in range(n.a[0])), loops)
        else:
            out = [(s, NONE)]
            z = st.copy()
            if z.assume(lt(K(0), n), False):
                out.append((z, SOME(n)))
            ix = mk("nth", call.ctx)
            if st.assume(lt(K(0), n), True):
                st.ev["wlog"] = (items + (("rep", n, ix, (("v", "u8", elem(v, ix)),)),), loops)
                out.append((st, SOME(n)))
            return out
        return [(s, NONE), (st, SOME(n))]

    def push(eng, call, args, st):
        items, loops = st.ev["wlog"]
        st.ev["wlog"] = (items + (("v", "u8", args[1]),), loops)
        return [(st.copy(), NONE), (st, SOME(args[1]))]

    def take(eng, call, args, st):
        r, p = eng.deref(args[0])
        if r != st.ev["wrd"]:
            s = st.copy()
            v = eng.fresh(call, st, "part", ())
            eng.wr(st, call.fr, r, p + (("f", "offs"),), mk("after", v), call.span)
            return [(s, NONE), (st, SOME(v))]
        items, loops = st.ev["wlog"]
        n, v = args[1], None
        if loops:
            v = None
        elif items and items[0][0] == "rep" and len(items[0][3]) == 1 and items[0][3][0][:2] == ("v", "u8") and same(st, n, items[0][1]):
            _, _, ix, toks = items[0]
            src = fill.source(toks[0][2], ix)
            v = fld(src[0], ("sl", src[1], add(src[1], n))) if src is not None else mk("rep", toks[0][2], n) if ix not in subterms(toks[0][2]) else None
            items = items[1:]
        elif n.op == "k":
            bs = []
            while len(bs) < n.a[0] and items and items[0][0] == "v" and items[0][1] in INT:
                if items[0][1] != "u8":
                    items = recut(items, 1, "u8")
                bs.append(items[0][2])
                items = items[1:]
            if len(bs) == n.a[0]:
                v = AGG("array", 0, "array", tuple(bs))
        if v is None:
            if st.truth(eq(n, K(0))) or Lin(st).proves_le(n, K(0)):
                return [(st, SOME(REF(("C", AGG("array", 0, "array", ())), (), K(0))))]
            if "wbad" not in st.ev:
                st.ev["wbad"] = f"{show(n)[:60]} bytes are taken where {pr(items)} is left"
            return [(st, NONE)]
        st.ev["wlog"] = (items, loops)
        return [(st, SOME(REF(("C", v), (), n)))]

    def used(eng, call, args, st):
        # how far, measured from where the value starts
        items, loops = st.ev["wlog"]
        done = items if mode == "enc" else st.ev["wall"][:len(st.ev["wall"]) - len(items)]
        return [(st, add(mk("arg", "position"), size(done)))]

    def f(fn):
        k = kind(fn)
        if k and fn.id != entry.id:
            if k != mode:
                return "opaque"
            return w(fn) if k == "enc" else rd(fn)
        if mode == "enc" and fn.name in ("codec::codec::Writer::extend_from_slice", "codec::codec::Writer::push"):
            return extend if fn.name.endswith("slice") else push
        if mode == "dec" and fn.name == "codec::codec::Reader::take":
            return take
        if fn.name in ("codec::codec::Writer::used", "codec::codec::Reader::used"):
            return used
        if fn.name == "spdmlib::protocol::gen_array_clone":
            return raw.array_clone
        return raw.policy(fn)
    return f


def run(prog, fn, mode, args, state=None, items=(), setup=None, unroll=0, **kw):
    fill.WIRE = Loops(mode)

    def su(eng, st, a):
        if state is not None:
            c = state.copy()
            for x in State.__slots__:
                if x != "len_facts" and hasattr(c, x):
                    setattr(st, x, getattr(c, x))
        st.ev["wlog"] = (items, ())
        if mode == "dec":
            st.ev["wall"] = items
            st.ev["wrd"] = eng.deref(a[-1])[0]
        if setup:
            setup(eng, st, a)
    try:
        return raw.run(prog, fn, setup=su, args=args, pol=policy(fn, mode), unroll=unroll, fills=True, **kw)
    finally:
        fill.WIRE = None
