"""C25: the byte reader and writer and the integers on the wire."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
import raw
from bits import bits
from lin import Lin
from interp import State

State0 = State()

INTS = {"u8": (8, 8), "u16": (16, 16), "codec::codec::u24": (24, 32), "u32": (32, 32), "u64": (64, 64), "u128": (128, 128)}
OPS = ["Reader::init", "Reader::take", "Reader::sub", "Reader::rest", "Reader::left", "Reader::used", "Reader::any_left", "Writer::init",
       "Writer::extend_from_slice", "Writer::push", "Writer::clear", "Writer::left", "Writer::used", "Writer::used_slice", "Writer::mut_used_slice"]
prop("C25", "Each operation of Reader and Writer and the encode/read pair of each integer type, followed for a symbolic position inside a symbolic buffer: result, new "
     "position and buffer content compared with the contract for every outcome; a refusal is shown to be impossible while the bytes or the room are there; each bit of a "
     "decoded value / an encoded byte is traced to the bit it came from; every index, slice, subtraction is within bounds.", level="proof",
     expect=[(o + ": ", 2) for o in OPS] + [(t.split("::")[-1] + " read: ", 3) for t in INTS] + [(t.split("::")[-1] + " encode: ", 4) for t in INTS] + [("u24: ", 2)])


def byte_at(t, i, l):
    """the byte with index i of a buffer content, seen through the writes to it; None if that is not decided"""
    while True:
        if t.op == "upd":
            hit = None
            for p, v in t.a[1]:
                if p[0][0] != "i":
                    return None
                j = p[0][1]
                if j is i or l.proves_eq(j, i):
                    if len(p) != 1:
                        return None
                    hit = v
                elif not l.proves_neq(j, i):
                    return None
            if hit is not None:
                return hit
            t = t.a[0]
        elif t.op == "updi":
            if not l.proves_neq(t.a[1], i):
                return None
            t = t.a[0]
        elif t.op == "patch":
            b, lo, hi, v = t.a
            if l.proves_lt(i, lo) or l.proves_le(hi, i):
                t = b
            elif l.proves_le(lo, i) and l.proves_lt(i, hi):
                t, i = v, sub(i, lo)
                if t.op in ("patch", "upd", "updi"):
                    continue
                return fld(t, ("i", i))
            else:
                return None
        else:
            return fld(t, ("i", i))


def inside(t, lo, hi, l):
    """(content without the writes, True) if each write to the buffer lies in [lo, hi)"""
    while t.op in ("upd", "updi", "patch"):
        if t.op == "upd":
            if not all(p[0][0] == "i" and l.proves_le(lo, p[0][1]) and l.proves_lt(p[0][1], hi) for p, _ in t.a[1]):
                return t, False
        elif t.op == "updi":
            if not (l.proves_le(lo, t.a[1]) and l.proves_lt(t.a[1], hi)):
                return t, False
        elif not (l.proves_eq(t.a[1], t.a[2]) or l.proves_le(lo, t.a[1]) and l.proves_le(t.a[2], hi)):
            return t, False
        t = t.a[0]
    return t, True


def slice_of(t):
    """(whole, lo, hi) of a reference into a buffer / of its content"""
    if t.op == "fld" and t.a[1][0] == "sl":
        return t.a[0], t.a[1][1], t.a[1][2]
    if t.op == "mem" and t.a[1] and t.a[1][-1][0] == "sl":
        return mk("mem", t.a[0], t.a[1][:-1], *t.a[2:]), t.a[1][-1][1], t.a[1][-1][2]
    return t, K(0), None


def is_byte(x, whole, i, l):
    """x is byte i of `whole` (possibly taken through slices of it)"""
    if x is None:
        return False
    if x.op == "fld":
        b, j = x.a
    elif x.op == "mem" and x.a[1]:
        b, j = mk("mem", x.a[0], x.a[1][:-1], *x.a[2:]), x.a[1][-1]
    else:
        return False
    if j[0] != "i":
        return False
    j = j[1]
    while b is not whole:
        w, lo, hi = slice_of(b)
        if w is b:
            return False
        b, j = w, add(j, lo)
    return j is i or l.proves_eq(j, i)


class Codec1:
    def __init__(self, prog):
        self.prog, self.recs = prog, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec("C25", key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def fn(self, name):
        fs = [f for f in self.prog.fns.values() if f.crate == "codec" and f.name == name]
        if len(fs) != 1:
            self.ob(f"{name}: exists", False, "codec", f"{len(fs)} functions of this name")
            return None
        return fs[0]

    def run(self, name, fn, args, cur=None):
        """cur: the argument that is the Reader/Writer"""
        self.args, self.cur = args, cur
        self.pos = []
        h = raw.Total(extra=lambda st: self.pos)

        def su(eng, st, a):
            if cur is not None:
                r, p = eng.deref(cur)
                buf = eng.rd(st, r, p + (F("buf"),))
                off = eng.rd(st, r, p + (F("offs"),))
                self.buf, self.off, self.len = buf, off, eng.length(st, buf)
                st.assume(lt(self.len, off), False)
                self.pos += [off] + [x for x in args if x is not cur]
                self.old = eng.content(st, buf)
        r = raw.run(self.prog, fn, setup=su, args=args, hooks=h, fills=True, pol=lambda f: "inline")
        covered("C25", f"{fn.name}", r.eng)
        for (what, w), (ok, why) in h.obs.items():
            self.ob(f"{name}: {what} within bounds ({w.split('::')[-1]})", ok, fn.name, f"in {w}: {why}")
        r.outs = [(st, v) for st, v in r.outs if not self.lin(st).unsat()]
        self.ob(f"{name}: has an outcome", bool(r.outs), fn.name, "no path returns")
        return r

    def after(self, r, st):
        """(position, same buffer?) after the call"""
        e = r.eng
        rt, p = e.deref(self.cur)
        return e.rd(st, rt, p + (F("offs"),)), e.rd(st, rt, p + (F("buf"),)) is self.buf

    def lin(self, st):
        l = Lin(st)
        for t in self.pos:
            l.ge(t)         # positions, counts: not negative
        return l

    # --- contracts
    def stays(self, key, r, st, l, off, fn, what=None):
        o, same = self.after(r, st)
        self.ob(f"{key}: the position is {what or 'kept'}", same and l.proves_eq(o, off), fn.name, f"position {show(o)[:200]}" + ("" if same else ", over another buffer"))

    def untouched(self, key, r, st, l, fn):
        c = r.eng.content(st, self.buf)
        self.ob(f"{key}: the buffer is left alone", c is self.old, fn.name, show(c)[:200])

    def is_slice(self, r, st, l, v, lo, n):
        c = r.eng.content(st, v)
        b, a0, a1 = slice_of(c)
        if a1 is None:
            a1 = self.len
        return b is self.old and l.proves_eq(a0, lo) and l.proves_eq(a1, add(lo, n))


def opt(v):
    return v.a[2] if v.op == "agg" and v.a[2] in ("Some", "None", "Ok", "Err") else None


def rep(c, name, fn, r, st, v):
    k = opt(v)
    c.ob(f"{name}: outcome is decided", k is not None, fn.name, show(v)[:200])
    return k


def reader_ops(c):
    S, N = mk("arg", "rd"), mk("arg", "n")
    for o in ("init",):
        for t in ("Reader", "Writer"):
            fn = c.fn(f"codec::codec::{t}::{o}")
            if fn is None:
                continue
            b = mk("arg", "bytes")
            r = c.run(f"{t}::{o}", fn, [b])
            for st, v in r.outs:
                ok = v.op == "agg" and r.eng.content(st, fld(v, F("buf"))) is r.eng.content(State0, b) and fld(v, F("offs")) is K(0)
                c.ob(f"{t}::{o}: starts at 0 over the bytes given", ok, fn.name, show(v)[:200])
    for o in ("take", "sub"):
        fn, key = c.fn("codec::codec::Reader::" + o), "Reader::" + o
        if fn is None:
            continue
        r = c.run(key, fn, [S, N], S)
        some = 0
        for st, v in r.outs:
            l = c.lin(st)
            k = rep(c, key, fn, r, st, v)
            if k == "Some":
                some += 1
                x = v.a[3][0]
                if o == "sub":
                    c.ob(f"{key}: the new reader starts at 0", x.op == "agg" and fld(x, F("offs")) is K(0), fn.name, show(x)[:200])
                    x = fld(x, F("buf"))
                c.ob(f"{key}: gives the next n bytes", c.is_slice(r, st, l, x, c.off, N), fn.name, show(x)[:200])
                c.stays(key, r, st, l, add(c.off, N), fn, "moved by n")
            elif k == "None":
                c.ob(f"{key}: refused only if fewer bytes are left", l.unsat([sub(c.len, add(c.off, N))]), fn.name, "refuses although the bytes are there")
                c.stays(key + " refused", r, st, l, c.off, fn)
        c.ob(f"{key}: can give bytes", some > 0, fn.name)
    fn = c.fn("codec::codec::Reader::rest")
    if fn is not None:
        r = c.run("Reader::rest", fn, [S], S)
        for st, v in r.outs:
            l = c.lin(st)
            c.ob("Reader::rest: gives all bytes left", c.is_slice(r, st, l, v, c.off, sub(c.len, c.off)), fn.name, show(v)[:200])
            c.stays("Reader::rest", r, st, l, c.len, fn, "at the end")
    for t in ("Reader", "Writer"):
        for o, want in (("left", lambda: sub(c.len, c.off)), ("used", lambda: c.off)):
            fn, key = c.fn(f"codec::codec::{t}::{o}"), f"{t}::{o}"
            if fn is None:
                continue
            r = c.run(key, fn, [S], S)
            for st, v in r.outs:
                l = c.lin(st)
                c.ob(f"{key}: tells the number of bytes", l.proves_eq(v, want()), fn.name, show(v)[:200])
                c.stays(key, r, st, l, c.off, fn)
    fn = c.fn("codec::codec::Reader::any_left")
    if fn is not None:
        r = c.run("Reader::any_left", fn, [S], S)
        for st, v in r.outs:
            for b in (True, False):
                s = st.copy()
                if s.assume(v, b):
                    l = c.lin(s)
                    ok = l.proves_lt(c.off, c.len) if b else l.proves_le(c.len, c.off)
                    c.ob(f"Reader::any_left: {'true only if a byte is left' if b else 'false only if none is left'}", ok or l.unsat(), fn.name, show(v)[:200])


def writer_ops(c):
    S, N = mk("arg", "wr"), mk("arg", "v")
    fn, key = c.fn("codec::codec::Writer::extend_from_slice"), "Writer::extend_from_slice"
    if fn is not None:
        r = c.run(key, fn, [S, N], S)
        L = r.eng.length(State0, N)
        src = r.eng.content(State0, N)
        n = 0
        for st, v in r.outs:
            l = c.lin(st)
            k = rep(c, key, fn, r, st, v)
            if k == "Some":
                n += 1
                c.ob(f"{key}: returns the number of bytes", l.proves_eq(v.a[3][0], L), fn.name, show(v)[:200])
                c.stays(key, r, st, l, add(c.off, L), fn, "moved by the number of bytes")
                t = r.eng.content(st, c.buf)
                b, ok = inside(t, c.off, add(c.off, L), l)
                c.ob(f"{key}: nothing else of the buffer changes", ok and b is c.old, fn.name, show(t)[:300])
                # a byte of the source, wherever it lies
                j = mk("arg", "some index")
                s = st.copy()
                if s.assume(lt(j, L), True):
                    ls = c.lin(s)
                    ls.ge(j)
                    x = byte_at(t, add(c.off, j), ls)
                    ok = is_byte(x, src, j, ls)
                    c.ob(f"{key}: the bytes given stand at the position, in order", ok or ls.unsat(), fn.name, show(x if x is not None else t)[:300])
            elif k == "None":
                c.ob(f"{key}: refused only if the room is too small", l.unsat([sub(c.len, add(c.off, L))]), fn.name, "refuses although there is room")
                c.stays(key + " refused", r, st, l, c.off, fn)
                c.untouched(key + " refused", r, st, l, fn)
        c.ob(f"{key}: can write", n > 0, fn.name)
    fn, key = c.fn("codec::codec::Writer::push"), "Writer::push"
    if fn is not None:
        r = c.run(key, fn, [S, N], S)
        n = 0
        for st, v in r.outs:
            l = c.lin(st)
            k = rep(c, key, fn, r, st, v)
            if k == "Some":
                n += 1
                c.ob(f"{key}: returns the byte", v.a[3][0] is N, fn.name, show(v)[:200])
                c.stays(key, r, st, l, add(c.off, K(1)), fn, "moved by one")
                t = r.eng.content(st, c.buf)
                b, ok = inside(t, c.off, add(c.off, K(1)), l)
                c.ob(f"{key}: nothing else of the buffer changes", ok and b is c.old, fn.name, show(t)[:300])
                c.ob(f"{key}: the byte stands at the position", byte_at(t, c.off, l) is N, fn.name, show(t)[:300])
            elif k == "None":
                c.ob(f"{key}: refused only if there is no room", l.unsat([sub(c.len, add(c.off, K(1)))]), fn.name, "refuses although there is room")
                c.stays(key + " refused", r, st, l, c.off, fn)
                c.untouched(key + " refused", r, st, l, fn)
        c.ob(f"{key}: can write", n > 0, fn.name)
    fn = c.fn("codec::codec::Writer::clear")
    if fn is not None:
        r = c.run("Writer::clear", fn, [S], S)
        for st, v in r.outs:
            c.stays("Writer::clear", r, st, c.lin(st), K(0), fn, "back at the start")
    for o in ("used_slice", "mut_used_slice"):
        fn, key = c.fn("codec::codec::Writer::" + o), "Writer::" + o
        if fn is None:
            continue
        r = c.run(key, fn, [S], S)
        for st, v in r.outs:
            l = c.lin(st)
            c.ob(f"{key}: the bytes written so far", c.is_slice(r, st, l, v, K(0), c.off), fn.name, show(v)[:200])
            c.stays(key, r, st, l, c.off, fn)


def integers(c):
    for t, (nb, mw) in INTS.items():
        k = nb // 8
        short = t.split("::")[-1]
        fn, key = c.fn(f"<{t} as codec::codec::Codec>::read"), short + " read"
        S = mk("arg", "rd")
        if fn is not None:
            r = c.run(key, fn, [S], S)
            n = 0
            for st, v in r.outs:
                l = c.lin(st)
                kk = rep(c, key, fn, r, st, v)
                if kk == "Some":
                    n += 1
                    x = v.a[3][0]
                    if short == "u24" and x.op == "agg":
                        x = x.a[3][0]
                    c.stays(key, r, st, l, add(c.off, K(k)), fn, f"moved by {k}")

                    def leaf(y):
                        b, i = y.a if y.op == "fld" else (mk("mem", y.a[0], y.a[1][:-1], *y.a[2:]), y.a[1][-1]) if y.op == "mem" and y.a[1] else (None, None)
                        if b is None or i[0] != "i":
                            return None
                        w, a0, _ = slice_of(b)
                        d = sub(add(a0, i[1]), c.off)
                        return ("byte", 8 * d.a[0], 8) if w is c.old and d.op == "k" and 0 <= d.a[0] < k else None
                    bs = bits(x, mw, leaf)
                    want = [("byte", j) for j in range(nb)] + [0] * (mw - nb)
                    c.ob(f"{key}: least significant byte first", bs == want, fn.name, show(x)[:300])
                elif kk == "None":
                    c.ob(f"{key}: refused only if fewer than {k} bytes are left", l.unsat([sub(c.len, add(c.off, K(k)))]), fn.name, "refuses although the bytes are there")
                    c.stays(key + " refused", r, st, l, c.off, fn)
            c.ob(f"{key}: can give a value", n > 0, fn.name)
        fn, key = c.fn(f"<{t} as codec::codec::Codec>::encode"), short + " encode"
        S, A = mk("arg", "wr"), mk("arg", "v")
        if fn is None:
            continue
        r = c.run(key, fn, [A, S], S)
        val = r.eng.content(State0, A)
        if short == "u24":
            val = fld(val, F("0"))
        n = 0
        for st, v in r.outs:
            l = c.lin(st)
            kk = rep(c, key, fn, r, st, v)
            if kk == "Ok":
                n += 1
                c.ob(f"{key}: tells {k} byte(s)", v.a[3][0] is K(k), fn.name, show(v)[:200])
                c.stays(key, r, st, l, add(c.off, K(k)), fn, f"moved by {k}")
                b = r.eng.content(st, c.buf)
                base, ok = inside(b, c.off, add(c.off, K(k)), l)
                c.ob(f"{key}: nothing else of the buffer changes", ok and base is c.old, fn.name, show(b)[:300])

                def leaf(y):
                    if y is val:
                        return ("v", 0, mw)
                    if y.op in ("fld", "mem"):
                        b, i = y.a if y.op == "fld" else (None, None)
                        if b is not None and b.op == "pure" and b.a[0].split("::")[-1] in ("to_le_bytes", "to_be_bytes") and b.a[1][0] is val and i[0] == "i" and i[1].op == "k":
                            j = i[1].a[0]
                            w = mw // 8
                            if 0 <= j < w:
                                return ("v", 8 * (j if b.a[0].endswith("le_bytes") else w - 1 - j), 8)
                    return None
                for j in range(k):
                    x = byte_at(b, add(c.off, K(j)), l)
                    bs = bits(x, 8, leaf) if x is not None else None
                    c.ob(f"{key}: least significant byte first", bs == [("v", 8 * j + i) for i in range(8)], fn.name, f"byte {j} is {show(x)[:200] if x is not None else 'not decided'}")
            elif kk == "Err":
                c.ob(f"{key}: refused only if there is no room for {k}", l.unsat([sub(c.len, add(c.off, K(k)))]), fn.name, "refuses although there is room")
                o, same = c.after(r, st)
                c.ob(f"{key}: the position stays inside the buffer when refused", same and l.proves_le(o, c.len), fn.name, show(o)[:200])
        c.ob(f"{key}: can write", n > 0, fn.name)
    # u24: values that do not fit are refused by panicking
    fn = c.fn("codec::codec::u24::new")
    if fn is not None:
        a = mk("arg", "v")
        r = raw.run(c.prog, fn, args=[a], hooks=raw.Total(), fills=True, pol=lambda f: "inline")
        for st, v in r.outs:
            x = v.a[3][0] if v.op == "agg" else v
            c.ob("u24: holds the value given", x is a, fn.name, show(v)[:200])
            s = st.copy()
            fits = Lin(s).proves_lt(a, K(1 << 24)) or bits(a, 0, lambda y: None) is None
            if not fits:
                # the facts about v >> 24
                top = [t for t, f in st.facts.items() if not isinstance(t, tuple) and f == ("=", 0) and t.op == "bin" and t.a[0] == "Shr" and t.a[1] is a and t.a[2] is K(24)]
                fits = bool(top)
            c.ob("u24: values of more than 24 bits are refused", fits, fn.name, str([show(t) for t in list(st.facts)[:6] if not isinstance(t, tuple)])[:300])


@structural("C25")
def c25(prog, pid):
    c = Codec1(prog)
    reader_ops(c)
    writer_ops(c)
    integers(c)
    return list(c.recs.values())
