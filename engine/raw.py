"""Byte-exact runs: every codec function is followed down to single bytes, no merging of paths,
and each operation that could panic is an obligation decided with the linear facts of its state."""
import domain
import fill
from interp import Engine, Hooks, State, Limit
from terms import *
from lin import Lin
from num import bits_unsat


def w_extend(eng, call, args, st):
    """Writer::extend_from_slice with a length that is not constant (all or nothing; decided by C25)"""
    r, p = eng.deref(args[0])
    bufref = eng.rd(st, r, p + (F("buf"),))
    off = eng.rd(st, r, p + (F("offs"),))
    n = eng.length(st, args[1])
    if n.op == "k" and isinstance(n.a[0], int) and n.a[0] <= 16:
        return domain.None_inline(eng, call, args, st)
    cap = eng.length(st, bufref)
    c = lt(sub(cap, off), n)
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, NONE))
    if st.assume(c, False):
        br, bp = eng.deref(bufref)
        eng.wr(st, call.fr, br, bp + (("sl", off, add(off, n)),), eng.content(st, args[1]), call.span)
        eng.wr(st, call.fr, r, p + (F("offs"),), add(off, n), call.span)
        out.append((st, SOME(n)))
    return out


def policy(fn):
    if fn.trait in ("core::fmt::Debug", "core::fmt::Display"):
        return "opaque"
    if fn.name == "codec::codec::Writer::extend_from_slice":
        return w_extend
    return "inline"


class Total(Hooks):
    """records (ok, what, where, why) for every operation that may panic"""

    def __init__(self, extra=None, wide=False):
        self.obs = {}
        self.wide = wide
        self.extra = extra or (lambda st: ())

    def ob(self, ok, what, where, why=""):
        k = (what, where)
        if k not in self.obs or (self.obs[k][0] and not ok):
            self.obs[k] = (bool(ok), why)

    def lin(self, st):
        l = Lin(st)
        for t in self.extra(st):
            l.ge(t)
        return l

    def on_assert(self, eng, st, fr, bb, term, c):
        kind = term[3]
        w = fr.fn.name
        if kind[0] == "bounds":
            if st.truth(c) == term[2]:
                return self.ob(True, "index", w)
            n, i = eng.operand(st, fr, kind[1]), eng.operand(st, fr, kind[2])
            l = self.lin(st)
            self.ob(l.proves_lt(i, n) or l.unsat(), "index", w, f"index {show(i)[:120]} of length {show(n)[:120]}")
        elif kind[0] == "overflow":
            self.overflow(eng, st, fr, kind, w)
        elif kind[0] in ("div0", "rem0", "divzero", "remzero"):
            self.ob(st.truth(c) == term[2], "division", w, show(c)[:120])

    def overflow(self, eng, st, fr, kind, w):
        if len(kind) < 4:
            return
        x, y = eng.operand(st, fr, kind[2]), eng.operand(st, fr, kind[3])
        if kind[1] == "Sub":
            ok = (x.op == "k" and y.op == "k" and x.a[0] >= y.a[0])
            if not ok:
                l = self.lin(st)
                ok = l.proves_le(y, x) or l.unsat()
            self.ob(ok, "subtraction", w, f"{show(x)[:120]} - {show(y)[:120]}")
            return
        # (sums and products of lengths and counts of bytes held in memory stay far below 2^64)
        ty = eng.prog.tys[fr.fn.crate][kind[4]] if len(kind) > 4 else {}
        bits = ty.get("b", 64)
        if kind[1] in ("Shl", "Shr"):
            l = self.lin(st)
            return self.ob(l.proves_lt(y, K(bits)) or l.unsat(), "shift", w, f"by {show(y)[:120]}")
        if bits >= 64 and not self.wide:
            return
        if bits >= 64 and kind[1] == "Add" and x.op == "phi" and y.op == "k" and y.a[0] <= 16:
            return          # a counter: 2^60 rounds do not happen
        v = eng.binop(kind[1], x, y, ty)
        ok = v.op == "k" and 0 <= v.a[0] < (1 << bits)
        if not ok:
            l = self.lin(st)
            ok = l.proves_lt(v, K(1 << bits)) or l.unsat()
        self.ob(ok, "addition" if kind[1] == "Add" else "multiplication", w, f"{show(x)[:120]} {kind[1]} {show(y)[:120]} in {bits} bits")

    def on_index(self, eng, call, base, idx, st):
        n = eng.length(st, base)
        w = call.fr.fn.name
        lo, hi = K(0), n
        if idx.op == "agg":
            k = idx.a[0].split("::")[-1]
            fs = idx.a[3]
            lo, hi = {"Range": lambda: (fs[0], fs[1]), "RangeTo": lambda: (K(0), fs[0]), "RangeFrom": lambda: (fs[0], n), "RangeFull": lambda: (K(0), n),
                      "RangeInclusive": lambda: (fs[0], add(fs[1], K(1))), "RangeToInclusive": lambda: (K(0), add(fs[0], K(1)))}.get(k, lambda: (None, None))()
            if lo is None:
                return
        else:
            lo, hi = idx, add(idx, K(1))
        l = self.lin(st)
        ok = (lo is hi or l.proves_le(lo, hi)) and (hi is n or l.proves_le(hi, n)) or l.unsat()
        self.ob(ok, "slice", w, f"[{show(lo)[:120]} .. {show(hi)[:120]}] of length {show(n)[:120]}")

    def on_copy(self, eng, call, args, st):
        a, b = eng.length(st, args[0]), eng.length(st, args[1])
        w = call.fr.fn.name
        if a is b:
            return self.ob(True, "copy", w)
        l = self.lin(st)
        self.ob(l.proves_eq(a, b) or l.unsat(), "copy", w, f"lengths {show(a)[:120]} and {show(b)[:120]}")

    def on_call(self, eng, call, args, st):
        n = call.name
        if n.startswith("core::panicking::") or n.startswith("std::rt::begin_panic") or n.endswith("::panic_fmt"):
            if not Lin(st).unsat() and not bits_unsat(st):
                self.ob(False, "panic", call.fr.fn.name, n)
        elif n in ("core::option::Option::unwrap", "core::result::Result::unwrap", "core::option::Option::expect", "core::result::Result::expect"):
            d = discr(args[0])
            good = 1 if "option" in n else 0
            self.ob(st.truth(eq(d, K(good))), "unwrap", call.fr.fn.name, show(args[0])[:120])
        return None


def advance(eng, call, st, rd):
    """after a nested decoder: the reader stands somewhere between where it stood and the end"""
    r, p = eng.deref(rd)
    buf = eng.rd(st, r, p + (F("buf"),))
    off = eng.rd(st, r, p + (F("offs"),))
    end = eng.fresh(call, st, "offs", (off,))
    st.assume(lt(end, off), False)
    st.assume(lt(eng.length(st, buf), end), False)
    eng.wr(st, call.fr, r, p + (F("offs"),), end, call.span)


def in_range(eng, call, args, st):
    """the invariant of Reader, held by each of its methods (decided by C25): it stands inside its buffer"""
    r, p = eng.deref(args[0])
    buf = eng.rd(st, r, p + (F("buf"),))
    st.assume(lt(eng.length(st, buf), eng.rd(st, r, p + (F("offs"),))), False)
    return domain.None_inline(eng, call, args, st)


def array_clone(eng, call, args, st):
    """an array of N copies; panics unless N copies are asked for"""
    n = call.f[1]["ga"][-1]
    ok = args[1] is K(int(n)) if isinstance(n, str) and n.isdigit() else False
    if isinstance(eng.hooks, Total):
        eng.hooks.ob(ok, "array of copies", call.fr.fn.name, f"{show(args[1])} copies for {n} elements")
    return [(st, mk("rep", args[0], int(n)))] if ok else domain.None_inline(eng, call, args, st)


def enum_read(eng, call, args, st):
    """a code read from the wire: any value of the enum, or none"""
    advance(eng, call, st, args[0])
    return [(st.copy(), NONE), (st, SOME(eng.fresh(call, st, "code", ())))]


def nested_read(eng, call, args, st):
    advance(eng, call, st, args[1])
    return [(st.copy(), NONE), (st, SOME(eng.fresh(call, st, "part", ())))]


def dec_policy(prog, entry, nested):
    """decoders: code enums and the listed nested decoders are summarised (each is an entry of its own)"""
    def f(fn):
        if fn.name.startswith("codec::codec::Reader::") and not fn.name.endswith("::init"):
            return in_range
        if fn.name == "spdmlib::protocol::gen_array_clone":
            return array_clone
        if fn.trait == "codec::codec::Codec" and fn.name.endswith("::read") and fn.id != entry.id:
            t = fn.name[1:].split(" as ")[0]
            a = prog.adts.get(t)
            if a and a["k"] == "enum":
                return enum_read
        if fn.trait == "spdmlib::common::spdm_codec::SpdmCodec" and fn.name.endswith("::spdm_read") and fn.id != entry.id and any(x in fn.name for x in nested):
            return nested_read
        return policy(fn)
    return f


def run(prog, fn, setup=None, args=None, hooks=None, unroll=16, pol=None, max_steps=400_000, b=4096, peel=0, fills=False, b3=None, track=None):
    b0 = Engine.B1, Engine.B2, Engine.B3
    Engine.B1 = Engine.B2 = b
    Engine.B3 = b3 or b
    Engine.ranges, Engine.widened, Engine.peel, Engine.fills = True, {}, peel, fills
    fill.KNOWN.clear()
    Engine.tokens = {}
    try:
        return domain.Run(prog, fn, hooks=hooks, pol=pol or policy, setup=setup, args=args, unroll=unroll, passes=1, max_steps=max_steps, **({"track": track} if track else {}))
    finally:
        Engine.B1, Engine.B2, Engine.B3 = b0
        Engine.ranges, Engine.peel, Engine.fills = False, 0, False


def const_bytes(arg, bs, at=0):
    """setup step: the buffer behind the reference argument starts with these bytes"""
    def f(eng, st):
        for i, v in enumerate(bs):
            if v is not None:
                st._set(("D", arg), (("i", K(at + i)),), K(v))
    return f
