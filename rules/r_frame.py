"""C27 C28: transport framing, byte by byte."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
import raw, num
from lin import Lin

prop("C27", "The four framing functions of the MCTP transport, followed byte by byte for symbolic buffers of any length (decap: once per value of the type byte): type byte written for each kind of message, "
     "payload copied unchanged right after it, length returned; on receipt exactly the two types of the layer are accepted, flag and payload follow from the packet; an error only if a buffer is too short or the type is another; "
     "every indexing, slicing, copying and subtraction on these paths is within bounds.", level="proof",
     expect=[("encap: ", 4), ("encap_app: ", 4), ("decap: ", 4), ("decap_app: ", 4)])
prop("C28", "The framing functions of the PCI-DOE transport, followed byte by byte: the eight header bytes written as functions of the payload length (compared for every length up to the 1 MiB limit), payload copied to offset 8, "
     "length returned; on receipt header bytes are enumerated (vendor, type, length with and without reserved bits), payload length compared with the length field for all its 2^18 values; an error only for a packet that must be refused; "
     "every indexing, slicing, copying and subtraction within bounds.", level="proof",
     expect=[("encap: ", 4), ("decap: ", 5), ("encap_app: ", 2), ("decap_app: ", 2)])

LAYERS = {"encap": {1: 6, 0: 5}, "encap_app": {1: 1, 0: 5}, "decap": {5: 0, 6: 1}, "decap_app": {5: 0, 1: 1}}
MIB = 1 << 20


class Framing:
    def __init__(self, prog, pid, typ):
        self.prog, self.pid, self.typ, self.recs, self.tot = prog, pid, typ, {}, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec(self.pid, key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def fn(self, name):
        fs = [f for f in self.prog.fns.values() if f.trait == "spdmlib::common::SpdmTransportEncap" and self.typ in f.name and f.name.endswith("::" + name)]
        if len(fs) != 1:
            raise Exception(f"{len(fs)} implementations of {name} for {self.typ}")
        return fs[0]

    def run(self, fn, name, a, setup=()):
        h = raw.Total()

        def su(eng, st, args):
            for s in setup:
                s(eng, st)
        r = raw.run(self.prog, fn, setup=su, args=a, hooks=h, fills=True)
        covered(self.pid, f"{fn.name}", r.eng)
        r.outs = [(st, v) for st, v in r.outs if not Lin(st).unsat()]
        for (what, w), (ok, why) in h.obs.items():
            self.ob(f"{name}: {what} within bounds ({w.split('::')[-1]})", ok, fn.name, f"in {w}: {why}")
        return r

    def outcome(self, name, st, v, w):
        """'ok', value / 'err', None"""
        if v.op == "agg" and v.a[2] in ("Ok", "Err"):
            return v.a[2], v.a[3][0]
        self.ob(f"{name}: outcome is decided", False, w, show(v)[:200])
        return None, None


def args4(flag):
    return [mk("arg", "self"), mk("arg", "spdm"), mk("arg", "out"), K(flag)]


def args3():
    return [mk("arg", "self"), mk("arg", "in"), mk("arg", "out")]


def returns_copy(f, name, r, st, dst, src, lo, n, slo):
    """dst[lo .. lo+n] = src[slo .. slo+n]; looks for the copy in the final content of dst"""
    c = r.eng.content(st, dst)
    l = Lin(st)
    t = c
    while t.op in ("patch", "upd"):
        if t.op == "upd":
            for p, v in t.a[1]:
                if p[0][0] == "i" and not (l.proves_lt(p[0][1], lo) or l.proves_le(add(lo, n), p[0][1])):
                    # single bytes of the copied range
                    return n.op == "k" and bytewise(r, st, c, src, lo, n.a[0], slo)
            t = t.a[0]
            continue
        b, plo, phi, v = t.a
        if l.proves_le(phi, lo) or l.proves_le(add(lo, n), plo):
            t = b
            continue
        if l.proves_eq(plo, lo) and l.proves_eq(phi, add(lo, n)):
            s = v
            base, a0, a1 = s, K(0), None
            if s.op == "fld" and s.a[1][0] == "sl":
                base, a0, a1 = s.a[0], s.a[1][1], s.a[1][2]
            elif s.op == "mem" and s.a[1] and s.a[1][-1][0] == "sl":
                base, a0, a1 = mk("mem", s.a[0], s.a[1][:-1], *s.a[2:]), s.a[1][-1][1], s.a[1][-1][2]
            whole = r.eng.content(st, src)
            while whole.op == "upd" and all(len(p) == 1 and p[0][0] == "i" and l.proves_lt(p[0][1], slo) for p, _ in whole.a[1]):
                whole = whole.a[0]  # header bytes fixed by the enumeration
            if a1 is None:
                a1 = r.eng.length(st, src) if base is whole else None
            return base is whole and a1 is not None and l.proves_eq(a0, slo) and l.proves_eq(a1, add(slo, n))
        return False
    return n is K(0) or l.proves_le(n, K(0))


def bytewise(r, st, c, src, lo, n, slo):
    if n > 4096 or lo.op != "k" or slo.op != "k":
        return False
    s = r.eng.content(st, src)
    return all(fld(c, ("i", K(lo.a[0] + i))) is fld(s, ("i", K(slo.a[0] + i))) for i in range(n))


def mctp_encap(f, name):
    fn = f.fn(name)
    for flag, code in LAYERS[name].items():
        a = args4(flag)
        r = f.run(fn, name, a)
        L, T = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
        kinds = {"secured message" if name == "encap" else "application message": 1, "SPDM message": 0}
        kind = [k for k, v in kinds.items() if v == flag][0]
        n = 0
        for st, v in r.outs:
            k, x = f.outcome(name, st, v, fn.name)
            l = Lin(st)
            if k == "Ok":
                n += 1
                b0 = fld(r.eng.content(st, a[2]), ("i", K(0)))
                f.ob(f"{name}: {kind} has type {code}", st.val(b0) == code, fn.name, f"the first byte is {show(b0)[:150]}")
                f.ob(f"{name}: payload follows unchanged", returns_copy(f, name, r, st, a[2], a[1], K(1), L, K(0)), fn.name, show(r.eng.content(st, a[2]))[:300])
                f.ob(f"{name}: length returned", l.proves_eq(x, add(L, K(1))), fn.name, show(x)[:200])
            elif k == "Err":
                f.ob(f"{name}: refused only if the buffer is too short", l.unsat([sub(T, add(L, K(1)))]), fn.name, "refuses although payload and type byte fit")
        f.ob(f"{name}: {kind} is sent", n > 0, fn.name, "no accepting path")


def mctp_decap(f, name):
    fn = f.fn(name)
    for code in list(range(256)) + [None]:
        a = args3()
        r = f.run(fn, name, a, [raw.const_bytes(a[1], [code])])
        T, S = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
        want = LAYERS[name].get(code)
        n = 0
        for st, v in r.outs:
            k, x = f.outcome(name, st, v, fn.name)
            l = Lin(st)
            if k == "Ok":
                n += 1
                if code is None:
                    b0 = st.val(fld(r.eng.content(st, a[1]), ("i", K(0))))
                    f.ob(f"{name}: accepted only with a type of this layer", b0 in LAYERS[name], fn.name, "the type byte is not known where the packet is accepted")
                    continue
                f.ob(f"{name}: accepted only with a type of this layer", want is not None, fn.name, f"type {code} is accepted")
                if want is None:
                    continue
                size, fl = (x.a[3] if x.op == "agg" else (x, x))
                f.ob(f"{name}: flag follows the type", st.val(fl) == want, fn.name, f"type {code} gives {show(fl)[:100]}")
                f.ob(f"{name}: length returned", l.proves_eq(size, sub(T, K(1))), fn.name, show(size)[:200])
                f.ob(f"{name}: payload is what follows the type byte", returns_copy(f, name, r, st, a[2], a[1], K(0), sub(T, K(1)), K(1)), fn.name, show(r.eng.content(st, a[2]))[:300])
            elif k == "Err" and want is not None:
                f.ob(f"{name}: refused only if the packet is empty or does not fit", l.unsat([sub(T, K(1)), sub(S, sub(T, K(1)))]), fn.name, "refuses a packet of a right type that fits")
        if want is not None:
            f.ob(f"{name}: type {code} is accepted", n > 0, fn.name, "no accepting path")


from interp import State  # noqa: E402
State0 = State()


@structural("C27")
def mctp(prog, pid):
    f = Framing(prog, pid, "MctpTransportEncap")
    for n in ("encap", "encap_app"):
        mctp_encap(f, n)
    for n in ("decap", "decap_app"):
        mctp_decap(f, n)
    return list(f.recs.values())


# ------------------------------------------------------------------ PCI-DOE
def aligned(L):
    return scale(mk("bin", "Div", add(L, K(3)), K(4), 64), 4)


def doe_encap(f):
    name = "encap"
    fn = f.fn(name)
    for flag, code in ((0, 1), (1, 2)):
        a = args4(flag)
        r = f.run(fn, name, a)
        L, T = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
        total = add(aligned(L), K(8))
        kind = "secured message" if flag else "SPDM message"
        todo = []
        for st, v in r.outs:
            k, x = f.outcome(name, st, v, fn.name)
            l = Lin(st)
            if k == "Ok":
                c = r.eng.content(st, a[2])
                b = [fld(c, ("i", K(i))) for i in range(8)]
                f.ob(f"{name}: vendor is PCI-SIG", st.val(b[0]) == 1 and st.val(b[1]) == 0, fn.name, f"vendor bytes {show(b[0])[:80]} {show(b[1])[:80]}")
                f.ob(f"{name}: {kind} has type {code}", st.val(b[2]) == code, fn.name, f"type byte {show(b[2])[:100]}")
                f.ob(f"{name}: reserved byte is 0", st.val(b[3]) == 0, fn.name, show(b[3])[:100])
                f.ob(f"{name}: payload at offset 8 unchanged", returns_copy(f, name, r, st, a[2], a[1], K(8), L, K(0)), fn.name, show(c)[:300])
                f.ob(f"{name}: length returned is header and payload in whole dwords", l.proves_eq(x, total), fn.name, show(x)[:200])
                f.ob(f"{name}: the object fits the buffer", l.proves_le(total, T), fn.name, "header and padded payload can be longer than the buffer")
                todo.append((st, b[4:8]))
            elif k == "Err":
                f.ob(f"{name}: refused only if the buffer is too short or the object above 1 MiB", l.unsat([sub(T, total), sub(K(MIB), total)]), fn.name, "refuses although the object fits")
        fs = []
        for st, b in todo:
            cond, _ = num.condition(st, [L, T])
            try:
                fs.append((cond, [num.compiled(y, [L]) for y in b]))
            except num.Unknown as e:
                f.ob(f"{name}: length field counts dwords", False, fn.name, f"the length field is not a function of the payload length: {e}")
        big, bad, none = 1 << 22, None, None
        for n in range(0, MIB - 8 + 1):
            w = ((n + 3) // 4 + 2) & 0x3ffff
            hit = False
            for cond, b in fs:
                if cond(n, big):
                    hit = True
                    if b[0](n) | b[1](n) << 8 | b[2](n) << 16 | b[3](n) << 24 != w:
                        bad = n
            if not hit:
                none = n
            if bad is not None or none is not None:
                break
        f.ob(f"{name}: length field counts dwords", bad is None, fn.name, f"for a payload of {bad} bytes the length field is wrong")
        f.ob(f"{name}: every payload up to the 1 MiB limit is sent", none is None, fn.name, f"no accepting path for a payload of {none} bytes")


def length_words():
    out = {0, 2, 3, 4, 5, 6, 7, 0x100, 0x1ff, 0x10001, 0x3ffff, 0x3fffe, 0x15555, 0x2aaaa} | {1 << i for i in range(1, 18)}
    return sorted(out)


def doe_decap(f):
    name = "decap"
    fn = f.fn(name)

    def one(hdr, want, dw=None, what=""):
        a = args3()
        r = f.run(fn, name, a, [raw.const_bytes(a[1], hdr)])
        T, S = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
        n = 0
        for st, v in r.outs:
            k, x = f.outcome(name, st, v, fn.name)
            l = Lin(st)
            if k == "Ok":
                n += 1
                f.ob(f"{name}: accepted only with {what}", want is not None, fn.name, f"header bytes {hdr} accepted")
                if want is None:
                    continue
                size, fl = (x.a[3] if x.op == "agg" else (x, x))
                f.ob(f"{name}: flag follows the type", st.val(fl) == want, fn.name, f"header {hdr} gives {show(fl)[:100]}")
                if dw is not None:
                    m = 4 * (dw or 0x40000) - 8
                    f.ob(f"{name}: payload length is what the header says", st.val(size) == m, fn.name, f"length field {dw:#x} gives {show(size)[:100]}")
                    f.ob(f"{name}: the whole object is in the packet", l.proves_le(K(m + 8), T), fn.name, f"length field {dw:#x}")
                    f.ob(f"{name}: payload is what follows the header", m == 0 or returns_copy(f, name, r, st, a[2], a[1], K(0), K(m), K(8)), fn.name, show(r.eng.content(st, a[2]))[:300])
            elif k == "Err" and want is not None and dw is not None:
                m = 4 * (dw or 0x40000) - 8
                f.ob(f"{name}: refused only if truncated or too long for the buffer", l.unsat([sub(T, K(m + 8)), sub(S, K(m))]), fn.name, f"refuses a well-formed object (length field {dw:#x})")
        return n, r, a

    for v0, v1 in [(i, 0) for i in range(256)] + [(1, i) for i in range(1, 256)] + [(0, i) for i in range(256)]:
        ok = (v0, v1) == (1, 0)
        one([v0, v1, 1, 0], 0 if ok else None, what="the vendor PCI-SIG")
    for t in range(256):
        one([1, 0, t, 0], {1: 0, 2: 1}.get(t), what="an SPDM object type")
    for t, fl in ((1, 0), (2, 1)):
        for dw in length_words():
            for hi in (0, 0xfffc0000):
                w = dw | hi
                n, _, _ = one([1, 0, t, 0] + [w >> 8 * i & 255 for i in range(4)], fl, dw, "a length of at least two dwords")
                f.ob(f"{name}: type {t} is accepted", n > 0, fn.name, f"no accepting path for length field {w:#x}")
        for w in (1, 1 | 0x40000, 1 | 0xfffc0000):
            one([1, 0, t, 0] + [w >> 8 * i & 255 for i in range(4)], None, what="a length of at least two dwords")
    # payload length as a function of the length field
    n, r, a = one([1, 0, 1, 0], 0, what="an SPDM object type")
    T, S = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
    bs = [fld(r.eng.content(State0, a[1]), ("i", K(4 + i))) for i in range(4)]
    fs = []
    for st, v in r.outs:
        if v.op == "agg" and v.a[2] == "Ok":
            try:
                fs.append((num.condition(st, bs + [T, S])[0], num.compiled(v.a[3][0].a[3][0], bs)))
            except num.Unknown as e:
                f.ob(f"{name}: payload length is what the header says", False, fn.name, f"not a function of the length field: {e}")
    bad = None
    for w in range(1 << 18):
        for hi in (0, 0x15540000):
            x = w | hi
            b = (x & 255, x >> 8 & 255, x >> 16 & 255, x >> 24)
            got = {g(*b) for c, g in fs if c(*b, 1 << 40, 1 << 40)}
            want = {4 * (w or 0x40000) - 8} if w != 1 else set()
            if got != want:
                bad = (x, got)
                break
        if bad:
            break
    f.ob(f"{name}: payload length is what the header says", bad is None, fn.name, f"length field {bad and hex(bad[0])} gives {bad and bad[1]}")


def doe_app(f, name):
    fn = f.fn(name)
    enc = name == "encap_app"
    a = args4(0) if enc else args3()
    if enc:
        a[3] = mk("arg", "flag")
    r = f.run(fn, name, a)
    L, T = r.eng.length(State0, a[1]), r.eng.length(State0, a[2])
    n = 0
    for st, v in r.outs:
        k, x = f.outcome(name, st, v, fn.name)
        l = Lin(st)
        if k == "Ok":
            n += 1
            size = x
            if not enc:
                size, fl = (x.a[3] if x.op == "agg" else (x, x))
                f.ob(f"{name}: never an application message", st.val(fl) == 0, fn.name, show(fl)[:100])
            f.ob(f"{name}: message unchanged", returns_copy(f, name, r, st, a[2], a[1], K(0), L, K(0)), fn.name, show(r.eng.content(st, a[2]))[:300])
            f.ob(f"{name}: length returned", l.proves_eq(size, L), fn.name, show(size)[:200])
        elif k == "Err":
            f.ob(f"{name}: refused only if the buffer is too short", l.unsat([sub(T, L)]), fn.name, "refuses although the message fits")
    f.ob(f"{name}: is sent" if enc else f"{name}: is accepted", n > 0, fn.name, "no accepting path")


@structural("C28")
def doe(prog, pid):
    f = Framing(prog, pid, "PciDoeTransportEncap")
    doe_encap(f)
    doe_decap(f)
    for n in ("encap_app", "decap_app"):
        doe_app(f, n)
    return list(f.recs.values())
