"""Normal form of transcripts: what was hashed / signed / MACed, as a list of chunks."""
from terms import *
import rulelib


def dig(t):
    """the digest(...) term whose bytes t denotes, if t is (part of) a SpdmDigestStruct: x.data[0..x.data_size] etc."""
    s = t
    while True:
        if s.op == "digest":
            return s
        if s.op == "ref":
            return None
        if s.op == "deref" or s.op == "fld" or s.op == "mem":
            if s.op == "fld":
                s = s.a[0]
                continue
            if s.op == "mem" and s.a[0][0] == "D":
                s = s.a[0][1]
                continue
            return None
        return None


def base_chunks(t):
    """(base, [data...]) of an append chain"""
    out = []
    while t.op == "app":
        out.append(t.a[1])
        t = t.a[0]
    out.reverse()
    return t, out


class Cls:
    """classifies a chunk into a short stable descriptor"""

    def __init__(self, used=None):
        self.n = 0

    def name(self, t, depth=0):
        if depth > 6:
            return "…"
        d = dig(t)
        if d is not None:
            return "H(" + self.chain(d.a[0], depth + 1) + ")"
        t0 = t
        sl = rulelib.slice_of(t)
        if sl is not None:
            b, lo, hi = sl
            r = self.root(b)
            if r in ("RX", "TX"):
                pass
            lo_s = "" if lo.op == "k" and lo.a[0] == 0 else self.bound(lo)
            return f"{self.name(b, depth+1)}[{lo_s}..{self.bound(hi)}]"
        return self.root(t)

    def bound(self, t):
        if t is None:
            return "len"
        c, d = lin_parts(t)
        l = []
        for x, k in d.items():
            l.append(("" if k == 1 else "-" if k == -1 else f"{k}*") + self.bname(x))
        l.sort()
        if c:
            l.append(str(c))
        return "+".join(l) or "0"

    def bname(self, x):
        s = show(x)
        if x.op == "pure" and x.a[0] == "encend":
            return "end"
        if x.op == "pure" and x.a[0].startswith("rdend"):
            return "rdend"
        if x.op == "pure" and x.a[0].endswith("get_size"):
            return "size(" + self.bname(x.a[1][0]) + ")"
        if x.op == "fld" or x.op == "mem":
            return path_tail(x)
        if x.op == "call":
            return x.a[0].split("::")[-1]
        return x.op

    def root(self, t):
        x = t
        if x.op == "bytes":
            try:
                return "'" + bytes(c.a[0] if isinstance(c, T) else c for c in x.a[0]).decode("latin1").replace("\0", "0") + "'"
            except Exception:
                return "bytes"
        if x.op in ("patch", "enc"):
            o = x
            np = 0
            while o.op == "patch":
                np += 1
                o = o.a[0]
            if o.op == "enc":
                m = rulelib.Out(o).code
                return f"TX({(m or '?').replace('Spdm','')}){'*'*np}"
            if o.op == "wire":
                return "RX"
            if o.op == "rep":
                y = x
                # a buffer patched from 0 with a digest
                if np == 1 and y.a[1].op == "k" and y.a[1].a[0] == 0:
                    return "B(" + self.name(y.a[3]) + ")"
            return f"patch({self.root(o)})"
        if x.op == "wire":
            return "RX"
        if x.op in ("mem", "fld"):
            return path_tail(x)
        if x.op == "call":
            return x.a[0].split("::")[-1] + "()"
        if x.op == "agg":
            return x.a[0].split("::")[-1]
        if x.op == "app":
            return "<" + self.chain(x) + ">"
        return x.op

    def chain(self, t, depth=0):
        b, l = base_chunks(t)
        bs = "" if b.op in ("empty", "hctx") else (self.root(b) + "~")
        return bs + "|".join(self.name(x, depth + 1) for x in l)


def path_tail(x, n=3):
    """last field names of a place-valued term"""
    names = []
    y = x
    while True:
        if y.op == "fld":
            e = y.a[1]
            if e[0] == "f":
                names.append(e[1])
            elif e[0] == "i":
                names.append("[" + Cls().bname(e[1]) + "]")
            y = y.a[0]
            continue
        if y.op == "mem":
            names += [e[1] if e[0] in ("f",) else "[]" for e in reversed(y.a[1]) if e[0] in ("f", "i")]
            r = y.a[0]
            if r[0] == "SES":
                names.append("SES")
            elif r[0] == "D":
                z = r[1]
                if z.op in ("fld", "mem"):
                    y = z
                    continue
                names.append(z.op if z.op != "call" else z.a[0].split("::")[-1])
            break
        names.append(y.op if y.op != "call" else y.a[0].split("::")[-1])
        break
    names = [z for z in names if z not in ("0", "1")]
    names.reverse()
    return ".".join(names[-n:])
