"""Shared vocabulary of the rules: term matchers and the rule base class."""
import re
from terms import *
from interp import Hooks, short, ctx_stack, norm
from jobs import Rec
import domain

SEND = "spdmlib::common::SpdmDeviceIo::send"
RECV = "spdmlib::common::SpdmDeviceIo::receive"
CODE = "spdmlib::message::SpdmRequestResponseCode"


class Rule(Hooks):
    prop = "?"

    def __init__(self, prog, job):
        self.prog, self.job = prog, job
        self.recs = []
        self._seen = {}

    def ob(self, key, ok, where="", why=""):
        r = self._seen.get(key)
        if r is None:
            r = self._seen[key] = Rec(self.prop, key, ok, where, why if not ok else "")
            self.recs.append(r)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.where, r.why = False, where, why
        return ok

    def finish(self, run):
        pass

    # ---- enum helpers
    def vname(self, adt, d):
        for v in self.prog.adts[adt]["v"]:
            if v["d"] == d:
                return v["n"]
        return None

    def vdisc(self, adt, name):
        for v in self.prog.adts[adt]["v"]:
            if v["n"] == name:
                return v["d"]
        raise KeyError(f"{adt}::{name}")

    def variant(self, st, t, adt):
        """name of the variant of enum value t if known, else None"""
        if t.op == "agg":
            return t.a[2]
        d = st.val(discr(t))
        return self.vname(adt, d) if d is not None else None

    def adt(self, suffix):
        c = [a for a in self.prog.adts if a == suffix or a.endswith("::" + suffix)]
        if len(c) != 1:
            raise KeyError(f"type {suffix}: {c}")
        return c[0]


def stack(eng, call):
    return [short(eng.prog.fns[f].name) if f in eng.prog.fns else str(f) for f, bb in ctx_stack(call.ctx)]


def where(call):
    return call.where()


def slice_of(t):
    """(base, lo, hi) if t is base[lo..hi]"""
    if t.op == "fld" and t.a[1][0] == "sl":
        return t.a[0], t.a[1][1], t.a[1][2]
    if t.op == "mem" and t.a[1] and t.a[1][-1][0] == "sl":
        return mk("mem", t.a[0], t.a[1][:-1], t.a[2]), t.a[1][-1][1], t.a[1][-1][2]
    return None


def unslice(t):
    while True:
        s = slice_of(t)
        if s is None or not (s[1].op == "k" and s[1].a[0] == 0):
            return t
        t = s[0]


class Out:
    """an outgoing packet, taken apart: transport layers, then the SPDM message"""
    __slots__ = ("secured", "app", "session", "payload", "layers", "used", "raw", "encs", "patches", "msg", "first", "is_req")

    def __init__(self, t):
        self.raw = t
        self.secured = self.app = False
        self.session = None
        self.is_req = None
        self.layers = []
        x = t
        while True:
            s = slice_of(x)
            if s is not None and s[0].op == "wire" and s[1].op == "k" and s[1].a[0] == 0:
                x = s[0]
            if x.op == "wire" and x.a[0] in ("encap", "aead-enc", "app"):
                self.layers.append(x.a[0])
                if x.a[0] == "aead-enc":
                    self.secured, self.session, self.is_req = True, x.a[3], x.a[2]
                if x.a[0] == "app":
                    self.app = x.a[2] is not FALSE
                x = x.a[1]
            else:
                break
        self.payload = x
        s = slice_of(x)
        self.used = s[2] if s is not None else None
        y = s[0] if s is not None else x
        self.encs, self.patches = [], []
        while y.op in ("enc", "patch"):
            if y.op == "enc":
                self.encs.append(y)
                y = y.a[0]
            else:
                self.patches.append((y.a[1], y.a[2], y.a[3], len(self.encs)))
                y = y.a[0]
        # a single message written at offset 0
        self.msg = self.first = None
        if self.encs and y.op == "empty":
            e = self.encs[-1]
            if e.a[2].op == "k" and e.a[2].a[0] == 0:
                self.first = e.a[1]
        if len(self.encs) == 1 and y.op == "empty":
            e = self.encs[0]
            if e.a[2].op == "k" and e.a[2].a[0] == 0:
                self.msg = e.a[1]

    def header(self, f):
        """header field of the first message in the packet"""
        if self.first is None:
            return None
        m = self.first
        if m.op == "agg" and field_index(m.a[0], "header") is None:
            return fld(m, F(f)) if field_index(m.a[0], f) is not None else None
        return fldp(m, (F("header"), F(f)))

    def field(self, name):
        """field of the message body (the payload structure) of the first message"""
        m = self.first
        if m is None or m.op != "agg" or len(m.a[3]) < 2:
            return None
        b = m.a[3][1]
        if b.op == "agg" and len(b.a[3]) == 1:
            b = b.a[3][0]
        if b.op == "agg":
            i = field_index(b.a[0], name)
            return b.a[3][i] if i is not None and i < len(b.a[3]) else None
        return None

    @property
    def code(self):
        c = self.header("request_response_code")
        return c.a[2] if c is not None and c.op == "agg" else None


def calls_in(t, pat):
    r = re.compile(pat)
    return [x for x in subterms(t) if x.op == "call" and r.search(x.a[0])]


def alts(x, n=0):
    """possible values of a joined value"""
    if x.op == "phi" and len(x.a) == 3 and isinstance(x.a[1], T) and isinstance(x.a[2], T) and n < 6:
        return alts(x.a[1], n + 1) + alts(x.a[2], n + 1)
    return [x]


def succeeded(st, prog, pat, pred=None):
    """calls of primitives matching pat (and whose argument tuple satisfies pred) whose
    success was established in st; of a joined result every alternative must qualify"""
    r = re.compile(pat)
    out = []
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "discr" and f[0] == "=":
            cs = alts(t.a[0])
            if all(c.op == "call" and r.search(c.a[0]) and f[1] == good_discr(prog, c.a[0]) and (pred is None or pred(c.a[2])) for c in cs):
                out += cs
    return out


_ret = {}


def good_discr(prog, name):
    """discriminant of success of the return type of function `name`"""
    k = (id(prog), name)
    if k not in _ret:
        v = None
        for fn in prog.byname.get(name, []):
            t = prog.tys[fn.crate][fn.locals[0]]
            if t["k"] == "adt":
                v = 1 if t["p"] == OPT else 0 if t["p"] == RES else None
        if v is None and re.search(r"::(SpdmDeviceIo|SpdmTransportEncap)::", name):
            v = 0
        _ret[k] = v
    return _ret[k]


# ---------------------------------------------------------------- facts about configuration values
from transcript import path_tail  # noqa: E402  (shared naming of places)


def has_sub(t, pred):
    return any(pred(x) for x in subterms(t))


def received(t):
    """does the value derive from a received packet?"""
    return has_sub(t, lambda x: x.op == "wire" and x.a[0] == "rx")


def field_names(t):
    """all field names used along the place denoted by t (through references)"""
    out = []
    seen = 0
    while t is not None and seen < 60:
        seen += 1
        if t.op == "fld":
            if t.a[1][0] == "f":
                out.append(t.a[1][1])
            t = t.a[0]
        elif t.op in ("mem", "ref"):
            out += [e[1] for e in reversed(t.a[1]) if e[0] == "f"]
            r = t.a[0]
            t = r[1] if r[0] == "D" else None
        elif t.op in ("deref",):
            t = t.a[0]
        else:
            break
    return out


def indices(t):
    """index terms along the place denoted by t"""
    out = []
    n = 0
    while t is not None and n < 60:
        n += 1
        if t.op == "fld":
            if t.a[1][0] == "i":
                out.append(t.a[1][1])
            t = t.a[0]
        elif t.op in ("mem", "ref"):
            out += [e[1] for e in reversed(t.a[1]) if e[0] == "i"]
            r = t.a[0]
            t = r[1] if r[0] == "D" else None
        else:
            break
    return out


def bit(st, field, mask, root=None):
    """is bit `mask` of the flags value stored in a field called `field` known to be set?  True/False/None"""
    for t, f in st.facts.items():
        if not (isinstance(t, T) and t.op == "and"):
            continue
        x, m = t.a
        if x.op == "k":
            x, m = m, x
        if m.op != "k" or m.a[0] != mask:
            continue
        if root is not None and not root(x):
            continue
        if field not in field_names(x) and field not in arg_names(x):
            continue
        if f[0] == "=":
            return f[1] == mask
        if mask in f[1]:
            return False
        if 0 in f[1]:
            return True
    return None


def arg_names(t):
    out = []
    for x in subterms(t):
        if x.op == "arg":
            out.append(x.a[0])
    return out


HANDSHAKE_IN_THE_CLEAR = 0x8000


def in_clear(st):
    """HANDSHAKE_IN_THE_CLEAR negotiated by both sides? True/False/None"""
    a = bit(st, "req_capabilities_sel", HANDSHAKE_IN_THE_CLEAR)
    b = bit(st, "rsp_capabilities_sel", HANDSHAKE_IN_THE_CLEAR)
    if a is False or b is False:
        return False
    if a and b:
        return True
    return None


def flag_empty(st, field, root=None):
    """is the bitflags value stored in `field` known to be empty? True / False / None"""
    for t, f in st.facts.items():
        if not isinstance(t, T) or t.op not in ("mem", "fld"):
            continue
        n = field_names(t)
        if not n or n[0] not in ("bits", field) or field not in n:
            continue
        if root is not None and not (t.op == "mem" and t.a[0] is root or t.op == "mem" and t.a[0] == root):
            continue
        if f[0] == "=":
            return f[1] == 0
        if 0 in f[1]:
            return False
    return None


def may_ok(st, ret):
    """can this return value be Ok?"""
    if ret.op == "agg":
        return ret.a[2] == "Ok"
    d = discr(ret)
    v = st.val(d)
    if v is not None:
        return v == 0
    f = st.facts.get(d)
    return not (f is not None and f[0] == "!" and 0 in f[1])


def root_of(t):
    """memory root of the place t"""
    n = 0
    while t is not None and n < 60:
        n += 1
        if t.op == "fld":
            t = t.a[0]
        elif t.op in ("mem", "ref"):
            return t.a[0]
        else:
            return None
    return None
