"""C13 C14: protection of secured records.  Analysed on the session object itself (policy "low")."""
from rulelib import *
from registry import prop, flow
from jobs import Job
from domain import deepall

SESSION = "spdmlib::common::session::SpdmSession"
SSTATE = "spdmlib::common::session::SpdmSessionState"
PHASES = ("handshake_secret", "application_secret")
DIRS = ("request_direction", "response_direction")
MAXSEQ = 0xFFFFFFFFFFFFFFFF


def low(*names):
    def f(c):
        return [Job(c, SESSION + "::" + n, pol="low") for n in names]
    return f


def case(disc, req):
    """entry assumption: session state, direction"""
    def setup(eng, st, a):
        t = eng.rd(st, ("D", mk("arg", "self")), (F("session_state"),))
        if isinstance(disc, frozenset):
            for d in disc:
                st.assume_ne(discr(t), d)
        else:
            st.assume_eq(discr(t), disc)
        st.assume(mk("arg", "is_requester"), req)
    setup.__name__ = f"state{disc if not isinstance(disc, frozenset) else 'other'}{'req' if req else 'rsp'}"
    return setup


def cases(*names):
    def f(c):
        return [Job(c, SESSION + "::" + n, pol="low", unroll=8, setup=case(d, r)) for n in names for d in (1, 2, frozenset((1, 2))) for r in (True, False)]
    return f


ENC, DEC = "encode_spdm_secured_message", "decode_spdm_secured_message"


def selfroot():
    return ("D", mk("arg", "self"))


def byte_of(t):
    """(x, i) if t is byte i (little endian) of x"""
    n = 0
    while n < 6:
        n += 1
        if t.op == "trunc" and t.a[1] == 8:
            t = t.a[0]
        elif t.op == "and" and any(k is K(255) for k in t.a):
            t = t.a[0] if t.a[1] is K(255) else t.a[1]
        else:
            break
    if t.op == "fld" and t.a[1][0] == "i" and t.a[1][1].op == "k" and t.a[0].op == "pure" and t.a[0].a[0].endswith("to_le_bytes"):
        return t.a[0].a[1][0], t.a[1][1].a[0]
    if t.op == "bin" and t.a[0] == "Shr" and t.a[2].op == "k" and t.a[2].a[0] % 8 == 0:
        return t.a[1], t.a[2].a[0] // 8
    if t.op == "bin" and t.a[0] == "Div" and t.a[2] is K(256):
        return t.a[1], 1
    return t, 0


def strip_some(t):
    while t.op == "fld" and t.a[1][0] in ("v", "f") and t.a[1] != F("data"):
        t = t.a[0]
    return t


class Record(Rule):
    """the phase and direction a record must use"""

    def wanted(self, eng, st):
        d = st.val(discr(eng.rd(st, selfroot(), (F("session_state"),))))
        n = self.vname(SSTATE, d) if d is not None else None
        ph = {"SpdmSessionHandshaking": "handshake_secret", "SpdmSessionEstablished": "application_secret"}.get(n)
        t = st.truth(mk("arg", "is_requester"))
        dr = None if t is None else DIRS[0] if t else DIRS[1]
        return ph, dr

    def place(self, eng, st, ref):
        """(phase, direction, rest) of a reference into this session's secrets"""
        t = ref
        if t.op == "ref":
            r, p = t.a[0], t.a[1]
            v = eng.rd(st, r, p)
            if r != selfroot():
                t = v
                while t.op == "fld":
                    t = t.a[0]
                if t.op == "agg" or t.op != "mem":
                    # a copy: look at the data field
                    i = field_index(t.a[0], "data") if t.op == "agg" else None
                    t = t.a[3][i] if i is not None else t
                    while t.op == "fld":
                        t = t.a[0]
                r, p = (t.a[0], t.a[1]) if t.op == "mem" else (None, ())
        else:
            r, p = (t.a[0], t.a[1]) if t.op == "mem" else (None, ())
        if r != selfroot():
            return None
        names = [e[1] for e in p if e[0] == "f"]
        return names


prop("C13", "At every aead::encrypt / aead::decrypt call reachable from encode_/decode_spdm_secured_message: key, IV and sequence number belong to the phase given by the session state and the direction "
     "given by is_requester; the first 8 IV bytes are XORed with the bytes of that sequence number; AEAD algorithm is the session's; encrypt covers session id (and sequence number, length) as AAD, "
     "the length-prefixed application data as plaintext and the full tag; decrypt covers the whole header of the received record as AAD, header | ciphertext | tag lie back to back, the tag has full size, "
     "and the received session id equals the session's.  Plaintext reaches the caller only from a successful decrypt; success is returned only after the AEAD call succeeded.",
     quick=("A",), expect=[("^encrypt: ", 8), ("^decrypt: ", 8), ("^encode: success", 1), ("^decode: success", 1), ("^decode: failure", 1)])


@flow("C13", cases(ENC, DEC))
class Protect(Record):
    def on_call(self, eng, call, args, st):
        if not re.search(r"crypto::aead::(encrypt|decrypt)$", call.name):
            return None
        k = call.name.split("::")[-1]
        w = call.fn.name.split("::")[-1] if hasattr(call, "fn") else self.job.name
        ph, dr = self.wanted(eng, st)
        self.ob(f"{k}: only in a handshaking or established session, direction known", ph is not None and dr is not None, w, "session state or direction not determined at the AEAD call")
        if ph is None or dr is None:
            return None
        key = self.place(eng, st, args[1])
        self.ob(f"{k}: key of the session phase and direction", key is not None and key[:3] == [ph, dr, "encryption_key"], w, f"expected {ph}.{dr}.encryption_key, used {key}")
        iv = self.place(eng, st, args[2])
        self.ob(f"{k}: IV of the session phase and direction", iv is not None and iv[:3] == [ph, dr, "salt"], w, f"expected {ph}.{dr}.salt, used {iv}")
        algo = deepall(eng, st, args[0])
        self.ob(f"{k}: AEAD algorithm of the session", "aead_algo" in field_names(algo) and "crypto_param" in field_names(algo), w, show(algo)[:200])
        # the first 8 bytes of the IV
        seq = eng.rd(st, selfroot(), (F(ph), F(dr), F("sequence_number")))
        bad = []
        r = args[2]
        box = eng.rd(st, r.a[0], r.a[1] + (F("data"),)) if r.op == "ref" else None
        for i in range(8):
            v = eng.rd(st, ("D", box), (("i", K(i)),)) if box is not None and box.op != "agg" else None
            ok = False
            if v is not None and v.op == "xor":
                for x, y in (v.a, v.a[::-1]):
                    if byte_of(x) == (seq, i) and "salt" in field_names(y) and indices_k(y) == i:
                        ok = True
            if not ok:
                bad.append((i, show(v)[:120] if v is not None else "?"))
        self.ob(f"{k}: IV is XORed with the sequence number", not bad, w, f"IV bytes not salt ^ sequence number: {bad[:3]}")
        self.ob(f"{k}: sequence number not exhausted", self.not_max(st, seq), w, "the sequence number is not known to differ from its maximum here")
        if k == "encrypt":
            self.encrypt(eng, st, args, w, ph, dr, seq)
        else:
            self.decrypt(eng, st, args, w, ph, dr, seq)
        st.may = st.may | {("aead", k, ph, dr)}
        return None

    def not_max(self, st, seq):
        lo, hi = st.bounds(seq)
        f = st.facts.get(seq)
        return (hi is not None and hi < MAXSEQ) or (f is not None and f[0] == "!" and MAXSEQ in f[1])

    def encs(self, t):
        out = []
        while t.op in ("enc", "patch"):
            if t.op == "enc":
                out.append(t)
            t = t.a[0]
        return out[::-1], t

    def encrypt(self, eng, st, args, w, ph, dr, seq):
        aad = deepall(eng, st, args[3])
        sl = slice_of(aad)
        es, base = self.encs(sl[0]) if sl else ([], None)
        sid = eng.rd(st, selfroot(), (F("session_id"),))
        ok = bool(es) and base.op == "empty" and es[0].a[1] is sid and es[0].a[2] is K(0)
        self.ob("encrypt: the session id is authenticated as the first field of the header", ok, w, "AAD: " + show(aad)[:200])
        self.ob("encrypt: the whole header is authenticated", bool(es) and sl[1] is K(0) and sl[2] is es[-1].a[3], w, "the AAD does not span everything written to the header: " + show(aad)[:200])
        mid = es[1:-1] if es else []
        self.ob("encrypt: explicit sequence number bytes are those of the counter", all(byte_of(e.a[1]) == (seq, i) or e.a[1].op == "phi" or has_sub(e.a[1], lambda x: x is seq) for i, e in enumerate(mid)), w, "header bytes: " + ", ".join(show(e.a[1])[:60] for e in mid))
        pt = deepall(eng, st, args[4])
        ps = slice_of(pt)
        app = mk("arg", "app_buffer")
        ok = ps is not None and ps[1] is K(0) and has_sub(ps[0], lambda x: x.op == "enc" and x.a[2] is K(0) and is_len(x.a[1], app)) and has_sub(ps[0], lambda x: x.op == "mem" and x.a[0] == ("D", app))
        self.ob("encrypt: plaintext is the length followed by the application data", ok, w, "plaintext: " + show(pt)[:300])
        tag = deepall(eng, st, args[5])
        tl = tag.a[1] if tag.op == "rep" else None
        if tl is None and slice_of(tag):
            tl = slice_of(tag)[2]
        self.ob("encrypt: full tag of the negotiated AEAD", tl is not None and isinstance(tl, T) and tl.op == "pure" and tl.a[0].endswith("get_tag_size"), w, "tag buffer " + show(tag)[:160])
        out = deepall(eng, st, args[6])
        os_ = slice_of(out)
        ok = os_ is not None and es and os_[1] is es[-1].a[3] and ps is not None and sub(os_[2], os_[1]) is ps[2]
        self.ob("encrypt: ciphertext directly follows the header and has the size of the plaintext", ok, w, show(out)[:200])

    def decrypt(self, eng, st, args, w, ph, dr, seq):
        rx = mk("arg", "secured_buffer")
        a, c, t = (slice_of(deepall(eng, st, args[i])) for i in (3, 4, 5))
        isrx = lambda s: s is not None and s[0].op == "mem" and s[0].a[0] == ("D", rx)
        self.ob("decrypt: header, ciphertext and tag are parts of the received record", isrx(a) and isrx(c) and isrx(t), w, "")
        if not (isrx(a) and isrx(c) and isrx(t)):
            return
        self.ob("decrypt: the header is authenticated from its first byte", a[1] is K(0), w, show(a[1])[:100])
        self.ob("decrypt: header | ciphertext | tag lie back to back", a[2] is c[1] and c[2] is t[1], w, f"{show(a[2])[:80]} / {show(c[1])[:80]} ; {show(c[2])[:80]} / {show(t[1])[:80]}")
        ts = sub(t[2], t[1])
        self.ob("decrypt: full tag of the negotiated AEAD", ts.op == "pure" and ts.a[0].endswith("get_tag_size"), w, show(ts)[:200])
        ln = add(sub(t[2], a[2]), K(0))
        reads = [x for x in subterms(ln) if x.op == "pure" and x.a[0].startswith("rd:")]
        ok = len(reads) == 1 and reads[0].a[1][0] is not None and has_sub(ln, lambda x: x is reads[0]) and not lin_rest(ln, reads[0])
        self.ob("decrypt: ciphertext and tag take exactly the length given in the header", ok, w, show(ln)[:200])
        self.ob("decrypt: header ends where the length field ends", bool(reads) and ends(a[2], reads[0]), w, show(a[2])[:200])
        sid = eng.rd(st, selfroot(), (F("session_id"),))
        ok = any(isinstance(x, T) and x.op == "eq" and f == ("=", 1) and sid in x.a and any(has_sub(y, lambda z: z.op == "pure" and z.a[0].startswith("rd:") and z.a[1][1] is K(0)) for y in x.a) for x, f in st.facts.items()) \
            or any(isinstance(x, T) and x.op == "ne" and f == ("=", 0) and sid in x.a for x, f in st.facts.items())
        self.ob("decrypt: received session id is this session's", ok, w, "no comparison of the session id read from the record with the session's own id succeeded on this path")
        out = deepall(eng, st, args[6])
        self.ob("decrypt: plaintext goes to a private buffer", not has_sub(out, lambda x: x.op == "mem" and x.a[0] == ("D", mk("arg", "app_buffer"))), w, "decrypts directly into the caller's buffer")

    def finish(self, run):
        k = "encode" if self.job.name == ENC else "decode"
        prim = "encrypt" if k == "encode" else "decrypt"
        for st, ret in run.outs:
            if may_ok(st, ret):
                cs = succeeded(st, self.prog, rf"crypto::aead::{prim}$")
                self.ob(f"{k}: success only after a successful AEAD {prim}", bool(cs), self.job.name, "returns Ok on a path on which the AEAD call is not known to have succeeded")
                buf = mk("arg", "secured_buffer" if k == "encode" else "app_buffer")
                v = deepall(run.eng, st, run.eng.rd(st, ("D", buf), ()))
                if k == "decode":
                    pts = [x for x in subterms(v) if x.op == "call" and x.a[0].startswith("spdmlib::crypto::aead::decrypt!out")]
                    ok = bool(pts) and v.op == "patch" and v.a[1] is K(0)
                    self.ob("decode: success hands out decrypted data", ok, self.job.name, show(v)[:200])
                    n = ret.a[3][0] if ret.op == "agg" else None
                    ok = v.op == "patch" and n is not None and (v.a[2] is n or set(alts(v.a[2])) == set(alts(n)))
                    self.ob("decode: success reports the length handed out", ok, self.job.name, show(n)[:100] if n is not None else "")
                else:
                    ps = []
                    y = v
                    while y.op == "patch":
                        ps.append(y)
                        y = y.a[0]
                    ct = [p for p in ps if has_sub(p.a[3], lambda x: x.op == "call" and x.a[0].startswith("spdmlib::crypto::aead::encrypt!out6")) or (p.a[3].op == "phi")]
                    tg = [p for p in ps if has_sub(p.a[3], lambda x: x.op == "call" and x.a[0].startswith("spdmlib::crypto::aead::encrypt!out5"))]
                    hd = [p for p in ps if p.a[1] is K(0)]
                    self.ob("encode: success outputs header, ciphertext and tag", bool(hd) and bool(ct) and bool(tg), self.job.name, show(v)[:300])
                    if hd and ct and tg:
                        n = ret.a[3][0] if ret.op == "agg" else None
                        ok = any(p.a[1] is hd[0].a[2] for p in ct) and any(p.a[1] is q.a[2] for p in tg for q in ct)
                        self.ob("encode: header | ciphertext | tag lie back to back", ok, self.job.name, "")
                        self.ob("encode: reported length is the end of the tag", n is not None and any(p.a[2] is n for p in tg), self.job.name, show(n)[:100] if n is not None else "")
            elif k == "decode":
                v = run.eng.rd(st, ("D", mk("arg", "app_buffer")), ())
                self.ob("decode: failure hands out nothing", v.op == "mem", self.job.name, "the caller's buffer is written on a path that returns an error: " + show(v)[:160])


def indices_k(t):
    i = indices(t)
    return i[0].a[0] if i and isinstance(i[0], T) and i[0].op == "k" else None


def is_len(t, buf):
    return has_sub(t, lambda x: x.op == "len" and has_sub(x, lambda y: y is buf))


def lin_rest(t, read):
    """does t contain anything but the payload of `read` (linear, coefficient 1)?"""
    c, d = lin_parts(t)
    return c != 0 or len(d) != 1 or list(d.values())[0] != 1


def ends(t, read):
    return t.op == "pure" and t.a[0].startswith("rdend") and t.a[1] == read.a[1]


class Direction(Rule):
    """which side of the session is used by requester and responder"""
    SIDE = None

    def on_call(self, eng, call, args, st):
        n = call.name
        if n == SESSION + "::" + DEC:
            want = not self.SIDE
            a = deepall(eng, st, args[3])
            self.ob(f"{self.who}: records are received in the peer's direction", a is K(want), call.where(), f"is_requester = {show(a)}")
            r, p = eng.deref(args[0])
            self.ob(f"{self.who}: records are decoded by a session found by its id", r[0] == "SES", call.where(), str(r[0]))
        elif n == SESSION + "::" + ENC:
            a = deepall(eng, st, args[3])
            self.ob(f"{self.who}: records are sent in the own direction", a is K(self.SIDE), call.where(), f"is_requester = {show(a)}")
            r, p = eng.deref(args[0])
            self.ob(f"{self.who}: records are encoded by a session found by its id", r[0] == "SES", call.where(), str(r[0]))
        elif n == SEND:
            o = Out(deepall(eng, st, args[1]))
            if o.secured:
                ok = bool(succeeded(st, self.prog, r"SpdmSession::encode_spdm_secured_message$"))
                self.ob(f"{self.who}: a record is sent only after it was encoded", ok, call.where(), "the encoding of the record is not known to have succeeded")
                self.ob(f"{self.who}: transport layers of a record", o.layers[:3] == ["encap", "aead-enc", "app"] or o.layers[:3] == ["encap", "aead-enc"], call.where(), str(o.layers))
        return None


@flow("C13", lambda c: __import__("registry").responder(c))
class RespDirection(Direction):
    SIDE, who = False, "responder"


from registry import req  # noqa: E402


@flow("C13", req("send_receive_spdm_heartbeat", "send_receive_spdm_finish", "send_receive_spdm_psk_finish", "send_receive_spdm_end_session", "send_receive_spdm_measurement"))
class ReqDirection(Direction):
    SIDE, who = True, "requester"


prop("C14", "Over every path of encode_/decode_spdm_secured_message: a path on which encrypt was called (whatever its result), or decrypt succeeded, leaves exactly the counter of the phase and direction "
     "it used at old + 1 and the others unchanged; encrypt is not called with the maximum counter.  In every other method of the session a counter changes only together with the key it counts for. "
     "The counter setters are not called within the library.",
     quick=("A",), expect=[("^encrypt: counter advanced", 4), ("^decrypt: counter advanced", 4), ("key changes with", 3)])


@flow("C14", cases(ENC, DEC))
class Counter(Record):
    def on_call(self, eng, call, args, st):
        m = re.search(r"crypto::aead::(encrypt|decrypt)$", call.name)
        if m:
            ph, dr = self.wanted(eng, st)
            key = self.place(eng, st, args[1]) or [None, None]
            st.may = st.may | {("aead", m.group(1), key[0], key[1])}
            seq = eng.rd(st, selfroot(), (F(ph), F(dr), F("sequence_number"))) if ph and dr else None
            ok = seq is not None and Protect.not_max(self, st, seq)
            self.ob(f"{m.group(1)}: counter below its maximum ({ph}.{dr})", ok, self.job.name, "the AEAD may be used with an exhausted counter")
        return None

    def finish(self, run):
        for st, ret in run.outs:
            used = [m for m in st.may if isinstance(m, tuple) and m and m[0] == "aead"]
            now, old = {}, {}
            for ph in PHASES:
                for d in DIRS:
                    now[ph, d] = run.eng.rd(st, selfroot(), (F(ph), F(d), F("sequence_number")))
                    old[ph, d] = run.eng.rd(run.eng.__class__.__mro__[0] and __import__("interp").State(), selfroot(), (F(ph), F(d), F("sequence_number")))
            adv = {k for k in now if now[k] is add(old[k], K(1))}
            same = {k for k in now if now[k] is old[k]}
            if len(adv) + len(same) != 4:
                self.ob("a counter only ever moves by one", False, self.job.name, str([show(now[k])[:80] for k in now if k not in adv and k not in same]))
                continue
            for (_, p, ph, d) in used:
                must = p == "encrypt" or bool(succeeded(st, self.prog, r"aead::decrypt$"))
                self.ob(f"{p}: counter advanced ({ph}.{d})", (ph, d) in adv or not must, self.job.name, f"the record used {ph}.{d} but its counter is not advanced on a path returning {show(ret)[:60]}")
                self.ob(f"{p}: other counters untouched ({ph}.{d})", adv <= {(ph, d)}, self.job.name, f"advanced: {sorted(adv)}")


OTHER = ["setup", "teardown", "set_default", "set_use_psk", "set_slot_id", "set_dhe_secret", "set_crypto_param", "set_transport_param", "set_session_state", "set_mut_auth_requested",
         "generate_handshake_secret", "generate_data_secret", "create_data_secret_update", "activate_data_secret_update", "export_keys"]


@flow("C14", low(*OTHER))
class CounterKey(Rule):
    """the counter changes only with the key"""

    def finish(self, run):
        from interp import State
        fresh = State()
        for st, ret in run.outs:
            for ph in PHASES:
                for d in DIRS:
                    get = lambda s, f: run.eng.rd(s, selfroot(), (F(ph), F(d), F(f)))
                    if get(st, "sequence_number") is not get(fresh, "sequence_number"):
                        k0, k1 = get(fresh, "encryption_key"), get(st, "encryption_key")
                        self.ob(f"{self.job.name}: key changes with the counter ({ph}.{d})", k0 is not k1, self.job.name, "the sequence number is changed but the key it counts for is kept")
        self.ob(f"{self.job.name}: analysed", True, self.job.name)


from registry import structural  # noqa: E402


@structural("C14")
def setters_unused(prog, pid):
    from jobs import Rec
    out = []
    for name in ("set_request_direction_sequence_number", "set_response_direction_sequence_number"):
        n = SESSION + "::" + name
        callers = sorted({f.name for f in prog.fns.values() for c, sp in f.callees() if c == n})
        out.append(Rec(pid, f"counter setter {name} is not used by the library", not callers, ", ".join(callers)[:200], "the counter is set to an arbitrary value"))
    return out
