"""rust-spdm specific models: sessions, transcript buffers, hash contexts,
message codec calls, readers/writers, and which functions are primitives."""
import re
from terms import *
from interp import Engine, State, Hooks, Call, short, ctx_stack, norm
from models import split, NONE


PRIMITIVE = re.compile(r"^spdmlib::(crypto|secret)::")
PURE_METHODS = ("get_u8", "get_u16", "get_u32")


def deepall(eng, st, v, n=0):
    """value with every reference/box inside replaced by content"""
    if n > 8:
        return v
    if v.op == "ref":
        return deepall(eng, st, eng.rd(st, v.a[0], v.a[1]), n + 1)
    if v.op == "agg":
        return AGG(v.a[0], v.a[1], v.a[2], [deepall(eng, st, x, n + 1) for x in v.a[3]])
    if v.op == "upd":
        return upd(deepall(eng, st, v.a[0], n + 1), [(p, deepall(eng, st, x, n + 1)) for p, x in v.a[1]])
    return v


def session_lookup(eng, call, args, st):
    """get_session_via_id / get_immutable_session_via_id: the session object whose id is `id`"""
    cr, cp = eng.deref(args[0])
    sid = args[1]
    # an already materialised session whose id field was set to exactly this value
    for r, m in st.mem.items():
        if r[0] == "SES" and r[1] == cr and r[2] == cp:
            w = m.get((F("session_id"),))
            if w is sid and r[3] is not sid:
                return [(st, SOME(REF(r, ())))]
    root = ("SES", cr, cp, sid)
    w = None
    if root in st.mem:
        w = st.mem[root].get((F("session_id"),))
        if w is None and () in st.mem[root]:
            w = fldp(st.mem[root][()], (F("session_id"),))
    if w is not None and w is not sid:
        # the object that carried this id no longer does
        if w.op == "k" and sid.op == "k" or (w.op == "k" and w.a[0] == 0):
            root = ("SES", cr, cp, sid, "other")
    t = mk("pure", "session", (mk("loc", cr, cp), sid) + ((mk("k", "other"),) if len(root) > 4 else ()))
    out = []
    d = discr(t)
    eng.note_test(d, call.fr, call.bb)
    s = st.copy()
    if s.assume_eq(d, 1):
        out.append((s, SOME(REF(root, ()))))
    if st.assume_eq(d, 0):
        out.append((st, NONE))
    return out


EMPTY = mk("empty")


def mb_append(eng, call, args, st):
    r, p = eng.deref(args[0])
    old = eng.rd(st, r, p)
    data = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "append", (old, data))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 1):
        eng.wr(s, call.fr, r, p, mk("app", old, data), call.span)
        out.append((s, SOME(fldp(t, (V("Some"), F(0))))))
    if st.assume_eq(discr(t), 0):
        out.append((st, NONE))
    return out


def mb_reset(eng, call, args, st):
    r, p = eng.deref(args[0])
    eng.wr(st, call.fr, r, p, EMPTY, call.span)
    return [(st, UNIT)]


def mb_asref(eng, call, args, st):
    return [(st, args[0])]


def mb_default(eng, call, args, st):
    return [(st, EMPTY)]


def h_init(eng, call, args, st):
    t = eng.fresh(call, st, "", tuple(args))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 1):
        out.append((s, SOME(mk("hctx", args[0]))))
    if st.assume_eq(discr(t), 0):
        out.append((st, NONE))
    return out


def h_update(eng, call, args, st):
    r, p = eng.deref(args[0])
    old = eng.rd(st, r, p)
    data = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (old, data))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 0):
        eng.wr(s, call.fr, r, p, mk("app", old, data), call.span)
        out.append((s, OK(UNIT)))
    if st.assume_eq(discr(t), 1):
        eng.wr(st, call.fr, r, p, mk("hv", ("hctx", call.ctx)), call.span)
        out.append((st, ERR(fldp(t, (V("Err"), F(0))))))
    return out


def h_dup(eng, call, args, st):
    v = eng.content(st, args[0])
    t = eng.fresh(call, st, "", (v,))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 1):
        out.append((s, SOME(v)))
    if st.assume_eq(discr(t), 0):
        out.append((st, NONE))
    return out


def h_fin(eng, call, args, st):
    v = args[0]
    t = eng.fresh(call, st, "", (v,))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 1):
        out.append((s, SOME(mk("digest", v))))
    if st.assume_eq(discr(t), 0):
        out.append((st, NONE))
    return out


def hash_all(eng, call, args, st):
    data = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (args[0], data))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 1):
        out.append((s, SOME(mk("digest", mk("app", mk("hctx", args[0]), data)))))
    if st.assume_eq(discr(t), 0):
        out.append((st, NONE))
    return out


def codec_read(eng, call, args, st):
    """<T as Codec>::read(&mut Reader): a pure function of the buffer and the offset"""
    r, p = eng.deref(args[0])
    buf = eng.rd(st, r, p + (F("buf"),))
    off = eng.rd(st, r, p + (F("offs"),))
    b = deepall(eng, st, buf)
    name = call.name
    if call.fn is None and call.ga:
        g = call.ga[0]
        name = f"<{g.get('p') or g['k']+str(g.get('b',''))} as codec::codec::Codec>::read"
    t = mk("pure", "rd:" + name, (b, off))
    eng.wr(st, call.fr, r, p + (F("offs"),), mk("pure", "rdend:" + name, (b, off)), call.span)
    if st.truth(mk("eq", discr(t), K(0))):
        pass
    return [(st, t)]


def codec_spdm_read(eng, call, args, st):
    r, p = eng.deref(args[1])
    buf = deepall(eng, st, eng.rd(st, r, p + (F("buf"),)))
    off = eng.rd(st, r, p + (F("offs"),))
    t = eng.fresh(call, st, "", (buf, off))
    eng.wr(st, call.fr, r, p + (F("offs"),), mk("pure", "rdend:" + call.name, (buf, off)), call.span)
    return [(st, t)]


def codec_spdm_read_bytes(eng, call, args, st):
    buf = deepall(eng, st, args[1])
    return [(st, eng.fresh(call, st, "", (buf, K(0))))]


def enc(eng, call, args, st, wi):
    r, p = eng.deref(args[wi])
    bufref = eng.rd(st, r, p + (F("buf"),))
    off = eng.rd(st, r, p + (F("offs"),))
    msg = deepall(eng, st, args[0])
    br, bp = eng.deref(bufref)
    old = eng.rd(st, br, bp)
    t = eng.fresh(call, st, "", (msg, off))
    if old.op == "rep" or (off.op == "k" and off.a[0] == 0):
        old = EMPTY
    end = mk("pure", "encend", (msg, off))
    eng.wr(st, call.fr, br, bp, mk("enc", old, msg, off, end), call.span)
    eng.wr(st, call.fr, r, p + (F("offs"),), end, call.span)
    return [(st, t)]


def codec_encode(eng, call, args, st):
    return enc(eng, call, args, st, 1)


def codec_spdm_encode(eng, call, args, st):
    return enc(eng, call, args, st, 2)


def enumval(eng, call, args, st):
    v = eng.deep(st, args[0])
    if v.op == "agg":
        return None_inline(eng, call, args, st)
    # discriminant may be known from an earlier test
    d = st.val(discr(v))
    t0 = call.fn.locals[1]
    ty = eng.prog.tys[call.fn.crate][t0]
    if d is not None:
        et = eng.prog.tys[call.fn.crate][ty["e"]] if ty["k"] == "ref" else ty
        a = eng.prog.adts.get(et.get("p"))
        if a:
            for vi, vv in enumerate(a["v"]):
                if vv["d"] == d and not vv["f"]:
                    return None_inline(eng, call, [AGG(et["p"], vi, vv["n"], ())] if ty["k"] != "ref" else [REF(("C", AGG(et["p"], vi, vv["n"], ())), ())], st)
    return [(st, mk("pure", "enumval", (v,)))]


def None_inline(eng, call, args, st):
    return eng.exec_fn(call.fn, [(st, args)], call.ctx)


def size_pure(eng, call, args, st):
    v = eng.deep(st, args[0])
    if v.op == "agg" and all(x.op == "k" for x in v.a[3]):
        return None_inline(eng, call, args, st)
    return [(st, mk("pure", call.fn.name, (v,)))]


def prim(eng, call, args, st):
    """primitive without memory effects: result is a fresh symbol carrying the arguments"""
    vals = tuple(eng.deep(st, a) if a.op == "ref" and a.a[0][0] not in ("D", "SES") else a for a in args)
    return [(st, eng.fresh(call, st, "", vals))]


def ok_err(eng, st, t):
    """fork a primitive's Result"""
    s = st.copy()
    o = []
    if s.assume_eq(discr(t), 0):
        o.append((s, OK(UNIT)))
    if st.assume_eq(discr(t), 1):
        o.append((st, ERR(fldp(t, (V("Err"), F(0))))))
    return o


def ses_prim(*fields):
    """SpdmSession key derivation: Result<()>; on both outcomes the listed fields get new opaque values"""
    def m(eng, call, args, st):
        r, p = eng.deref(args[0])
        vals = tuple(eng.deep(st, a) for a in args[1:])
        t = eng.fresh(call, st, "", (mk("loc", r, p),) + vals)
        for f in fields:
            eng.wr(st, call.fr, r, p + (F(f),), mk("pure", f, (t,)), call.span)
        return ok_err(eng, st, t)
    return m


def ses_codec(eng, call, args, st):
    """encode/decode of a secured message: opaque; consumes the session's sequence numbers"""
    r, p = eng.deref(args[0])
    vals = (mk("loc", r, p), eng.deep(st, args[1]), args[3])
    t = eng.fresh(call, st, "", vals)
    for f in ("handshake_secret", "application_secret"):
        for d in ("request_direction", "response_direction"):
            eng.wr(st, call.fr, r, p + (F(f), F(d), F("sequence_number")), mk("pure", "seq" + f + d, (t,)), call.span)
    kind = "aead-enc" if "encode" in call.name else "aead-dec"
    _bufout(eng, call, args[2], st, mk("wire", kind, vals[1], vals[2], vals[0]))
    return [(st, t)]


def _bufout(eng, call, ref, st, content):
    r, p = eng.deref(ref)
    eng.wr(st, call.fr, r, p, content, call.span)


def io_encap(eng, call, args, st):
    """SpdmTransportEncap::encap(self, spdm_buffer, transport_buffer, secured)"""
    src = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (src, args[3]))
    _bufout(eng, call, args[2], st, mk("wire", "encap", src, args[3]))
    return [(st, t)]


def io_encap_app(eng, call, args, st):
    src = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (src, args[3]))
    _bufout(eng, call, args[2], st, mk("wire", "app", src, args[3]))
    return [(st, t)]


def io_decap(eng, call, args, st):
    src = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (src,))
    _bufout(eng, call, args[2], st, mk("wire", "decap", src))
    return [(st, t)]


def io_decap_app(eng, call, args, st):
    src = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (src,))
    _bufout(eng, call, args[2], st, mk("wire", "decap_app", src))
    return [(st, t)]


def io_send(eng, call, args, st):
    src = deepall(eng, st, args[1])
    t = eng.fresh(call, st, "", (src,))
    if not hasattr(eng.hooks, "on_sent"):
        return [(st, t)]
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 0):
        eng.hooks.on_sent(eng, call, args, s)
        out.append((s, OK(UNIT)))
    if st.assume_eq(discr(t), 1):
        out.append((st, ERR(fldp(t, (V("Err"), F(0))))))
    return out


def io_receive(eng, call, args, st):
    t = eng.fresh(call, st, "", ())
    _bufout(eng, call, args[1], st, mk("wire", "rx", mk("pure", "rx", (t,))))
    return [(st, t)]


IO = {
    "SpdmTransportEncap::encap": io_encap,
    "SpdmTransportEncap::encap_app": io_encap_app,
    "SpdmTransportEncap::decap": io_decap,
    "SpdmTransportEncap::decap_app": io_decap_app,
    "SpdmTransportEncap::get_sequence_number_count": prim,
    "SpdmTransportEncap::get_max_random_count": prim,
    "SpdmDeviceIo::send": io_send,
    "SpdmDeviceIo::receive": io_receive,
    "SpdmDeviceIo::flush_all": prim,
}

SESSION = {
    "generate_handshake_secret": ses_prim("handshake_secret"),
    "generate_data_secret": ses_prim("application_secret"),
    "create_data_secret_update": ses_prim("application_secret", "application_secret_backup"),
    "activate_data_secret_update": ses_prim("application_secret", "application_secret_backup"),
    "encode_spdm_secured_message": ses_codec,
    "decode_spdm_secured_message": ses_codec,
    "export_keys": prim,
}


def low_policy(fn):
    """policy without the session primitives (for rules about the session itself)"""
    return _policy(fn, False)


INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}


def int_encode(eng, call, args, st):
    """encode of a primitive integer: its size is known"""
    r, p = eng.deref(args[1])
    off = eng.rd(st, r, p + (F("offs"),))
    outs = enc(eng, call, args, st, 1)
    m = re.search(r"<(u8|u16|u32|u64) as", call.name) or re.search(r"for (u8|u16|u32|u64)", call.name)
    n = INTS[m.group(1)] if m else int_size(eng, call)
    if n:
        eng.wr(st, call.fr, r, p + (F("offs"),), add(off, K(n)), call.span)
    return outs


def int_size(eng, call):
    t = eng.prog.tys[call.fn.crate][call.fn.locals[1]] if call.fn is not None else None
    if t is not None and t["k"] == "ref":
        t = eng.prog.tys[call.fn.crate][t["e"]]
    if t is not None and t["k"] in ("uint", "u"):
        return {8: 1, 16: 2, 32: 4, 64: 8}.get(t.get("b"))
    return None


def w_extend(eng, call, args, st):
    """Writer::extend_from_slice: appends all or nothing"""
    r, p = eng.deref(args[0])
    bufref = eng.rd(st, r, p + (F("buf"),))
    off = eng.rd(st, r, p + (F("offs"),))
    br, bp = eng.deref(bufref)
    data = deepall(eng, st, args[1])
    n = eng.length(st, args[1])
    cap = eng.length(st, bufref)
    c = lt(sub(cap, off), n)
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, NONE))
    if st.assume(c, False):
        old = eng.rd(st, br, bp)
        eng.wr(st, call.fr, br, bp, mk("ext", old, off, data, n), call.span)
        eng.wr(st, call.fr, r, p + (F("offs"),), add(off, n), call.span)
        out.append((st, SOME(n)))
    return out


def kd_policy(fn):
    """policy for the derivations themselves: label buffers are followed byte-exactly"""
    n = fn.name
    if fn.trait == "codec::codec::Codec" and n.endswith("::encode") and re.search(r"\b(u8|u16|u32|u64)\b", n):
        return int_encode
    if n == "codec::codec::Writer::extend_from_slice":
        return w_extend
    return _policy(fn, False)


def ks_policy(fn):
    """policy for the session's key generation: every derivation is one opaque step"""
    if "::SpdmKeySchedule::derive_" in fn.name:
        return "opaque"
    return _policy(fn, False)


def policy(fn):
    return _policy(fn, True)


def _policy(fn, sesprim):
    n = fn.name
    if fn.trait in ("codec::codec::Codec",):
        if n.endswith("::read"):
            return codec_read
        if n.endswith("::encode"):
            return codec_encode
    if fn.trait == "spdmlib::common::spdm_codec::SpdmCodec":
        if n.endswith("::spdm_read"):
            return codec_spdm_read
        if n.endswith("::spdm_encode"):
            return codec_spdm_encode
    last = n.split("::")[-1]
    if sesprim and n.startswith("spdmlib::common::session::SpdmSession::") and last in SESSION:
        return SESSION[last]
    if last == "spdm_read_bytes":
        return codec_spdm_read_bytes
    if n.startswith("spdmlib::common::ManagedBuffer") or n.startswith("<spdmlib::common::ManagedBuffer"):
        return {"append_message": mb_append, "reset_message": mb_reset, "as_ref": mb_asref, "default": mb_default}.get(last, "inline")
    if n.startswith("spdmlib::crypto::hash::"):
        return {"hash_ctx_init": h_init, "hash_ctx_update": h_update, "hash_ctx_dup": h_dup, "hash_ctx_finalize": h_fin, "hash_all": hash_all}.get(last, "opaque")
    if PRIMITIVE.match(n):
        return "opaque"
    if last in ("get_session_via_id", "get_immutable_session_via_id"):
        return session_lookup
    if last in PURE_METHODS and fn.argc == 1:
        return enumval
    if last in ("get_size", "get_key_size", "get_iv_size", "get_tag_size", "get_nonce_size") and fn.argc == 1:
        return size_pure
    if fn.trait in ("core::fmt::Debug", "core::fmt::Display"):
        return "opaque"
    if last == "gen_array":
        return "opaque"
    return "inline"


TRACK = re.compile(r"^spdmlib::(crypto::(hmac|asym_verify|cert_operation|rand|dhe|aead)|secret::asym_sign)::|::SpdmSession::(create|activate)_data_secret_update$")
SELECT = {F("key_update_operation"), F("measurement_operation"), F("measurement_summary_hash_type")}


def track(t):
    """facts that must survive merging: outcomes of security-relevant primitives"""
    if t.op == "discr":
        x = t.a[0]
        if x.op == "arg" or x.op == "fld" and x.a[1] in SELECT:
            return True
        if x.op == "mem" and x.a[1] and x.a[1][-1] == ROOTCERT:
            return True
        while x.op == "phi" and len(x.a) == 3 and isinstance(x.a[1], T):
            x = x.a[1]
        return x.op == "call" and TRACK.match(x.a[0]) is not None
    if t.op == "fld":
        return t.a[1] == MSGF
    return t.op == "ghost"


def ghost(st, *key):
    """path marker of a rule: kept apart when states are merged (unlike st.may, which is united)"""
    st.facts[mk("ghost", *key)] = ("=", 1)


def unghost(st, *key):
    st.facts.pop(mk("ghost", *key), None)


def ghosts(st, kind):
    return [t.a[1] for t in st.facts if isinstance(t, T) and t.op == "ghost" and t.a[0] == kind]


MSGF = F("message_f_initialized")
ROOTCERT = F("peer_root_cert_data")


_sig = {}


def sig(v):
    """shape of an outgoing message buffer: which messages it contains, how often patched"""
    if v.op == "agg" and v.a[0] == OPT and v.a[3]:
        v = v.a[3][0]
    if v.op == "app":
        n = 0
        while v.op == "app":
            n += 1
            v = v.a[0]
        return ("app", v.op, n)
    if v.op not in ("enc", "patch"):
        return None
    r = _sig.get(v)
    if r is None:
        x, np, codes = v, 0, []
        while x.op in ("enc", "patch"):
            if x.op == "patch":
                np += 1
                x = x.a[0]
                continue
            m = x.a[1]
            c = None
            if m.op == "agg" and is_struct(m.a[0]):
                c = fldp(m, (F("header"), F("request_response_code"))) if field_index(m.a[0], "header") is not None else fld(m, F("request_response_code"))
            codes.append(c.a[2] if c is not None and c.op == "agg" else "?")
            x = x.a[0]
        r = _sig[v] = (tuple(codes), min(np, 3))
    return r


def byte_tables(prog):
    """wire value of every variant of the SPDM code and version enums, by evaluating their get_u8"""
    if getattr(prog, "_bytes", None):
        return
    prog._bytes = True
    from terms import BYTE_OF
    for tn in ("spdmlib::message::SpdmRequestResponseCode", "spdmlib::protocol::algo::SpdmVersion", "spdmlib::protocol::SpdmVersion",
               "spdmlib::protocol::version::SpdmVersion"):
        if tn not in prog.adts:
            continue
        fns = [f for f in prog.fns.values() if f.name == tn + "::get_u8"]
        if len(fns) != 1:
            continue
        for vi, v in enumerate(prog.adts[tn]["v"]):
            if v["f"]:
                continue
            eng = Engine(prog, None)
            eng.policy = policy
            outs = eng.call_fn(fns[0], [REF(("C", AGG(tn, vi, v["n"], ())), ())], State(), 0)
            vals = {r for s, r in outs}
            if len(vals) == 1 and list(vals)[0].op == "k":
                BYTE_OF[(tn, v["n"])] = list(vals)[0].a[0]


def install(eng):
    eng.sig = sig
    for k, m in IO.items():
        eng.ext["spdmlib::common::" + k] = m


class Run:
    """analyse one entry function; two passes so that repeatedly tested
    conditions are known to the partitioning"""

    def __init__(self, prog, entry, hooks=None, args=None, setup=None, track=None, pol=None, passes=2, split=None, unroll=0, **kw):
        self.fn = entry if not isinstance(entry, str) else prog.find(entry)
        hot = set()
        byte_tables(prog)
        for i in range(passes):
            eng = Engine(prog, hooks if i == passes - 1 else None, hot=hot, **kw)
            eng.policy = pol or policy
            install(eng)
            eng.split = split
            eng.unroll = unroll
            if track:
                eng.track = track
            st = State()
            a = args if args is not None else [mk("arg", self.fn.names[j + 1] or str(j + 1)) for j in range(self.fn.argc)]
            if setup:
                setup(eng, st, a)
            self.outs = eng.call_fn(self.fn, a, st, 0)
            hot = {t for t, s in eng.tested.items() if len(s) >= 2}
        self.eng = eng
        self.args = a
