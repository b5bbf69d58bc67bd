"""C16 C20 C21: life of a session and of a connection."""
from rulelib import *
from registry import prop, flow, responder, req
from jobs import Job
import domain
from domain import deepall, ghost, unghost, ghosts
from interp import State
from r_session import SESSION, selfroot
from r_resp import Sends, request_codes, header_field, CODE, CS, SS

SELFCTX = ("D", mk("arg", "self"))
KEEP = {"slot_id"}  # fields of a session that are not state of the session once it is gone


def from_self(t, root, path):
    """does value t contain something that was in memory at root.path... at entry?"""
    n = len(path)
    return has_sub(t, lambda x: x.op == "mem" and x.a[0] == root and (x.a[1][:n] == path or path[:len(x.a[1])] == x.a[1]))


prop("C16", "SpdmSession::teardown and set_default, analysed on a symbolic session: on return no field of the session (other than slot_id) still holds anything of its earlier value, and the session id is "
     "INVALID.  In the responder, once END_SESSION_ACK was sent successfully in a session no path leaves process_message without that session having been reset, and a session existing at entry is reset only "
     "then (or by GET_VERSION).  In the requester, end_session succeeds only on paths that received END_SESSION_ACK in that session and reset exactly that session; and reset happens on no other path.",
     quick=("A",), expect=[("^teardown: ", 12), ("^responder: ", 2), ("^requester: ", 3)])


def ses(*names):
    def f(c):
        return [Job(c, SESSION + "::" + n, pol="low") for n in names]
    return f


@flow("C16", ses("teardown", "set_default"))
class Wipe(Rule):
    def finish(self, run):
        eng, n = run.eng, self.job.name
        fields = [f["n"] if isinstance(f, dict) else f[0] for f in self.prog.adts[SESSION]["v"][0]["f"]]
        for st, ret in run.outs:
            for f in fields:
                if f in KEEP:
                    continue
                v = deepall(eng, st, eng.rd(st, selfroot(), (F(f),)))
                self.ob(f"{n}: {f} is cleared", not from_self(v, selfroot(), (F(f),)), n, show(v)[:200])
                self.ob(f"{n}: {f} is not cleared conditionally", v.op != "phi", n, show(v)[:200])
            v = eng.rd(st, selfroot(), (F("session_id"),))
            self.ob(f"{n}: session id becomes invalid", v is K(0), n, show(v)[:100])
            v = eng.rd(st, selfroot(), (F("session_state"),))
            self.ob(f"{n}: session state becomes NotStarted", v.op == "agg" and v.a[2] == "SpdmSessionNotStarted", n, show(v)[:100])


class Life(Sends):
    """follows which session objects are set up, gone, and in which END_SESSION_ACK was sent"""

    def on_call(self, eng, call, args, st):
        if call.name == SEND:
            o, w = self.out(eng, call, args, st)
            self.send(eng, call, st, o, w)
        elif call.name.endswith("::" + HALF):
            return half_model(eng, call, args, st)
        return None

    def out(self, eng, call, args, st):
        return Out(deepall(eng, st, args[1])), " < ".join(x.split("::")[-1] for x in reversed(stack(eng, call)[-4:]))

    def on_sent(self, eng, call, args, st):
        self.sent(eng, call, st, *self.out(eng, call, args, st))

    def send(self, eng, call, st, o, w):
        pass

    def sent(self, eng, call, st, o, w):
        pass

    def on_write(self, eng, st, fr, root, path, v, span):
        if path and path[-1] == F("session_id") and root[0] == "SES":
            w = fr.fn.name.split("::")[-1]
            if v is K(0):
                self.gone(eng, st, root, w)
                unghost(st, "live", root)
                unghost(st, "ending", root)
            else:
                self.born(eng, st, root, v, w)
                ghost(st, "live", root)
                st.may = st.may | {("born", root), ("bornid", v)}

    def gone(self, eng, st, root, w):
        pass

    def born(self, eng, st, root, v, w):
        pass


def marks(st, k):
    return ghosts(st, k) + [x[1] for x in st.may if isinstance(x, tuple) and len(x) == 2 and x[0] == k]


@flow("C16", responder)
class EndResponder(Life):
    def sent(self, eng, call, st, o, w):
        if o.code == "SpdmResponseEndSessionAck" and o.secured:
            ghost(st, "ending", o.session.a[0])
            ghost(st, "ended", o.session.a[0])

    def gone(self, eng, st, root, w):
        if root in marks(st, "born") or root[3] is K(0) or root[3] in marks(st, "bornid"):
            return  # set up while processing this very message
        self.ob("responder: a session is ended only after END_SESSION_ACK was sent in it", root in marks(st, "ended"), w, "the session is reset on a path that did not send END_SESSION_ACK in it: " + show(root[3])[:500])

    def finish(self, run):
        for st, ret in run.outs:
            self.ob("responder: after END_SESSION_ACK the session is gone", not marks(st, "ending"), self.job.name, "END_SESSION_ACK was sent but the session was not reset")


@flow("C16", req("send_receive_spdm_end_session"))
class EndRequester(Life):
    def codes(self, st):
        return {self.vname(CODE, f[1]) for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and f[0] == "=" and header_field(t.a[0], "request_response_code") is not None}

    def send(self, eng, call, st, o, w):
        if o.secured:
            st.may = st.may | {("in", o.session.a[0])}

    def gone(self, eng, st, root, w):
        c = self.codes(st)
        ok = c == {"SpdmResponseEndSessionAck"} or "SpdmResponseError" in c
        self.ob("requester: the session ends after END_SESSION_ACK (or on a decryption failure) only", ok, w, f"codes received on this path: {sorted(map(str, c))}")
        self.ob("requester: the session that ends is the one END_SESSION was sent in", marks(st, "in") == [root], w, "another session is reset")
        if c == {"SpdmResponseEndSessionAck"}:
            ghost(st, "gone", root)

    def finish(self, run):
        for st, ret in run.outs:
            if may_ok(st, ret):
                self.ob("requester: success only after END_SESSION_ACK was received in the session", self.codes(st) == {"SpdmResponseEndSessionAck"} and
                        bool(succeeded(st, self.prog, r"SpdmSession::decode_spdm_secured_message$")), self.job.name, f"codes {self.codes(st)}")
                self.ob("requester: success only with the session reset", bool(marks(st, "gone")), self.job.name, "END_SESSION succeeds without the session being reset")


# ------------------------------------------------------------------ C20
prop("C20", "In key_exchange / psk_exchange of responder and requester: an object is set up as a session only if it was free (id INVALID), its id carries the own half id returned by get_next_half_session_id in the own half "
     "and the peer's in the other; on every path a session set up is either announced (responder: the exchange response of that id is sent; requester: its id is returned) or reset again before the function is left. "
     "start_session: when a later step fails, the session is released.  get_next_half_session_id returns INITIAL - index for an index whose session has an unused own half.",
     quick=("A",), expect=[("^responder: ", 5), ("^requester: ", 8), ("^half id", 2), ("^start_session", 3)])

EXCH = {"SpdmResponseKeyExchangeRsp", "SpdmResponsePskExchangeRsp"}


HALF = "get_next_half_session_id"


def half_model(eng, call, args, st):
    t = eng.fresh(call, st, "", (args[1],))
    out = []
    s = st.copy()
    if s.assume_eq(discr(t), 0):
        out.append((s, OK(fldp(t, (V("Ok"), F(0))))))
    if st.assume_eq(discr(t), 1):
        out.append((st, ERR(fldp(t, (V("Err"), F(0))))))
    return out


def atoms(t):
    """[(term, weight)] of a sum of scaled terms, through shifts, ors and widenings"""
    if t.op == "lin":
        out = [(t, 1)] if False else []
        for x, k in t.a[1]:
            out += [(y, k * w) for y, w in atoms(x)]
        if t.a[0]:
            out.append((K(t.a[0]), 1))
        return out
    if t.op in ("or", "bin") and (t.op == "or" or t.a[0] in ("BitOr", "Add")):
        return [p for x in t.a if isinstance(x, T) for p in atoms(x)]
    if t.op == "bin" and t.a[0] in ("Shl",) and t.a[2].op == "k":
        return [(y, w << t.a[2].a[0]) for y, w in atoms(t.a[1])]
    if t.op in ("zext", "cast"):
        return atoms(t.a[0])
    return [(t, 1)]


class Born(Life):
    side, own_is_requester = "responder", 0

    def born(self, eng, st, root, v, w):
        self.ob(f"{self.side}: only a free session object is set up", root[3] is K(0), w, "the object set up was not looked up as free")
        own = [(x, k) for x, k in atoms(v) if calls_in(x, "::" + HALF + "$")]
        peer = [(x, k) for x, k in atoms(v) if not calls_in(x, "::" + HALF + "$")]
        mine, theirs = (1, 65536) if self.own_is_requester else (65536, 1)
        ok = len(own) == 1 and own[0][1] == mine and all(c.a[2][0] is K(self.own_is_requester) for c in calls_in(own[0][0], "::" + HALF + "$"))
        self.ob(f"{self.side}: the session id has this side's half id, allocated here, in its own half", ok, w, show(v)[:300])
        ok = len(peer) == 1 and peer[0][1] == theirs and has_sub(peer[0][0], lambda x: x.op == "wire" and x.a[0] == "rx") and ("rsp" if self.own_is_requester else "req") + "_session_id" in field_names(peer[0][0])
        self.ob(f"{self.side}: the other half is the one the peer sent", ok, w, show(v)[:300])


@flow("C20", responder)
class BornResponder(Born):
    def send(self, eng, call, st, o, w):
        if o.code == "SpdmResponseError" or o.code not in EXCH:
            self.ob("responder: no session is left behind by an exchange that is refused", not marks(st, "live"), w, f"{o.code} is sent while a session set up for this exchange is still allocated")
            return
        lv = marks(st, "live")
        self.ob(f"responder: {o.code} announces a session that was set up", len(lv) == 1, w, f"{len(lv)} sessions set up")
        if len(lv) != 1:
            return
        sid = eng.rd(st, lv[0], (F("session_id"),))
        f = o.field("rsp_session_id")
        ok = f is not None and any(k == 65536 and x is f for x, k in atoms(sid))
        self.ob(f"responder: {o.code} carries the half id of that session", ok, w, f"sent {show(f)[:120] if f is not None else None}, session {show(sid)[:200]}")
        v = eng.rd(st, lv[0], (F("session_state"),))
        d = st.val(discr(v)) if v.op != "agg" else dv_of(v)
        n = self.vname(SS, d) if d is not None else None
        psk = "Psk" in o.code
        ok = n == "SpdmSessionHandshaking" or (psk and n == "SpdmSessionEstablished" and bit(st, "rsp_capabilities_sel", 0x400) is not None)
        self.ob(f"responder: the session announced by {o.code} is handshaking" + (" (or established, for a PSK without context)" if psk else ""), ok, w, show(v)[:100])

    def sent(self, eng, call, st, o, w):
        if o.code in EXCH:
            for r in ghosts(st, "live"):
                unghost(st, "live", r)

    def finish(self, run):
        for st, ret in run.outs:
            self.ob("responder: a session is kept only if its exchange response was sent", not marks(st, "live"), self.job.name, "process_message may end with a session set up whose response was not sent")


@flow("C20", req("send_receive_spdm_key_exchange", "send_receive_spdm_psk_exchange"))
class BornRequester(Born):
    side, own_is_requester = "requester", 1

    def send(self, eng, call, st, o, w):
        f = o.field("req_session_id")
        if f is not None:
            st.may = st.may | {("sentid", f)}

    def born(self, eng, st, root, v, w):
        super().born(eng, st, root, v, w)
        ids = marks(st, "sentid")
        self.ob("requester: this side's half id is the one sent in the request", len(ids) == 1 and any(k == 1 and x is ids[0] for x, k in atoms(v)), w, f"sent {[show(i)[:80] for i in ids]}, session {show(v)[:200]}")

    def finish(self, run):
        n = self.job.name
        for st, ret in run.outs:
            lv = marks(st, "live")
            d = dv_of(ret) if ret.op == "agg" else st.val(discr(ret))
            if d != 0:
                self.ob(f"requester: {n}: a failed exchange leaves no session behind", not lv, n, "may return an error while the session it set up is still allocated" + ("" if d is not None else " (result not determined)"))
            if d != 1:
                ok = len(lv) == 1 and ret.op == "agg" and run.eng.rd(st, lv[0], (F("session_id"),)) is ret.a[3][0]
                self.ob(f"requester: {n}: success returns the id of the session set up", ok, n, f"returned {show(ret)[:160]}")


STEPS = re.compile(r"RequesterContext::(send_receive_spdm_\w+|session_based_mutual_authenticate)$")


@flow("C20", lambda c: [Job(c, "RequesterContext::start_session", passes=1)])
class Start(Life):
    """start_session over its steps, each of which may fail"""
    alone = True

    def on_call(self, eng, call, args, st):
        if not STEPS.search(call.name):
            return None
        n = call.name.split("::")[-1]
        exch = n.endswith("_exchange")
        t = eng.fresh(call, st, "", ())
        out = []
        s = st.copy()
        if s.assume_eq(discr(t), 0):
            v = fldp(t, (V("Ok"), F(0)))
            if exch:
                ghost(s, "open", v)
            elif n.endswith("_finish"):
                ghost(s, "finished", n)
            elif n.startswith("session_based"):
                ghost(s, "mutual", n)
            out.append((s, OK(v if exch else UNIT)))
        if not exch:
            ids = [a for a in args[1:] if a in marks(st, "open")]
            self.ob(f"start_session: {n} works on the session just opened", len(ids) == 1, n, "another session id is passed")
        if st.assume_eq(discr(t), 1):
            out.append((st, ERR(fldp(t, (V("Err"), F(0))))))
        return out

    def gone(self, eng, st, root, w):
        unghost(st, "open", root[3])

    def finish(self, run):
        for st, ret in run.outs:
            d = dv_of(ret) if ret.op == "agg" else st.val(discr(ret))
            op = marks(st, "open")
            absent = [t for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and f == ("=", 0) and t.a[0].op == "pure" and t.a[0].a[0] == "session"]
            if d != 0:
                self.ob("start_session: a failure releases the session", not op or bool(absent), "start_session", "an error may be returned with the session still allocated")
            if d != 1:
                self.ob("start_session: success returns the session that was finished", len(op) == 1 and ret.op == "agg" and ret.a[3][0] is op[0] and len(marks(st, "finished")) == 1, "start_session",
                        f"returned {show(ret)[:100]}, finished {marks(st, 'finished')}")


@flow("C20", lambda c: [Job(c, "spdmlib::common::SpdmContext::" + HALF)])
class Half(Rule):
    def finish(self, run):
        for st, ret in run.outs:
            if ret.op != "agg" or ret.a[2] != "Ok":
                continue
            v = ret.a[3][0]
            want = st.truth(mk("arg", "is_requester"))
            # v = constant - index, of an element of self.session
            w = v.a[0] if v.op == "trunc" else v
            c, parts = lin_parts(w)
            ix = [unx(t) for t, k in parts.items() if k == -1]
            self.ob("half id: is a constant minus the index of a session", len(ix) == 1 and len(parts) == 1 and 16 <= c <= 0xFFFE, HALF, show(v)[:200])
            if len(ix) != 1:
                continue
            shift = {True: 0, False: 16}.get(want)
            ok = shift is not None and any(f == ("=", 0) and self.half(t, ix[0], shift) for t, f in st.facts.items() if isinstance(t, T))
            self.ob("half id: the own half of the id of the session at that index is unused", ok, HALF, f"is_requester {want}; " + "; ".join(show(t)[:160] for t, f in st.facts.items() if isinstance(t, T) and f == ("=", 0))[:600])

    def half(self, t, ix, shift):
        """is t the half (at bit `shift`) of self.session[ix].session_id?"""
        sh, mask = 0, None
        while True:
            if t.op == "trunc" or t.op == "zext":
                if t.op == "trunc":
                    mask = (1 << t.a[1]) - 1 if mask is None else mask & ((1 << t.a[1]) - 1)
                t = t.a[0]
            elif t.op == "bin" and t.a[0] == "Shr" and t.a[2].op == "k":
                sh += t.a[2].a[0]
                mask = None if mask is None else mask << t.a[2].a[0]
                t = t.a[1]
            elif t.op == "and" and any(k.op == "k" for k in t.a):
                m = [k for k in t.a if k.op == "k"][0].a[0]
                mask = m if mask is None else mask & m
                t = [k for k in t.a if k.op != "k"][0]
            else:
                break
        return mask == (0xFFFF << shift) and sh == shift and "session_id" in field_names(t) and ix in [unx(i) for i in indices(t)]


def unx(t):
    while t.op in ("trunc", "zext", "cast"):
        t = t.a[0]
    return t


# ------------------------------------------------------------------ C21
prop("C21", "At every successful-path send of VERSION by the responder and of GET_VERSION by the requester: nothing in negotiate_info, runtime_info (other than message_a, which then holds at most this exchange) and peer_info, "
     "and no field of any session object, derives from its value at entry.  reset_context, analysed by itself, leaves nothing of these behind.  Every write of the responder's connection state follows the successful send of the response that reaches that state, and DIGESTS / CERTIFICATE never lower it.",
     quick=("A",), expect=[("^reset_context: ", 4), ("^responder: ", 4), ("^requester: ", 4)])

PARTS = ("negotiate_info", "runtime_info", "peer_info")


def fields_of(prog, adt):
    return [f["n"] if isinstance(f, dict) else f[0] for f in prog.adts[adt]["v"][0]["f"]]


def sessions(prog):
    """number of session objects of a context"""
    a = prog.adts["spdmlib::common::SpdmContext"]
    for f in a["v"][0]["f"]:
        n, t = (f["n"], f["t"]) if isinstance(f, dict) else (f[0], f[1])
        if n == "session":
            n = prog.tys[a["crate"]][t]["n"]
            return n if isinstance(n, int) else [c["v"] for k, c in prog.consts.items() if k == n or k.endswith("::" + n)][0]


def leftovers(eng, st, base):
    """(part, value derives from what was there at entry?, shown)"""
    def old(part, path):
        v = deepall(eng, st, eng.rd(st, SELFCTX, base + path))
        l = [show(x)[:120] for x in subterms(v) if x.op == "mem" and x.a[0] == SELFCTX and x.a[1][:len(base) + 1] == base + path[:1]]
        return part, l, v
    for part in PARTS:
        for f in fields_of(eng.prog, {"negotiate_info": "spdmlib::common::SpdmNegotiateInfo", "runtime_info": "spdmlib::common::SpdmRuntimeInfo", "peer_info": "spdmlib::common::SpdmPeerInfo"}[part]):
            yield old(f"{part}.{f}", (F(part), F(f)))
    for i in range(sessions(eng.prog)):
        for f in fields_of(eng.prog, SESSION):
            if f not in KEEP:
                yield old(f"session.{f}", (F("session"), ("i", K(i)), F(f)))


@flow("C21", lambda c: [Job(c, "spdmlib::common::SpdmContext::reset_context", unroll=8)])
class ResetAll(Rule):
    def finish(self, run):
        for st, ret in run.outs:
            for part, l, v in leftovers(run.eng, st, ()):
                self.ob(f"reset_context: {part} is cleared", not l, "reset_context", "; ".join(l[:5]) + " :: " + show(v)[:300])


class Restart(Life):
    def check(self, eng, call, st, side, w):
        for part, l, v in leftovers(eng, st, (F("common"),)):
            if part == "runtime_info.message_a":
                l = [x for x in [y for y in subterms(v) if y.op == "mem" and y.a[0] == SELFCTX and "message_a" in field_names(y)]]
            self.ob(f"{side}: {part} starts anew", not l, w, "; ".join(map(str, l[:5])) + " :: " + show(v)[:300])


@flow("C21", lambda c: [Job(c, "ResponderContext::handle_spdm_version", unroll=8)])
class RestartResponder(Restart):
    def send(self, eng, call, st, o, w):
        if o.code == "SpdmResponseVersion":
            self.check(eng, call, st, "responder", w)

    def sent(self, eng, call, st, o, w):
        if o.code == "SpdmResponseVersion":
            ghost(st, "version", 1)

    def finish(self, run):
        for st, ret in run.outs:
            v = run.eng.rd(st, SELFCTX, (F("common"), F("runtime_info"), F("connection_state")))
            if marks(st, "version"):
                self.ob("responder: connection state is AfterVersion once VERSION was sent", v.op == "agg" and v.a[2] == "SpdmConnectionAfterVersion", self.job.name, show(v)[:100])


@flow("C21", lambda c: [Job(c, "RequesterContext::send_receive_spdm_version", unroll=8)])
class RestartRequester(Restart):
    def send(self, eng, call, st, o, w):
        if o.code == "SpdmRequestGetVersion":
            self.check(eng, call, st, "requester", w)

    def finish(self, run):
        for st, ret in run.outs:
            for part, l, v in leftovers(run.eng, st, (F("common"),)):
                if part.startswith(("session.", "peer_info", "negotiate_info")):
                    self.ob(f"requester: {part} of the earlier connection is gone when GET_VERSION returns", not l, self.job.name, show(v)[:300])


REACH = {"SpdmConnectionAfterVersion": {"SpdmResponseVersion"}, "SpdmConnectionAfterCapabilities": {"SpdmResponseCapabilities"}, "SpdmConnectionNegotiated": {"SpdmResponseAlgorithms"},
         "SpdmConnectionAfterDigest": {"SpdmResponseDigests"}, "SpdmConnectionAfterCertificate": {"SpdmResponseCertificate"}, "SpdmConnectionAuthenticated": {"SpdmResponseChallengeAuth"}}


@flow("C21", responder)
class Progress(Life):
    def sent(self, eng, call, st, o, w):
        if o.code:
            ghost(st, "answered", o.code)

    def on_write(self, eng, st, fr, root, path, v, span):
        super().on_write(eng, st, fr, root, path, v, span)
        if root != SELFCTX or path[-2:] != (F("runtime_info"), F("connection_state")):
            return
        n = self.vname(CS, dv_of(v)) if v.op == "agg" else None
        w = fr.fn.name.split("::")[-1]
        if n == "SpdmConnectionNotStarted":
            return
        a = set(ghosts(st, "answered"))
        self.ob(f"connection state: {n} is reached by sending {'/'.join(REACH.get(n, ('?',)))}", n in REACH and a and a <= REACH[n], w, f"responses sent on this path: {sorted(a)}")
        if n in ("SpdmConnectionAfterDigest", "SpdmConnectionAfterCertificate"):
            lo, hi = self.statebounds(eng, st)
            self.ob(f"connection state: {n} does not undo progress", hi is not None and hi <= self.vdisc(CS, n), w, f"previous state is in [{lo}, {hi}]")

    def statebounds(self, eng, st):
        from r_resp import state_value
        return state_value(st, eng.rd(st, SELFCTX, (F("common"), F("runtime_info"), F("connection_state"))))
