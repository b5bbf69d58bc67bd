"""C07 C08 C12: what the responder answers, when, and in which channel."""
from rulelib import *
from registry import prop, flow, responder
from domain import deepall
from interp import State

C = "SpdmRe"
PAIR = {  # response code -> request codes it answers (DSP0274 table of request/response codes)
    "SpdmResponseVersion": ["SpdmRequestGetVersion"],
    "SpdmResponseCapabilities": ["SpdmRequestGetCapabilities"],
    "SpdmResponseAlgorithms": ["SpdmRequestNegotiateAlgorithms"],
    "SpdmResponseDigests": ["SpdmRequestGetDigests"],
    "SpdmResponseCertificate": ["SpdmRequestGetCertificate"],
    "SpdmResponseChallengeAuth": ["SpdmRequestChallenge"],
    "SpdmResponseMeasurements": ["SpdmRequestGetMeasurements"],
    "SpdmResponseKeyExchangeRsp": ["SpdmRequestKeyExchange"],
    "SpdmResponsePskExchangeRsp": ["SpdmRequestPskExchange"],
    "SpdmResponseFinishRsp": ["SpdmRequestFinish"],
    "SpdmResponsePskFinishRsp": ["SpdmRequestPskFinish"],
    "SpdmResponseHeartbeatAck": ["SpdmRequestHeartbeat"],
    "SpdmResponseKeyUpdateAck": ["SpdmRequestKeyUpdate"],
    "SpdmResponseEndSessionAck": ["SpdmRequestEndSession"],
    "SpdmResponseVendorDefinedResponse": ["SpdmRequestVendorDefinedRequest"],
    "SpdmResponseEncapsulatedRequest": ["SpdmRequestGetEncapsulatedRequest"],
    "SpdmResponseEncapsulatedResponseAck": ["SpdmRequestDeliverEncapsulatedResponse"],
}
# channel / session state in which a response may be produced, and connection state (lo, hi) required
UNSEC, HS, EST = "in the clear", "handshaking session", "established session"
WHERE = {
    "SpdmResponseVersion": {UNSEC: None},
    "SpdmResponseCapabilities": {UNSEC: ("=", "SpdmConnectionAfterVersion")},
    "SpdmResponseAlgorithms": {UNSEC: ("=", "SpdmConnectionAfterCapabilities")},
    "SpdmResponseDigests": {UNSEC: (">=", "SpdmConnectionNegotiated"), EST: None},
    "SpdmResponseCertificate": {UNSEC: (">=", "SpdmConnectionNegotiated"), EST: None},
    "SpdmResponseChallengeAuth": {UNSEC: (">=", "SpdmConnectionNegotiated")},
    "SpdmResponseMeasurements": {UNSEC: (">=", "SpdmConnectionNegotiated"), EST: None},
    "SpdmResponseKeyExchangeRsp": {UNSEC: (">=", "SpdmConnectionNegotiated")},
    "SpdmResponsePskExchangeRsp": {UNSEC: (">=", "SpdmConnectionNegotiated")},
    "SpdmResponseFinishRsp": {UNSEC: "clear-finish", HS: None},
    "SpdmResponsePskFinishRsp": {HS: None},
    "SpdmResponseHeartbeatAck": {EST: None},
    "SpdmResponseKeyUpdateAck": {EST: None},
    "SpdmResponseEndSessionAck": {EST: None},
    "SpdmResponseVendorDefinedResponse": {UNSEC: None, HS: None, EST: None},
    "SpdmResponseEncapsulatedRequest": {HS: None},
    "SpdmResponseEncapsulatedResponseAck": {HS: None},
}
CS = "spdmlib::common::SpdmConnectionState"
SS = "spdmlib::common::session::SpdmSessionState"


def is_header_read(x):
    """a message header decoded from offset 0 of a received message"""
    return (x.op == "pure" and x.a[0].startswith("rd:") and "SpdmMessageHeader" in x.a[0] and x.a[1][1] is K(0)
            and outermost(x.a[1][0]))


def outermost(b):
    """the received message itself, not a message carried inside it"""
    b = unslice(b)
    return b.op == "wire" and received(b)


def header_field(t, name):
    """(header read term) if t is field `name` of a decoded header of a received message"""
    if t.op == "fld" and t.a[1] == F(name):
        y = t.a[0]
        while y.op == "fld":
            y = y.a[0]
        if is_header_read(y):
            return y
    return None


def request_codes(st, rule):
    out = set()
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "discr" and f[0] == "=" and header_field(t.a[0], "request_response_code") is not None:
            out.add(rule.vname(CODE, f[1]))
    return out


def state_value(st, t):
    """(lo, hi) of the wire value of an enum place; exact variant if known"""
    d = st.val(discr(t)) if t.op != "agg" else dv_of(t)
    if d is not None:
        return d, d
    lo, hi = st.bounds(mk("pure", "enumval", (t,)))
    return lo, hi


def byte_of(prog, adt, name):
    import domain
    from terms import BYTE_OF
    return BYTE_OF.get((adt, name))


def entry_conn(eng):
    """connection state when process_message was entered"""
    return eng.rd(State(), ("D", mk("arg", "self")), (F("common"), F("runtime_info"), F("connection_state")))


class Sends(Rule):
    def on_call(self, eng, call, args, st):
        if call.name != SEND:
            return None
        o = Out(deepall(eng, st, args[1]))
        w = " < ".join(x.split("::")[-1] for x in reversed(stack(eng, call)[-4:]))
        self.send(eng, call, st, o, w)
        return None


def session_state(eng, st, o):
    r = o.session.a[0]
    v = eng.rd(st, r, (F("session_state"),))
    return v


prop("C07", "At every SpdmDeviceIo::send reachable from process_message that carries a response other than ERROR, the path facts must establish the gate of that response: "
     "its channel (in the clear / in a handshaking / in an established session), the connection state it needs, HANDSHAKE_IN_THE_CLEAR for FINISH, and that the request's "
     "SPDM version is the negotiated one.", quick=("A",),
     expect=[("^SpdmResponse(Digests|Certificate|ChallengeAuth|Measurements|KeyExchangeRsp|PskExchangeRsp) in the clear", 6), ("^SpdmResponseFinishRsp", 2),
             ("^SpdmResponse(Heartbeat|KeyUpdate|EndSession)Ack", 3), ("^SpdmResponse(Version|Capabilities|Algorithms)", 3), ("version", 10)])


@flow("C07", responder)
class Gate(Sends):
    def send(self, eng, call, st, o, w):
        code = o.code
        if o.app:
            return
        if code is None:
            if o.first is None:
                self.ob("every message sent is an SPDM response built by the responder", False, w, show(o.raw)[:300])
            return
        if code == "SpdmResponseError":
            return
        gates = WHERE.get(code)
        if gates is None:
            self.ob(f"{code} is a response", False, w, "the responder sends a message that is not in the response table")
            return
        if o.secured:
            v = session_state(eng, st, o)
            d = st.val(discr(v)) if v.op != "agg" else dv_of(v)
            n = self.vname(SS, d) if d is not None else None
            ch = {"SpdmSessionHandshaking": HS, "SpdmSessionEstablished": EST}.get(n)
            if ch is None:
                self.ob(f"{code} in a session only in a known session state", False, w, f"session state at the send: {n}")
                return
        else:
            ch = UNSEC
        if ch not in gates:
            self.ob(f"{code} {ch}", False, w, f"this response may only be produced: {', '.join(gates)}")
            return
        if o.secured:
            self.ob(f"{code} in a session: the request arrived in a session", bool(succeeded(st, self.prog, r"SpdmSession::decode_spdm_secured_message$")), w,
                    "this response belongs to a session, and the request it answers was received in the clear")
        g = gates[ch]
        ok, why = True, ""
        if g == "clear-finish":
            ok = in_clear(st) is True
            why = "HANDSHAKE_IN_THE_CLEAR is not known to be negotiated by both sides"
            last = eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("runtime_info"), F("last_session_id")))
            hs = any(t.op == "discr" and f == ("=", self.vdisc(SS, "SpdmSessionHandshaking")) and "session_state" in field_names(t.a[0]) and root_of(t.a[0])[0] == "SES"
                     and has_sub(root_of(t.a[0])[3], lambda y: y.op in ("mem", "fld") and "last_session_id" in field_names(y))
                     for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and t.a[0].op in ("mem", "fld") and root_of(t.a[0]) is not None)
            self.ob(f"{code} in the clear: the session under establishment is handshaking", hs, w, "the last session is not known to be handshaking on this path")
        elif g is not None:
            t = entry_conn(eng)
            want = self.vdisc(CS, g[1])
            lo, hi = state_value(st, t)
            if g[0] == "=":
                ok = lo == want and hi == want
            else:
                ok = lo is not None and lo >= want
            why = f"connection state on this path is only known to be in [{lo}, {hi}], required {g[0]} {g[1]} ({want})"
        self.ob(f"{code} {ch}" + ("" if g is None else " gated"), ok, w, why)
        # version of the request
        if code not in ("SpdmResponseVersion", "SpdmResponseCapabilities"):
            ok = self.version_checked(st)
            self.ob(f"{code} {ch}: request version is the negotiated version", ok, w, "no comparison of the request header's version with spdm_version_sel succeeded on this path")

    def version_checked(self, st):
        for t, f in st.facts.items():
            if isinstance(t, T) and t.op == "eq" and f == ("=", 1):
                for x, y in (t.a, t.a[::-1]):
                    if header_field(x, "version") is not None and "spdm_version_sel" in field_names(y):
                        return True
        return False


prop("C08", "Over every path of process_message: at most one SpdmDeviceIo::send is executed; the response code sent answers the request code decoded from the received "
     "message (or is ERROR); a request received in a session is answered in that same session, one received in the clear is answered in the clear.", quick=("A",),
     expect=[("^one send", 1), ("answers", 15), ("channel", 1)])


@flow("C08", responder)
class OneResponse(Sends):
    def send(self, eng, call, st, o, w):
        again = ("sent",) in st.may
        self.ob("one send per received message", not again, w, "a second message may be sent while processing one received message")
        st.may = st.may | {("sent",)}
        # channel
        decs = succeeded(st, self.prog, r"SpdmSession::decode_spdm_secured_message$")
        roots = {c.a[2][0].a[0] for c in decs if c.a[2][0].op == "loc"}
        if decs:
            self.ob("channel: a message received in a session is answered in that session", o.secured and roots == {o.session.a[0]}, w,
                    f"received in {len(roots)} session(s), answered {'in another session' if o.secured else 'in the clear'}")
        else:
            self.ob("channel: a message received in the clear is answered in the clear", not o.secured, w, "answered in a session")
        if o.app:
            self.ob("channel: application data answers application data", bool(app_received(st)), w, "application data is sent on a path that received no application data")
            return
        code = o.code
        if code is None or code == "SpdmResponseError":
            return
        rq = request_codes(st, self)
        want = PAIR.get(code)
        self.ob(f"{code} answers {'/'.join(want) if want else '?'}", want is not None and len(rq) == 1 and list(rq)[0] in want, w, f"request codes known on this path: {sorted(map(str, rq))}")


def app_received(st):
    """facts saying that the decoded record was marked as application data"""
    out = []
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op in ("fld", "mem") and st.truth(t):
            y = t
            while y.op == "fld":
                y = y.a[0]
            if y.op == "call" and y.a[0].endswith("::decap_app"):
                out.append(t)
    return out


prop("C12", "Application data reaches the application handler, and application responses are sent, only if the session it came in on is Established: at each such call the path "
     "facts contain session_state == SpdmSessionEstablished for that session and a successful record decode.", quick=("A",), expect=[("^application data is handed", 1), ("^application data is sent", 1)])


@flow("C12", responder)
class AppData(Rule):
    def check(self, eng, call, st, what, root):
        w = " < ".join(x.split("::")[-1] for x in reversed(stack(eng, call)[-4:]))
        est = self.vdisc(SS, "SpdmSessionEstablished")
        decs = [c.a[2][0].a[0] for c in succeeded(st, self.prog, r"SpdmSession::decode_spdm_secured_message$")]
        roots = [root] if root is not None else decs
        ok = bool(roots) and all(st.val(discr(eng.rd(st, r, (F("session_state"),)))) == est for r in roots) and bool(decs) and set(decs) == set(roots)
        self.ob(what, ok, w, "the session is not known to be Established (with a successfully decoded record) on this path")

    def on_call(self, eng, call, args, st):
        if call.name == SEND:
            o = Out(deepall(eng, st, args[1]))
            if o.app:
                self.check(eng, call, st, "application data is sent only in an established session", o.session.a[0])
        elif call.name.split("::")[-1].startswith("dispatch_secured_app_message_cb"):
            self.check(eng, call, st, "application data is handed to the application only in an established session", None)
        return None
