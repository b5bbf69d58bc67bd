"""C01-C04: authentication decides every successful handshake step."""
from rulelib import *
from registry import prop, flow, responder, req

prop("C01", "At every write of SpdmSessionEstablished reachable from the responder's process_message, the facts of the path must contain: success of "
     "hmac_verify over received verify_data with the request_finished_key of the session being established, success of the send of FINISH_RSP / "
     "PSK_FINISH_RSP, and - if the session asked for mutual authentication - success of asym_verify::verify over the received FINISH signature with the "
     "stored peer certificate; a PSK session without context may be established by PSK_EXCHANGE_RSP only if PSK_CAP_WITHOUT_CONTEXT is known to be selected.",
     quick=("A", "B"), expect=[("^FINISH over a DHE session", 2), ("^PSK_FINISH", 1), ("^PSK without context", 1), ("mutual", 1)])

PSK_WITHOUT = 0x400
PSK_WITH = 0x800


def verified_sig(st, prog, ok):
    return succeeded(st, prog, r"crypto::asym_verify::verify$", ok)


def verified_hmac(st, prog, ok):
    return succeeded(st, prog, r"crypto::hmac::hmac_verify$", ok)


def sent(st, prog):
    return {Out(c.a[2][0]).code for c in succeeded(st, prog, r"SpdmDeviceIo::send$")}


def ses_field(st, eng, root, name):
    """known value of a scalar field of the session object"""
    v = eng.rd(st, root, (F(name),))
    return st.val(v) if v.op != "k" else v.a[0]


@flow("C01", responder)
class RespEstablished(Rule):
    def on_write(self, eng, st, fr, root, path, v, span):
        if not (path and path[-1] == F("session_state")):
            return
        if not (v.op == "agg" and v.a[2] == "SpdmSessionEstablished"):
            if v.op != "agg":
                self.ob("session_state is only set to constants", False, fr.fn.name, show(v)[:200])
            return
        w = fr.fn.name
        if root[0] != "SES":
            self.ob("an Established session is one of the context's sessions", False, w, str(root[0]))
            return
        psk = ses_field(st, eng, root, "use_psk")
        hm = verified_hmac(st, self.prog, lambda a: key_of(a[1], root, "request_finished_key") and received(a[3]))
        codes = sent(st, self.prog)
        if hm and psk == 1:
            self.ob("PSK_FINISH: established after verified HMAC", True, w)
            self.ob("PSK_FINISH: response sent first", "SpdmResponsePskFinishRsp" in codes, w, f"messages sent on the path: {sorted(map(str, codes))}")
        elif hm and psk == 0:
            self.ob("FINISH over a DHE session: established after verified HMAC", True, w)
            self.ob("FINISH over a DHE session: response sent first", "SpdmResponseFinishRsp" in codes, w, f"messages sent on the path: {sorted(map(str, codes))}")
            me = eng.rd(st, root, (F("mut_auth_requested"),))
            bits = me.a[3][0] if me.op == "agg" else fld(me, F("bits"))
            val = st.val(bits)
            sg = verified_sig(st, self.prog, lambda a: "peer_cert_chain" in field_names(unsl(a[2])) and received(a[4]))
            if val == 0:
                self.ob("no mutual authentication asked for, none required", True, w)
            else:
                self.ob("mutual authentication: FINISH signature verified with the peer's certificate", bool(sg), w,
                        f"mut_auth_requested is {'not known to be empty' if val is None else val} and no successful asym_verify::verify of the FINISH signature is on the path")
        elif not hm and bit(st, "rsp_capabilities_sel", PSK_WITHOUT) and psk in (1, None) and eng_use_psk(eng, st, root):
            self.ob("PSK without context: established by PSK_EXCHANGE_RSP", True, w)
        else:
            self.ob("Established only after the peer's FINISH / PSK_FINISH HMAC was verified", False, w,
                    f"no successful hmac_verify with the session's request_finished_key on the path (use_psk={psk}, sent={sorted(map(str, codes))}, call path {[short(eng.prog.fns[f].name) for f, b in ctx_stack(fr.ctx) if f in eng.prog.fns]})")


def eng_use_psk(eng, st, root):
    v = eng.rd(st, root, (F("use_psk"),))
    return v.op == "k" and v.a[0] == 1


def key_of(t, root, name):
    return has_sub(t, lambda x: x.op in ("mem", "ref") and x.a[0] == root and F(name) in x.a[1])


def unsl(t):
    """strip slicing / container .data selections off a place term"""
    while t.op == "fld" and t.a[1][0] == "sl":
        t = t.a[0]
    return t


# ------------------------------------------------------------------ requester
prop("C02", "For every path on which a requester handshake step returns Ok: KEY_EXCHANGE - the received signature was verified with the certificate chain "
     "of the requested slot, and, unless HANDSHAKE_IN_THE_CLEAR was negotiated by both sides, the received HMAC with the new session's response_finished_key; "
     "PSK_EXCHANGE - the received HMAC with response_finished_key; FINISH in the clear - the received HMAC; FINISH/PSK_FINISH otherwise - the response "
     "was received in that session's secured channel.  The session state is written Handshaking/Established only on such paths.",
     quick=("A", "B"),
     expect=[("^send_receive_spdm_key_exchange: signature", 1), ("^send_receive_spdm_key_exchange: HMAC", 1), ("^send_receive_spdm_psk_exchange: HMAC", 1),
             ("^send_receive_spdm_finish: in the clear", 1), ("^send_receive_spdm_finish: in the secured", 1), ("^send_receive_spdm_psk_finish: in the secured", 1),
             ("KEY_EXCHANGE: Handshaking", 1), ("PSK_EXCHANGE: Handshaking", 1), ("FINISH: Established", 2)])


def sig_of_slot(slot):
    def ok(a):
        p = unsl(a[2])
        return "peer_cert_chain" in field_names(p) and any(i is slot for i in indices(p)) and received(a[4]) and "signature" in path_names(a[4])
    return ok


def path_names(t):
    return field_names(unsl(t))


def hm_ok(key):
    return lambda a: key in field_names_deep(a[1]) and received(a[3])


def field_names_deep(t):
    out = set()
    for x in subterms(t):
        if x.op == "fld" and x.a[1][0] == "f":
            out.add(x.a[1][1])
        elif x.op in ("mem", "ref"):
            out |= {e[1] for e in x.a[1] if e[0] == "f"}
    return out


class ReqHandshake(Rule):
    def req_arg(self, run, name):
        for n, a in zip(run.fn.names[1:], run.args):
            if n == name:
                return a
        return None

    def check_ex(self, st, slot, where, what, need_sig, need_hmac):
        if need_sig:
            self.ob(f"{what}: signature verified with the requested slot's certificate chain", bool(verified_sig(st, self.prog, sig_of_slot(slot))), where,
                    "no successful asym_verify::verify of the received signature with peer_cert_chain[slot_id] on this path")
        if need_hmac:
            if need_sig and in_clear(st) is True:
                self.ob(f"{what}: HMAC absent only when both sides negotiated HANDSHAKE_IN_THE_CLEAR", True, where)
            else:
                self.ob(f"{what}: HMAC verified with the session's response_finished_key", bool(verified_hmac(st, self.prog, hm_ok("response_finished_key"))), where,
                        "no successful hmac_verify of the received verify data with response_finished_key on this path")

    def check_fin(self, st, where, what, clear_possible, sid):
        recs = secured_in(st, self.prog, sid)
        hm = verified_hmac(st, self.prog, hm_ok("response_finished_key"))
        if hm and clear_possible:
            self.ob(f"{what}: in the clear, accepted after HMAC verification", True, where)
        elif recs:
            self.ob(f"{what}: in the secured channel, accepted after the record authenticated", True, where)
            if clear_possible:
                self.ob(f"{what}: without HMAC only if the handshake is not in the clear", in_clear(st) is False, where, "HANDSHAKE_IN_THE_CLEAR is not known to be off on this path")
        else:
            self.ob(f"{what}: FINISH_RSP authenticated", False, where, "neither a verified HMAC nor an authenticated secured record of this session on this path")

    def finish(self, run):
        n = self.job.name
        slot, sid = self.req_arg(run, "slot_id"), self.req_arg(run, "session_id")
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            if n == "send_receive_spdm_key_exchange":
                self.check_ex(st, slot, n, n, True, True)
            elif n == "send_receive_spdm_psk_exchange":
                self.check_ex(st, None, n, n, False, True)
            else:
                self.check_fin(st, n, n, n == "send_receive_spdm_finish", sid)

    def on_write(self, eng, st, fr, root, path, v, span):
        if not (path and path[-1] == F("session_state")) or v.op != "agg" or v.a[2] == "SpdmSessionNotStarted":
            return
        n, w = self.job.name, fr.fn.name
        args = {eng.prog.fns and a.a[0]: a for a in [mk("arg", x) for x in ("slot_id", "session_id")]}
        if n == "send_receive_spdm_key_exchange":
            self.check_ex(st, args["slot_id"], w, "KEY_EXCHANGE: " + v.a[2][len("SpdmSession"):], True, True)
        elif n == "send_receive_spdm_psk_exchange":
            self.check_ex(st, None, w, "PSK_EXCHANGE: " + v.a[2][len("SpdmSession"):], False, True)
        elif n == "send_receive_spdm_finish":
            self.check_fin(st, w, "FINISH: " + v.a[2][len("SpdmSession"):], True, args["session_id"])
        else:
            self.check_fin(st, w, "PSK_FINISH: " + v.a[2][len("SpdmSession"):], False, args["session_id"])


def secured_in(st, prog, sid):
    """records of session `sid` that decoded successfully on this path"""
    out = []
    for c in succeeded(st, prog, r"SpdmSession::decode_spdm_secured_message$"):
        loc = c.a[2][0]
        r = loc.a[0]
        if r[0] == "SES" and (sid is None or r[3] is sid) and received(c.a[2][1]):
            out.append(c)
    return out


flow("C02", req("send_receive_spdm_key_exchange", "send_receive_spdm_psk_exchange", "send_receive_spdm_finish", "send_receive_spdm_psk_finish"))(ReqHandshake)

prop("C03", "On every path on which send_receive_spdm_challenge returns Ok, asym_verify::verify succeeded for the received signature with the certificate chain of "
     "the challenged slot, in that order of data.", quick=("A", "B"), expect=[("^send_receive_spdm_challenge: signature", 1)])


@flow("C03", req("send_receive_spdm_challenge"))
class Challenge(Rule):
    def finish(self, run):
        slot = dict(zip(run.fn.names[1:], run.args)).get("slot_id")
        for st, ret in run.outs:
            if may_ok(st, ret):
                self.ob(f"{self.job.name}: signature verified with the challenged slot's certificate chain", bool(verified_sig(st, self.prog, sig_of_slot(slot))),
                        self.job.name, "no successful asym_verify::verify of the received signature with peer_cert_chain[slot_id] on a path returning Ok")


prop("C04", "On every path on which send_receive_spdm_measurement returns Ok and the request asked for a signature (SIGNATURE_REQUESTED not known to be clear), "
     "asym_verify::verify succeeded for the received signature with the certificate chain of the given slot.", quick=("A", "B"),
     expect=[("^send_receive_spdm_measurement: signature", 1), ("^send_receive_spdm_measurement: no signature", 1)])


@flow("C04", req("send_receive_spdm_measurement"))
class Measurement(Rule):
    def finish(self, run):
        names = dict(zip(run.fn.names[1:], run.args))
        slot = names.get("slot_id")
        attr = [a for n, a in names.items() if "attribute" in (n or "")]
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            req_sig = bit(st, attr[0].a[0], 1) if attr else None
            if req_sig is False:
                self.ob(f"{self.job.name}: no signature asked for", True, self.job.name)
            else:
                self.ob(f"{self.job.name}: signature verified with the slot's certificate chain", bool(verified_sig(st, self.prog, sig_of_slot(slot))),
                        self.job.name, "no successful asym_verify::verify of the received signature with peer_cert_chain[slot_id] on a path returning Ok")
