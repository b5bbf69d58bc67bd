"""C19: transcripts - what is signed, MACed and fed to the key schedule, and when the transcript buffers start over."""
from rulelib import *
from registry import prop, flow, responder, req
from jobs import Job
import domain
from domain import deepall
from transcript import Cls, base_chunks, dig
from r_resp import Sends, request_codes, state_value, CS, byte_of as disc_byte

prop("C19", "Every input of sign / verify / hmac / hmac_verify and every TH1 / TH2 given to the key schedule, in responder and requester, is taken apart into chunks (append chains of the transcript buffers and "
     "hash contexts are followed through all calls) and compared with DSP0274's transcript of that message: M1/M2, L1/L2, TH with H(cert chain), the mutual authentication hash exactly when mutual authentication was "
     "asked for, request and response up to the field being computed, then signature and verify data; SPDM 1.2 signatures carry prefix, zero padding and the context string of the message.  message_a, b and K hold "
     "request then response of each exchange, and every handler starts the buffers over with the code of the message it handles, which clears exactly the buffers DSP0274 lists.",
     quick=("A", "B"), expect=[("^(responder|requester) CHALLENGE: ", 2), ("^(responder|requester) GET_MEASUREMENTS: ", 2), ("^(responder|requester) KEY_EXCHANGE: ", 6), ("^(responder|requester) FINISH: ", 4),
                          ("^(responder|requester) PSK_EXCHANGE: ", 4), ("^(responder|requester) PSK_FINISH: ", 4), ("^reset: ", 8), ("starts its buffers over", 15), ("message_a", 6)])


class Names(Cls):
    def chunks(self, t, top=True):
        """flat list of chunk names of an append chain"""
        b, l = base_chunks(t)
        out = []
        if b.op not in ("empty", "hctx"):
            out.append(self.fix(self.root(b)))
        for x in l:
            d = dig(x)
            if x.op == "app" or (x.op == "mem" and False):
                out += self.chunks(x)
            elif x.op in ("empty",):
                continue
            elif d is not None:
                out.append(self.fix("H(" + "|".join(self.chunks(d.a[0])) + ")"))
            else:
                out.append(self.fix(self.name(x)))
        return out

    def bname(self, x):
        y = x
        while y.op == "fld":
            y = y.a[0]
        if y.op == "phi":
            l = [z for z in alts(y) if z is not y]
            ns = sorted({w for z in l for w in self.bname(z).strip("()").split("/")})
            return ("(" + "/".join(ns) + ")" if len(ns) > 1 else ns[0]) if l else "?"
        return super().bname(x)

    def name(self, t, depth=0):
        if t.op == "phi":
            ns = {self.name(z) if z is not t else "phi" for z in alts(t)}
            return ns.pop() if len(ns) == 1 else "(" + "/".join(sorted(ns)) + ")"
        return super().name(t, depth)

    def bound(self, t):
        s = super().bound(t)
        s = re.sub(r"size\([^()]*base_asym_(sel|algo)\)", "A", s)
        s = re.sub(r"size\([^()]*base_hash_(sel|algo)\)", "H", s)
        s = re.sub(r"\b(end|rdend|spdm_encode|encode)\b", "E", s)
        if s == "(E)":
            s = "E"
        p = s.split("+")
        if "E" in p and all(x in ("E", "-A", "-H") for x in p):
            s = "E" + "".join(sorted(x for x in p if x != "E"))
        return s

    @staticmethod
    def fix(s):
        s = re.sub(r"^B\((H\(.*\))\)\[\.\.[^\[\]]*\]$", r"\1", s)
        s = re.sub(r"H\((my|peer)_cert_chain\.\[[^\]]*\]\.data\[\.\.\1_cert_chain\.\[[^\]]*\]\.data_size\]\)", r"H(\1)", s)
        s = re.sub(r"^(?:spdm_read\.signature|sign)\.data\[\.\.(?:spdm_read\.signature|sign)\.data_size\]$", "SIG", s)
        s = re.sub(r"^(?:spdm_read\.verify_data|hmac)\.data\[\.\.(?:spdm_read\.verify_data|hmac)\.data_size\]$", "MAC", s)
        s = re.sub(r"^(?:common|SES)\.runtime_info\.message_a$", "a", s)
        s = re.sub(r"^common\.runtime_info\.(?:message_)?(digest_context_m1m2|b|c|m|digest_context_l1l2)$", r"\1", s)
        s = re.sub(r"^SES\.runtime_info\.(?:message_)?(digest_context_th|digest_context_l1l2|k|f|m)$", r"s.\1", s)
        s = re.sub(r"^TX\((?:Request|Response)\w+\)\**", "TX", s)
        return s


TEXT = {"CHALLENGE": "responder-challenge_auth signing", "GET_MEASUREMENTS": "responder-measurements signing", "KEY_EXCHANGE": "responder-key_exchange_rsp signing", "FINISH": "requester-finish signing"}
REQCODE = {"SpdmRequestChallenge": "CHALLENGE", "SpdmRequestGetMeasurements": "GET_MEASUREMENTS", "SpdmRequestKeyExchange": "KEY_EXCHANGE", "SpdmRequestFinish": "FINISH",
           "SpdmRequestPskExchange": "PSK_EXCHANGE", "SpdmRequestPskFinish": "PSK_FINISH"}
JOBCODE = {"send_receive_spdm_challenge": "CHALLENGE", "send_receive_spdm_measurement": "GET_MEASUREMENTS", "send_receive_spdm_key_exchange": "KEY_EXCHANGE", "send_receive_spdm_finish": "FINISH",
           "send_receive_spdm_psk_exchange": "PSK_EXCHANGE", "send_receive_spdm_psk_finish": "PSK_FINISH"}


def J(*alts_):
    """concatenation of chunk alternatives; '' = absent"""
    out = [""]
    for a in alts_:
        a = [a] if isinstance(a, str) else a
        out = [(o + "|" + x if o and x else o or x) for o in out for x in a]
    return set(out)


def expected(hashed, rsp, msg, what, clear, mut):
    """set of acceptable chunk lists (joined with |)"""
    RQ, RS = ("RX", "TX") if rsp else ("TX", "RX")
    RC, QC = ("H(my)", "H(peer)") if rsp else ("H(peer)", "H(my)")
    E = lambda m, x="": f"{m}[..E{x}]"
    tails = {None: ["", "-H"], True: [""], False: ["-H"]}[clear]
    if msg == "CHALLENGE":
        pre = ["digest_context_m1m2", "a"] if hashed else J("a", ["b", ""], ["c", ""])
        return J(pre, E(RQ), E(RS, "-A"))
    if msg == "GET_MEASUREMENTS":
        pre = ["digest_context_l1l2", "s.digest_context_l1l2", "a", ""] if hashed else J(["a", ""], ["m", "s.m", ""])
        return J(pre, E(RQ), E(RS, "-A"))
    if msg == "KEY_EXCHANGE":
        pre = J("a", RC, E(RQ))
        out = set()
        for t in tails:
            if what == "sig":
                out |= J(pre, E(RS, "-A" + t))
            else:
                out |= J(pre, E(RS, "-A" + t), "SIG")
        if what == "hmac":
            out = {x for x in out if "-A-H" in x}
        if what == "K":
            out = set()
            for t in tails:
                out |= J(pre, E(RS, "-A" + t), "SIG", "MAC" if t else "")
        return out
    if msg == "FINISH":
        qc = {True: [QC], False: [""], None: [QC, ""]}[mut]
        pre = J("s.digest_context_th", qc + ([""] if hashed else [])) if hashed else J("a", RC, "s.k", qc)
        pre = J(pre, ["s.f", ""])
        head = f"{RQ}[..4]"
        sig = {True: ["SIG"], False: [""], None: ["SIG", ""]}[mut]
        if what == "sig":
            return J(pre, head)
        if what == "rqmac":
            return J(pre, head, sig)
        if what == "rsmac":
            return J(pre, head, sig, "MAC", E(RS, "-H"))
        return J(pre, head, sig, "MAC", [E(RS), f"{RS}[..4]"]) | J(pre, head, sig, "MAC", E(RS, "-H"), "MAC")
    if msg == "PSK_EXCHANGE":
        pre = J("a", E(RQ), E(RS, "-H"))
        return J(pre, "MAC") if what in ("th2", "K") else pre
    if msg == "PSK_FINISH":
        qc = {True: [QC, ""], False: [""], None: [QC, ""]}[mut]
        pre = J("s.digest_context_th", qc, ["s.f", ""]) if hashed else J("a", "s.k", ["s.f", ""])
        if what == "rqmac":
            return J(pre, E(RQ, "-H"))
        return J(pre, E(RQ, "-H"), "MAC", E(RS))
    return set()


SIGNS = r"asym_sign::sign$|asym_verify::verify$"
MACS = r"hmac::hmac$|hmac::hmac_verify$"


class Transcript(Sends):
    def on_call(self, eng, call, args, st):
        n = call.name
        if re.search(SIGNS, n):
            self.check(eng, call, st, "sig", deepall(eng, st, args[3 if n.endswith("verify") else 2]))
        elif re.search(MACS, n):
            rsp_key = any("response_finished_key" in str(deep_names(a)) for a in (args[1], deepall(eng, st, args[1])))
            self.check(eng, call, st, "rsmac" if rsp_key else "rqmac", deepall(eng, st, args[2]))
        elif re.search(r"SpdmSession::generate_(handshake|data)_secret$", n):
            what = "th1" if "handshake" in n else "th2"
            self.check(eng, call, st, what, deepall(eng, st, args[2]))
            r, p = eng.deref(args[0])
            st.may = st.may | {("kses", r, p)}
        elif n.endswith("::reset_buffer_via_request_code"):
            self.reset(eng, call, args, st)
        return super().on_call(eng, call, args, st)

    def side(self):
        return "responder" if self.job.name == "process_message" else "requester"

    def msg(self, st):
        if self.side() == "responder":
            c = request_codes(st, self)
            return REQCODE.get(list(c)[0]) if len(c) == 1 else None
        return JOBCODE.get(self.job.name)

    def mut(self, st):
        f = flag_empty(st, "mut_auth_requested")
        return None if f is None else not f

    def check(self, eng, call, st, what, data):
        w = " < ".join(x.split("::")[-1] for x in reversed(stack(eng, call)[-3:]))
        m, side = self.msg(st), self.side()
        hashed = self.job.cfg in ("A", "D")
        label = {"sig": "signature", "rsmac": "responder HMAC", "rqmac": "requester HMAC", "th1": "TH1", "th2": "TH2"}[what]
        if m is None:
            if side == "requester":
                return
            self.ob(f"{side}: authenticated messages known", False, w, f"{label} is computed while handling an unexpected message: {sorted(map(str, request_codes(st, self)))}")
            return
        for t in alts(data):
            self.one(eng, call, st, what, t, m, side, hashed, label, w)

    def one(self, eng, call, st, what, t, m, side, hashed, label, w):
        c = Names()
        d = dig(t)
        ch = c.chunks(d.a[0]) if d is not None else c.chunks(t) if t.op == "app" else [c.fix(c.name(t))]
        if what == "sig":
            v = state_value(st, eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("negotiate_info"), F("spdm_version_sel"))))
            if ch and ch[0].startswith("'"):
                text = TEXT.get(m, "?")
                want = ["'" + "dmtf-spdm-v1.2.*" * 4 + "'", "'" + "0" * (36 - len(text)) + "'", "'" + text + "'"]
                self.ob(f"{side} {m}: signing context", ch[:3] == want or "".join(x.strip("'") for x in ch[:-1]) == "".join(x.strip("'") for x in want), w, f"signed prefix {' '.join(ch[:-1])[:200]}, expected the context of {text}")
                self.ob(f"{side} {m}: signature over the hash of the transcript in SPDM 1.2", len(ch) >= 2 and ch[-1].startswith("H("), w, ch[-1][:200])
                ch = ch[-1][2:-1].split("|") if ch[-1].startswith("H(") else ch[-1:]
            else:
                self.ob(f"{side} {m}: SPDM 1.2 signatures carry a signing context", not (v[0] is not None and v[0] >= 0x12), w, "no signing context although the negotiated version is known to be 1.2")
        else:
            self.ob(f"{side} {m}: {label} over a transcript hash", d is not None, w, show(t)[:200])
        if d is not None:
            a = base_chunks(d.a[0])[0]
            if a.op == "hctx":
                self.ob(f"{side} {m}: {label}: negotiated hash algorithm", bool({"base_hash_sel", "base_hash_algo"} & set(field_names(a.a[0]))), w, show(a.a[0])[:100])
        clear, mut = in_clear(st), self.mut(st)
        kind = {"rsmac": "hmac" if m in ("KEY_EXCHANGE",) else "rsmac"}.get(what, what)
        want = expected(hashed, side == "responder", m, kind, clear, mut)
        got = "|".join(ch)
        self.ob(f"{side} {m}: {label} covers the transcript of this message", got in want, w,
                f"covers {got[:400]}; expected {' or '.join(sorted(want))[:300]} (handshake in the clear: {clear}, mutual authentication: {mut})")

    def send(self, eng, call, st, o, w):
        if o.code is None or o.app:
            return
        if self.side() == "responder":
            if o.code == "SpdmResponseError":
                return
            self.started(st, o.code, w, o.secured)
            self.buffers(eng, st, w, "RX", "TX", o.code.replace("SpdmResponse", ""), o.secured)
        else:
            self.started(st, o.code, w, o.secured)

    def buffers(self, eng, st, w, RQ, RS, code, insess=False):
        side = self.side()
        common = lambda *f: eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("runtime_info"), F(f[0])) + f[1:])
        SOME_ = (V("Some"), F(0))
        hashed = self.job.cfg in ("A", "D")
        both = f"{RQ}[..E]|{RS}[..E]"
        if code in ("Version", "Capabilities", "Algorithms"):
            got = self.flat(deepall(eng, st, common("message_a")))
            want = {both} if code == "Version" else {"a|" + both}
            self.ob(f"{side}: message_a holds request and response of {code}", got in want, w, f"message_a is {got[:300]}, expected {' or '.join(want)}")
        if code in ("Digests", "Certificate") and not insess:
            if hashed:
                got = self.flat(deepall(eng, st, common("digest_context_m1m2", *SOME_)))
                want = {"a|" + both} | ({"digest_context_m1m2|" + both} if code == "Certificate" else set())
            else:
                got = self.flat(deepall(eng, st, common("message_b")))
                want = {both} | ({"b|" + both} if code == "Certificate" else set())
            self.ob(f"{side}: M1/M2 holds request and response of {code}", got in want, w, f"holds {got[:300]}, expected {' or '.join(sorted(want))}")
        if code in ("KeyExchangeRsp", "PskExchangeRsp"):
            ks_ = [x for x in st.may if isinstance(x, tuple) and x and x[0] == "kses"]
            m = "KEY_EXCHANGE" if code[0] == "K" else "PSK_EXCHANGE"
            want = expected(hashed, side == "responder", m, "K", in_clear(st), None)
            for _, r, p in ks_:
                v = deepall(eng, st, eng.rd(st, r, p + (F("runtime_info"), F("digest_context_th" if hashed else "message_k")) + (SOME_ if hashed else ())))
                got = self.flat(v)
                if not hashed:
                    want = {"|".join(y for y in x.split("|") if not y.startswith(("a", "H("))) for x in want}
                self.ob(f"{side} {m}: K holds the whole exchange", got in want, w, f"K is {got[:300]}, expected {' or '.join(sorted(want))[:300]}")

    def flat(self, v):
        return "|".join(Names().chunks(v)) if v.op in ("app", "empty") else Names.fix(Names().name(v))

    # ---- starting over
    def reset(self, eng, call, args, st):
        code = deepall(eng, st, args[1])
        n = code.a[2] if code.op == "agg" else self.vname(CODE, st.val(discr(code))) if st.val(discr(code)) is not None else None
        w = " < ".join(x.split("::")[-1] for x in reversed(stack(eng, call)[-2:]))
        ses = deepall(eng, st, args[2])
        if self.side() == "responder":
            c = request_codes(st, self)
            self.ob(f"responder: {n} starts its buffers over", c == {n}, w, f"buffers are reset for {n} while handling {sorted(map(str, c))}")
        st.may = frozenset(x for x in st.may if not (isinstance(x, tuple) and x and x[0] == "reset")) | {("reset", n, ses)}

    def started(self, st, code, w, secured=False):
        if "Encapsulated" in code:
            return
        rs = {x[1:] for x in st.may if isinstance(x, tuple) and x and x[0] == "reset"}
        if secured:
            self.ob(f"{self.side()}: {code} in a session starts the session's buffers over", bool(rs) and all((x[1].op == "agg" and x[1].a[2] == "Some") or (x[1].op != "agg" and st.val(discr(x[1])) == 1) for x in rs), w, "the buffers outside the session were reset")
        if self.side() == "requester":
            if code in ("SpdmRequestGetVersion",):
                return
            ok = {x[0] for x in rs} == {code}
            self.ob(f"requester: {code} starts its buffers over", ok, w, f"buffers were reset for {sorted(str(x[0]) for x in rs)}")
        else:
            c = request_codes(st, self)
            ok = len(c) == 1 and {x[0] for x in rs} == c
            self.ob(f"responder: {code}: the request starts its buffers over", ok, w, f"buffers were reset for {sorted(str(x[0]) for x in rs)}, request {sorted(map(str, c))}")

    def finish(self, run):
        if self.side() == "responder":
            return
        name = {"send_receive_spdm_version": "Version", "send_receive_spdm_capability": "Capabilities", "send_receive_spdm_algorithm": "Algorithms", "send_receive_spdm_digest": "Digests",
                "send_receive_spdm_key_exchange": "KeyExchangeRsp", "send_receive_spdm_psk_exchange": "PskExchangeRsp"}.get(self.job.name)
        if name is None:
            return
        for st, ret in run.outs:
            if may_ok(st, ret) and not (name == "Digests" and st.val(discr(mk("arg", "session_id"))) == 1):
                self.buffers(run.eng, st, self.job.name, "TX", "RX", name)


def deep_names(t):
    return sorted({e[1] for x in subterms(t) if x.op in ("mem", "ref") for e in x.a[1] if e[0] == "f"} | {x.a[1][1] for x in subterms(t) if x.op == "fld" and x.a[1][0] == "f"})


flow("C19", responder)(Transcript)
flow("C19", req("send_receive_spdm_version", "send_receive_spdm_capability", "send_receive_spdm_algorithm", "send_receive_spdm_digest", "send_receive_spdm_challenge", "send_receive_spdm_measurement",
                "send_receive_spdm_key_exchange", "send_receive_spdm_psk_exchange", "send_receive_spdm_finish", "send_receive_spdm_psk_finish", "send_receive_spdm_heartbeat", "send_receive_spdm_key_update",
                "send_receive_spdm_end_session", "send_spdm_vendor_defined_request"))(Transcript)


# ---- what starting over means
ALLCODES = {"SpdmRequestGetMeasurements": "bc", "SpdmRequestKeyExchange": "mbc", "SpdmRequestFinish": "mbc", "SpdmRequestPskExchange": "mbc", "SpdmRequestPskFinish": "mbc", "SpdmRequestKeyUpdate": "mbc",
            "SpdmRequestHeartbeat": "mbc", "SpdmRequestEndSession": "mbc", "SpdmRequestGetDigests": "mB", "SpdmRequestGetCertificate": "m", "SpdmRequestChallenge": "m"}
AUTH = "SpdmConnectionAuthenticated"


def reset_case(code, auth):
    def setup(eng, st, a):
        pr = eng.prog
        st.assume_eq(discr(a[1]), disc_of(pr, CODE, code))
        t = eng.rd(st, ("D", mk("arg", "self")), (F("runtime_info"), F("connection_state")))
        st.assume_eq(discr(t), disc_of(pr, CS, auth))
    setup.__name__ = code + auth
    return setup


def disc_of(prog, adt, name):
    return Rule(prog, None).vdisc(adt, name)


def resets(c):
    return [Job(c, "spdmlib::common::SpdmContext::reset_buffer_via_request_code", setup=reset_case(k, s), name=f"reset:{k}:{s}") for k in ALLCODES for s in (AUTH, "SpdmConnectionAfterCertificate")]


@flow("C19", resets)
class ResetTable(Rule):
    def finish(self, run):
        _, code, state = self.job.name.split(":")
        what = ALLCODES[code]
        hashed = self.job.cfg in ("A", "D")
        eng = run.eng
        for st, ret in run.outs:
            g = lambda *p: eng.rd(st, ("D", mk("arg", "self")), (F("runtime_info"),) + tuple(F(x) for x in p))
            gone = lambda v: v.op == "empty" or (v.op == "agg" and v.a[2] == "None")
            kept = lambda v: v.op == "mem"
            insess = st.val(discr(mk("arg", "session_id"))) == 1
            b = "B" in what or ("b" in what and state != AUTH)
            cc = "c" in what and state != AUTH
            if hashed:
                v = g("digest_context_m1m2")
                self.ob(f"reset: {code} {'clears' if b or cc else 'keeps'} M1/M2 {'after' if state == AUTH else 'before'} authentication", gone(v) if b or cc else kept(v), self.job.name, show(v)[:100])
            else:
                for f, x in (("message_b", b), ("message_c", cc)):
                    self.ob(f"reset: {code} {'clears' if x else 'keeps'} {f} {'after' if state == AUTH else 'before'} authentication", gone(g(f)) if x else kept(g(f)), self.job.name, show(g(f))[:100])
            v = g("digest_context_l1l2" if hashed else "message_m")
            if not insess:
                self.ob(f"reset: {code} {'clears' if 'm' in what else 'keeps'} L1/L2", gone(v) if "m" in what else kept(v), self.job.name, show(v)[:100])
            else:
                self.ob(f"reset: {code} in a session keeps the L1/L2 outside", kept(v), self.job.name, show(v)[:100])
                k = [x[1:] for x in st.may if isinstance(x, tuple) and x and x[0] == "mclear"]
                known = any(t.op == "discr" and f == ("=", 1) and t.a[0].op == "pure" and t.a[0].a[0] == "session" for t, f in st.facts.items() if isinstance(t, T))
                if known:
                    self.ob(f"reset: {code} in a session {'clears' if 'm' in what else 'keeps'} that session's L1/L2", bool(k) == ("m" in what), self.job.name, str(k))

    def on_write(self, eng, st, fr, root, path, v, span):
        if root[0] == "SES" and path and path[-1] in (F("digest_context_l1l2"), F("message_m")):
            st.may = st.may | {("mclear", v.op == "empty" or (v.op == "agg" and v.a[2] == "None"))}
