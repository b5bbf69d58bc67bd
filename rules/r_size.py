"""C22: no SPDM message is larger than the peer declared it can receive."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
from interp import Hooks
from domain import deepall
from lin import Lin
import domain
import raw

SELF = ("D", mk("arg", "self"))
MIN = 42  # MinDataTransferSize of DSP0274
prop("C22", "Every function that hands a packet to SpdmDeviceIo::send is followed on every path: where the packet carries an SPDM message (not application data), the facts of the path imply that the peer declared no size or that "
     "the message's length is at most it, and a message put in place of one that is too long is ERROR ResponseTooLarge. The decoders of GET_CAPABILITIES and CAPABILITIES yield a data transfer size of at least 42 and at most the "
     "maximum message size from version 1.2 on and 0 before, and on every path that accepts or answers them that value is the one kept for the peer.", level="proof",
     expect=[("^sent: ", 4), ("^declared: ", 4), ("^kept: ", 2)])


class Size:
    def __init__(self, prog):
        self.prog, self.recs = prog, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec("C22", key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def sends(self, fn):
        me = self
        side = "req" if "ResponderContext" in fn.name else "rsp"
        short = fn.name.split("::", 2)[-1]

        class H(Hooks):
            def on_call(self, eng, call, args, st):
                if call.name != SEND:
                    return None
                o = Out(deepall(eng, st, args[1]))
                app = next((x.a[2] for x in wires(o.raw) if x.a[0] == "app"), FALSE)
                if st.val(app) == 1:
                    return None
                limit = eng.rd(st, SELF, (F("common"), F("negotiate_info"), F(f"{side}_data_transfer_size_sel")))
                n = o.used if o.used is not None and o.first is not None else eng.length(st, o.payload)
                fits = st.val(limit) == 0 or Lin(st).proves_le(limit, K(0)) or st.val(lt(limit, n)) == 0 or Lin(st).proves_le(n, limit)
                me.ob(f"sent: {short}: fits what the peer declared", fits, short, f"{show(n)[:300]} of {show(o.payload)[-120:]}: not known to be at most {show(limit)[-60:]} bytes")
                if side == "req" and o.first is not None:
                    code = o.field("error_code")
                    me.ob(f"sent: {short}: in place of a message that is too long, ERROR ResponseTooLarge", code is not None and show(code).startswith("SpdmErrorCode::SpdmErrorResponseTooLarge"), short, show(o.first)[:200])
                return None
        r = raw.run(self.prog, fn, hooks=H(), pol=domain.policy)
        covered("C22", fn.name, r.eng)

    def declared(self, fn):
        """the sizes a decoded payload carries"""
        t = fn.name[1:].split(" as ")[0].split("::")[-1]
        ctx = mk("arg", fn.names[1])
        for name in ("SpdmVersion10", "SpdmVersion11", "SpdmVersion12"):
            def su(eng, st, a):
                v = eng.rd(st, ("D", ctx), (F("negotiate_info"), F("spdm_version_sel")))
                st.assume_eq(discr(v), next(x["d"] for x in self.prog.adts["spdmlib::protocol::version::SpdmVersion"]["v"] if x["n"] == name))
            r = raw.run(self.prog, fn, setup=su, pol=raw.dec_policy(self.prog, fn, ()))
            covered("C22", fn.name, r.eng)
            n = 0
            for st, v in r.outs:
                if v.op == "agg" and v.a[2] == "None":
                    continue
                n += 1
                p = fldp(v, (V("Some"), F("0")))
                size, most, l = fld(p, F("data_transfer_size")), fld(p, F("max_spdm_msg_size")), Lin(st)
                if name < "SpdmVersion12":
                    self.ob(f"declared: {t}: none before 1.2", l.proves_eq(size, K(0)), fn.name, show(size)[:80])
                    continue
                self.ob(f"declared: {t}: at least {MIN}", l.proves_le(K(MIN), size), fn.name, show(size)[:80])
                self.ob(f"declared: {t}: at most the maximum message size", l.proves_le(size, most), fn.name, f"{show(size)[:80]} and {show(most)[:80]}")
            self.ob(f"declared: {t}: can be decoded", n > 0, fn.name, name)

    def kept(self, fn, side):
        r = raw.run(self.prog, fn, pol=domain.policy)
        covered("C22", fn.name, r.eng)
        short = fn.name.split("::", 2)[-1]
        w = next((mk("arg", x) for x in fn.names[1:fn.argc + 1] if x == "writer"), None)
        n = 0
        for st, v in r.outs:
            if side == "rsp" and v.op == "agg" and v.a[2] == "Err":
                continue
            if side == "req" and "SpdmCapabilitiesResponse(" not in show(deepall(r.eng, st, r.eng.rd(st, ("D", w), ())) if w is not None else v):
                continue
            n += 1
            have = r.eng.rd(st, SELF, (F("common"), F("negotiate_info"), F(f"{side}_data_transfer_size_sel")))
            ver = r.eng.rd(st, SELF, (F("common"), F("negotiate_info"), F("spdm_version_sel")))
            old = st.val(lt(mk("pure", "enumval", (ver,)), K(0x12))) == 1
            self.ob(f"kept: {short}: the size the peer declared", old or have.op == "fld" and have.a[1] == F("data_transfer_size") and "spdm_read" in show(have), short, show(have)[:120])
        self.ob(f"kept: {short}: capabilities are accepted", n > 0, short)


def wires(t):
    out = []

    def go(x):
        if isinstance(x, T):
            if x.op == "wire":
                out.append(x)
            for a in x.a:
                go(a)
        elif isinstance(x, (tuple, list)):
            for a in x:
                go(a)
    go(t)
    return out


@structural("C22")
def c22(prog, cfg):
    s = Size(prog)
    for fn in sorted(prog.fns.values(), key=lambda f: f.name):
        if fn.crate != "spdmlib":
            continue
        if any(isinstance(c[0], str) and c[0] == SEND for c in fn.callees()):
            s.sends(fn)
        if fn.name.endswith("::spdm_read") and ("::SpdmGetCapabilitiesRequestPayload as" in fn.name or "::SpdmCapabilitiesResponsePayload as" in fn.name):
            s.declared(fn)
        if fn.name.endswith("ResponderContext::write_spdm_capability_response"):
            s.kept(fn, "req")
        if fn.name.endswith("RequesterContext::handle_spdm_capability_response"):
            s.kept(fn, "rsp")
    return list(s.recs.values())
