"""C05 C06: what the requester takes from a response, and which certificate chains are kept."""
from rulelib import *
from registry import prop, flow, structural, req, responder, REQ_NAMES, RESP
from jobs import Job, PROGS, Rec
from domain import deepall, ghost, ghosts
from interp import ctx_stack
from r_resp import Sends, header_field

TEMP, KEPT = "peer_cert_chain_temp", "peer_cert_chain"


# ---------------------------------------------------------------- C05
def reaching(prog, target):
    """functions from which `target` may be called"""
    k = (id(prog), target)
    if k not in _reach:
        callers = {}
        for f in prog.fns.values():
            for c in (x[0] for x in f.callees() if isinstance(x[0], str)):
                callers.setdefault(c, set()).add(f.name)
        seen, todo = set(), [target]
        while todo:
            x = todo.pop()
            for y in callers.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        _reach[k] = seen
    return _reach[k]


_reach = {}


def is_size(t):
    return t.op == "pure" and t.a[0] == "get_size" or t.op == "call" and t.a[0].endswith("::get_size")


def hash_size(t, extra):
    """t == get_size(base_hash_sel) + extra"""
    return show(t) == f"(get_size((*arg(self)).common.negotiate_info.base_hash_sel)+{extra})"


NOW = {}


def temp_field(t, name):
    """is t the present value of a field of the temporary chain?"""
    return t is NOW[name]


def look(eng, st, v=None):
    """the chain about to be stored (or the temporary chain as it is in this state)"""
    if v is None:
        v = eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("peer_info"), F(TEMP)))
    v = deepall(eng, st, v)
    v = fldp(v, (V("Some"), F("0")))
    NOW.update(data=fld(v, F("data")), data_size=fld(v, F("data_size")))
    return v


def chain_slice(t):
    """is t the certificates of the temporary chain: temp.data[4 + hash size .. temp.data_size]?"""
    s = slice_of(t)
    if s is None:
        return False
    return temp_field(s[0], "data") and hash_size(s[1], 4) and temp_field(s[2], "data_size")


def chain_bytes(t):
    """a copy of the certificates at offset 0 of some buffer, or the slice itself"""
    if chain_slice(t):
        return True
    if t.op == "patch" and t.a[1] is K(0):
        return chain_bytes(t.a[3])
    return False


def root_slice(st, prog, t):
    """is t the first certificate of the temporary chain?"""
    s = slice_of(t)
    if s is None or not chain_bytes(s[0]):
        return False
    g = [x for x in subterms(s[1]) if x.op == "call" and x.a[0].endswith("::get_cert_from_cert_chain")]
    if not g:
        return False
    g = g[0]
    if not (chain_bytes(unslice(g.a[2][0])) or chain_bytes(g.a[2][0])) or g.a[2][1] is not K(0):
        return False
    ok = fldp(g, (V("Ok"), F("0")))
    return s[1] is fld(ok, F("0")) and s[2] is fld(ok, F("1"))


def equals(st):
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "eq" and f == ("=", 1):
            yield t.a
            yield t.a[::-1]


def verified(st, prog):
    """which of the conditions on the temporary chain are missing"""
    miss = []
    if not succeeded(st, prog, r"::cert_operation::verify_cert_chain$", lambda a: chain_bytes(a[0]) or chain_bytes(unslice(a[0]))):
        miss.append("verify_cert_chain did not accept the certificates received")
    if not any(digest_of_root(st, prog, x) and anchor(y) for x, y in equals(st)):
        miss.append("the root hash is not compared with the hash of the first certificate")
    some = [f for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and field_names(t.a[0])[:1] == ["peer_root_cert_data"]]
    none = any(f == ("=", 0) or f[0] == "!" and 1 in f[1] for f in some)
    if not none and not any(root_slice(st, prog, x) and "peer_root_cert_data" in field_names(y) and provisioned(y) for x, y in equals(st)):
        miss.append("the first certificate is not compared with the provisioned root certificate")
    if not any(temp_field(x, "data_size") and length_field(y) for x, y in equals(st)):
        miss.append("the chain's own length is not compared with what was received")
    return miss


def digest_of_root(st, prog, x):
    s = slice_of(x)
    if s is None or s[1] is not K(0):
        return False
    return has_sub(s[0], lambda d: d.op == "pure" and d.a[0] == "digest" and hashed(d.a[1], lambda r: root_slice(st, prog, r))
                   or d.op == "digest" and hashed(d.a, lambda r: root_slice(st, prog, r)))


def hashed(args, pred):
    t = args[0] if isinstance(args, tuple) else args
    return isinstance(t, T) and t.op == "app" and t.a[0].op == "hctx" and pred(t.a[1])


def anchor(y):
    s = slice_of(y)
    return s is not None and temp_field(s[0], "data") and s[1] is K(4) and hash_size(s[2], 4)


def provisioned(y):
    s = slice_of(y)
    if s is None:
        return False
    return s[1] is K(0) and field_names(s[2])[:1] == ["data_size"] and "peer_root_cert_data" in field_names(s[2])


def length_field(y):
    d = NOW["data"]
    return all(has_sub(y, lambda x, i=i: x is fld(d, ("i", K(i)))) for i in (0, 1))


prop("C05", "All writers of peer_info.peer_cert_chain are enumerated over the whole program. In each, every path that writes slot s must have established: verify_cert_chain accepted the received certificates, the stored root hash equals the hash of the first certificate, "
     "which equals the provisioned root certificate if there is one, the chain's length field equals the number of bytes received, s is the slot asked for and the value is the chain verified. Each portion is accepted only for that slot and copied whole to its offset.",
     expect=[("kept", 3), ("portion", 4), ("writes", 1)])


def depth(call):
    return len(ctx_stack(call.ctx))


class Keep(Rule):
    slot = None

    def on_write(self, eng, st, fr, root, path, v, span):
        names = [e[1] for e in path if e[0] == "f"]
        if KEPT not in names or not any(e[0] == "i" for e in path[names.index(KEPT):] if True):
            if KEPT in names and path[-1] == F(KEPT):
                self.ob("kept chains are only replaced one slot at a time", blank(v), fr.fn.name, show(v)[:200])
            return
        w = fr.fn.name
        if v.op == "agg" and v.a[2] == "None":
            return
        ix = [e[1] for e in path if e[0] == "i"]
        look(eng, st, v)        # the facts must speak about the very chain that is stored
        miss = verified(st, self.prog)
        self.ob("kept: only a chain that was verified", not miss, w, "; ".join(miss))
        self.ob("kept: under the slot that was asked for", len(ix) == 1 and self.is_slot(ix[0], st), w, f"stored in slot {show(ix[0])[:200]}")
        ghost(st, "stored", mk("arg", "self"))

    def finish(self, run):
        for st, ret in run.outs:
            if may_ok(st, ret) and self.final(st, ret):
                self.ob("kept: success only with the chain stored", bool(ghosts(st, "stored")), self.job.name, "success without storing the chain")


def blank(v):
    return not received(v)


def whole_job(c):
    return [Job(c, "RequesterContext::send_receive_spdm_certificate", passes=1)]


@flow("C05", whole_job)
@(lambda c: (setattr(c, "alone", True), c)[1])
class KeepRequester(Keep):
    def is_slot(self, t, st):
        return all_arg(t, "slot_id")

    def final(self, st, ret):
        return True

    def on_call(self, eng, call, args, st):
        # whatever a portion exchange leaves in the temporary chain: any bytes, any size
        if depth(call) == 1 and call.name in reaching(self.prog, RECV):
            n = eng.fresh(call, st, "portion")
            root = ("D", mk("arg", "self"))
            eng.wr(st, call.fr, root, (F("common"), F("peer_info"), F(TEMP)), eng.fresh(call, st, "chain"), call.span)
            fn = self.prog.byname[call.name][0]
            for nm, a in zip(params(fn), args):
                if nm == "slot_id":
                    self.ob("portions are asked for from the given slot", all_arg(a, "slot_id"), where(call), show(a)[:200])
            return [(st, n)]
        return None


def params(fn):
    return fn.names[1:fn.argc + 1]


def all_arg(t, name):
    return t is mk("arg", name)


def encap_job(c):
    if c in ("B", "D"):
        return []
    return [Job(c, "ResponderContext::handle_encap_response_certificate")]


@flow("C05", encap_job)
class KeepEncap(Keep):
    def is_slot(self, t, st):
        return field_names(t)[:2] == ["req_slot_id", "encap_context"] and any(
            field_names(x)[:1] == ["slot_id"] and received_arg(x) and y is t for x, y in equals(st))

    def final(self, st, ret):
        if ret.op == "agg" and ret.a[3] and ret.a[3][0] is FALSE:
            return True
        return False


def received_arg(t):
    return has_sub(t, lambda x: x.op == "call" and x.a[0].endswith("spdm_read"))


def mentions(place, field):
    return isinstance(place, list) and any(isinstance(e, list) and e[0] == "f" and e[1] == field for e in place[1:])


def owner(prog, f):
    """the named function a closure belongs to"""
    return f.name.split("::{closure")[0]


def closure_of(prog, roots):
    seen, todo = set(roots), list(roots)
    while todo:
        n = todo.pop()
        for f in [x for x in prog.fns.values() if x.name == n or x.name.startswith(n + "::{closure")]:
            for c, _ in f.callees():
                if isinstance(c, str) and c in prog.byname and c not in seen:
                    seen.add(c)
                    todo.append(c)
    return seen


def callers(prog, name):
    return {owner(prog, f) for f in prog.fns.values() if any(c == name for c, _ in f.callees())}


@structural("C05")
def writers(prog, pid):
    out, found = [], {}
    for f in prog.fns.values():
        for b in f.bbs:
            for s in (b[0] if b else []):
                if s[0] == "=" and (mentions(s[1], KEPT) or isinstance(s[2], list) and s[2][0] in ("&m", "&raw") and mentions(s[2][1], KEPT)):
                    found.setdefault(owner(prog, f), s[-1])
            if b and b[1][0] == "call" and mentions(b[1][3], KEPT):
                found.setdefault(owner(prog, f), b[1][5])
    entries = [j.entry for j in req("send_receive_spdm_certificate")("A")] + ["ResponderContext::handle_encap_response_certificate"]
    roots = [f.name for e in entries for f in prog.find(e, unique=False)]
    seen = closure_of(prog, roots)
    for w, sp in sorted(found.items()):
        ok = w in roots or w in seen and callers(prog, w) <= seen | set(roots)
        out.append(Rec(pid, f"writes of peer_cert_chain are in analysed code: {w.split('::')[-1]}", ok, f"{w} ({sp[0]}:{sp[1]})" if sp else w,
                       f"writes a kept certificate chain outside {[r.split('::')[-1] for r in roots]}"))
    return out


def portion_fn(prog):
    """the step of send_receive_spdm_certificate that exchanges one portion"""
    top = prog.find("RequesterContext::send_receive_spdm_certificate")
    r = reaching(prog, RECV)
    c = {n for n, _ in top.callees() if isinstance(n, str) and n in r}
    if len(c) != 1:
        return top
    return prog.byname[c.pop()][0]


def portion_job(c):
    p = PROGS[c]
    return [Job(c, portion_fn(p).name, name="certificate portion")]


def cur(eng, st):
    v = deepall(eng, st, eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("peer_info"), F(TEMP))))
    v = fldp(v, (V("Some"), F("0")))
    return fld(v, F("data")), fld(v, F("data_size"))


class Portion(Rule):
    def placed(self, eng, st, off, where_):
        """the portion decoded was copied whole to its place; returns its length"""
        d, n = cur(eng, st)
        if d.op != "patch":
            self.ob("portion: stored", False, where_, show(d)[:200])
            return None
        lo, hi, src = d.a[1], d.a[2], d.a[3]
        s = slice_of(src)
        ok = s is not None and field_names(s[0])[:1] == ["cert_chain"] and s[1] is K(0) and field_names(s[2])[:1] == ["portion_length"]
        self.ob("portion: the bytes stored are those received", ok, where_, show(src)[:300])
        if not ok:
            return None
        p = s[2]
        self.ob("portion: stored at the offset asked for", off(lo) and hi is add(lo, p), where_, f"stored at {show(lo)[:100]} .. {show(hi)[:100]}")
        self.ob("portion: the size counts what was stored", n is hi, where_, show(n)[:200])
        return p


@flow("C05", portion_job)
class PortionRequester(Portion):
    def finish(self, run):
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            w = self.job.name
            p = self.placed(run.eng, st, lambda t: t is mk("arg", "offset"), w)
            if p is None:
                continue
            root = p.a[0] if p.op == "fld" else None
            slot = fld(root, F("slot_id"))
            self.ob("portion: of the slot asked for", any(x is slot and y is mk("arg", "slot_id") for x, y in equals(st)), w, "slot of the response is not compared")
            r = fld(root, F("remainder_length"))
            self.ob("portion: length and remainder are reported to the caller", ret.op == "agg" and ret.a[3][0] is AGGT(p, r), w, show(ret)[:200])


def AGGT(*v):
    return AGG("tuple", 0, "tuple", tuple(v))


@flow("C05", encap_job)
class PortionEncap(Portion):
    def on_write(self, eng, st, fr, root, path, v, span):
        if len(path) >= 2 and path[-1] == F("data_size") and F(TEMP) in path and received_arg(v):
            st.may = st.may | {("portion", 1)}
            d, n = cur(eng, st)
            if d.op != "patch":
                self.ob("portion: stored", False, fr.fn.name, show(d)[:200])
                return
            s = slice_of(d.a[3])
            ok = s is not None and field_names(s[0])[:1] == ["cert_chain"] and s[1] is K(0) and field_names(s[2])[:1] == ["portion_length"]
            self.ob("portion: the bytes stored are those received", ok, fr.fn.name, show(d.a[3])[:200])
            self.ob("portion: stored after what was there", d.a[1] is fld_old(eng, st, n, v) and v is d.a[2], fr.fn.name, f"at {show(d.a[1])[:100]}, size then {show(v)[:200]}")


def fld_old(eng, st, n, v):
    return n


# ---------------------------------------------------------------- C06
OWN = {"send_receive_spdm_version": "SpdmResponseVersion", "send_receive_spdm_capability": "SpdmResponseCapabilities",
       "send_receive_spdm_algorithm": "SpdmResponseAlgorithms", "send_receive_spdm_digest": "SpdmResponseDigests",
       "certificate portion": "SpdmResponseCertificate", "send_receive_spdm_challenge": "SpdmResponseChallengeAuth",
       "send_receive_spdm_measurement": "SpdmResponseMeasurements", "send_receive_spdm_key_exchange": "SpdmResponseKeyExchangeRsp",
       "send_receive_spdm_psk_exchange": "SpdmResponsePskExchangeRsp", "send_receive_spdm_finish": "SpdmResponseFinishRsp",
       "send_receive_spdm_psk_finish": "SpdmResponsePskFinishRsp", "send_receive_spdm_heartbeat": "SpdmResponseHeartbeatAck",
       "send_receive_spdm_key_update": "SpdmResponseKeyUpdateAck", "send_receive_spdm_end_session": "SpdmResponseEndSessionAck",
       "send_spdm_vendor_defined_request": "SpdmResponseVendorDefinedResponse"}

prop("C06", "At every exit of a requester call that may be Ok, the path facts must say: the header at the start of a packet received in answer has the response code of this request, its version was compared equal to the negotiated one (1.0 for VERSION), "
     "and the payload of that type was decoded from the same packet with success; no message with another code, in particular ERROR, was taken for the answer.",
     expect=[("answered", 13), ("version", 13), ("decoded", 13)])


def c06_jobs(c):
    return req(*[n for n in REQ_NAMES if n != "send_receive_spdm_certificate"])(c) + portion_job(c)


@flow("C06", c06_jobs)
@(lambda c: (setattr(c, "alone", True), c)[1])
class Answer(Rule):
    def on_call(self, eng, call, args, st):
        if call.name.endswith("::spdm_read"):  # paths that decode different packets are followed apart
            ghost(st, "reading", deepall(eng, st, args[1]))

    def finish(self, run):
        want = OWN.get(self.job.name)
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            w, heads = self.job.name, {}
            for t, f in st.facts.items():
                if isinstance(t, T) and t.op == "discr" and f[0] == "=":
                    h = header_field(t.a[0], "request_response_code")
                    if h is not None:
                        heads[h] = self.vname(CODE, f[1])
            good = [h for h, c in heads.items() if c == want]
            self.ob(f"{w}: success is answered by {want}", bool(good), w, f"response codes established on the path: {sorted(map(str, heads.values()))}")
            other = sorted({c for c in heads.values() if c != want})
            self.ob(f"{w}: answered by nothing else", not other, w, f"also took {other} for an answer")
            for h in good:
                ver = fldp(h, (V("Some"), F("0"), F("version")))
                if want == "SpdmResponseVersion":
                    d = st.val(discr(ver))
                    ok = d is not None and self.vname(self.adt("SpdmVersion"), d) == "SpdmVersion10"
                else:
                    ok = any(x is ver and field_names(y)[:2] == ["spdm_version_sel", "negotiate_info"] for x, y in equals_ev(st))
                self.ob(f"{w}: the version of the response is checked", ok, w, "no comparison with the negotiated version")
                buf = h.a[1][0]
                rd = succeeded(st, self.prog, r"::spdm_read$", lambda a: from_buf(a, buf))
                self.ob(f"{w}: the response is decoded", bool(rd), w, "no payload decoded from the packet with this header")


def equals_ev(st):
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "eq" and f == ("=", 1):
            for x, y in (t.a, t.a[::-1]):
                yield x, y
                if x.op == "pure" and x.a[0] == "enumval" and y.op == "pure" and y.a[0] == "enumval":
                    yield x.a[1][0], y.a[1][0]


def from_buf(a, buf):
    return any(has_sub(x, lambda y: y is buf) for x in a if isinstance(x, T))
