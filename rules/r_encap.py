"""C29: what is said about the own certificate chains.  C30: encapsulated requests and mutual authentication."""
from rulelib import *
from registry import prop, flow, structural, responder
from jobs import Job
from domain import deepall, ghost, ghosts
from interp import ctx_stack
from r_resp import Sends, state_value, CS
from r_cert import equals, reaching

SLOTS = 8


# ---------------------------------------------------------------- C29
prop("C29", "Where a DIGESTS, CERTIFICATE or CHALLENGE_AUTH message is encoded (responder, and requester for encapsulated requests), its fields are compared, as terms over the request decoded and the provisioned chains, with what they must be: "
     "for each of the 256 ways of provisioning the slots the mask and the digests in slot order; slot echoed, portion = chain[offset .. offset + length] with length = min(asked for, portion limit, rest), remainder = what is left; hash of the chain of the slot challenged.",
     expect=[("DIGESTS", 3), ("CERTIFICATE", 6), ("CHALLENGE_AUTH", 2)])


def no_trunc(t):
    while t.op in ("trunc", "zext", "cast") and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def same(st, a, b):
    a, b = no_trunc(a), no_trunc(b)
    if a is b:
        return True
    x, y = st.val(a), st.val(b)
    return x is not None and x == y


def le(st, a, b):
    """a <= b by a chain of comparisons made on the path"""
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x is b:
            return True
        for t, f in st.facts.items():
            if not (isinstance(t, T) and t.op == "lt"):
                continue
            if f == ("=", 1) and t.a[0] is x:
                n = t.a[1]
            elif f == ("=", 0) and t.a[1] is x:
                n = t.a[0]
            else:
                continue
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return False


def chain_of(t):
    """(slot index, field) if t is a field of a provisioned chain"""
    n = field_names(t)
    if len(n) >= 2 and "my_cert_chain" in n and "provision_info" in n:
        ix = [i for i in indices(t)]
        if len(ix) >= 1:
            return ix[-1]
    return None


def digest_of_chain(t):
    """slot index if t is the digest, under the negotiated hash algorithm, of one whole provisioned chain"""
    if t.op == "fld" and t.a[1] == F("0"):
        t = t.a[0]
    if t.op == "pure" and t.a[0] == "digest":
        h = t.a[1][0]
    elif t.op == "digest":
        h = t.a[0]
    else:
        return None
    if not (h.op == "app" and h.a[0].op == "hctx" and field_names(h.a[0].a[0])[:2] == ["base_hash_sel", "negotiate_info"]):
        return None
    s = slice_of(h.a[1])
    if s is None or s[1] is not K(0):
        return None
    i, j = chain_of(s[0]), chain_of(s[2])
    if i is None or i is not j or field_names(s[0])[0] != "data" or field_names(s[2])[0] != "data_size":
        return None
    return i


class Own(Rule):
    def on_call(self, eng, call, args, st):
        if call.name.endswith("::hash_all") or re.search(r"::hash_ctx_update$|::hash_all_cb$", call.name):
            for a in args:  # the slots already hashed tell paths apart
                v = deepall(eng, st, a)
                i = chain_of(slice_of(v)[0]) if slice_of(v) is not None else None
                if i is not None and i.op == "k":
                    ghost(st, "hashed", i)
            return None
        if not call.name.endswith("::spdm_encode"):
            return None
        m = deepall(eng, st, args[0])
        if m.op != "agg" or not m.a[0].endswith("::SpdmMessage"):
            return None
        body = m.a[3][1]
        if not (body.op == "agg" and len(body.a[3]) == 1):
            return None
        b = body.a[3][0]
        w = " < ".join(x.split("::")[-1] for x in reversed((stack(eng, call) + [self.job.name])[-3:]))
        f = {"SpdmDigestsResponse": self.digests, "SpdmCertificateResponse": self.certificate, "SpdmChallengeAuthResponse": self.challenge}.get(body.a[2])
        if f is None or b.op != "agg":
            return None
        f(eng, st, b, w)
        return [] if self.cut else None

    cut = True

    def get(self, b, n):
        return b.a[3][field_index(b.a[0], n)]

    def digests(self, eng, st, b, w):
        mask, dig = self.get(b, "slot_mask"), self.get(b, "digests")
        prov = {}
        for t, f in st.facts.items():
            if isinstance(t, T) and t.op == "discr" and field_names(t.a[0])[:2] == ["my_cert_chain", "provision_info"] and indices(t.a[0]):
                i = indices(t.a[0])[-1]
                v = 0 if f[0] == "!" and 1 in f[1] else 1 if f[0] == "!" and 0 in f[1] else st.val(t)
                if i.op == "k" and v is not None:
                    prov[i.a[0]] = v
        self.ob("DIGESTS: every slot is looked at", sorted(prov) == list(range(SLOTS)), w, f"only slots {sorted(prov)}")
        slots = [i for i in sorted(prov) if prov[i] == 1]
        want = sum(1 << i for i in slots)
        self.ob("DIGESTS: the mask says which slots are provisioned", st.val(mask) == want, w, f"with slots {slots} provisioned the mask is {show(mask)[:150]}")
        got = []
        for j, i in enumerate(slots):
            d = fld(dig, ("i", K(j)))
            k = digest_of_chain(d)
            got.append(k)
            if not self.ob("DIGESTS: the digests are those of the provisioned chains in slot order", k is K(i), w, f"with slots {slots} provisioned, digest {j} is {show(d)[:200]}"):
                break
        self.version(eng, st, w, "DIGESTS")

    def version(self, eng, st, w, what):
        pass

    def slot(self, st, b, w, what, used):
        s = self.get(b, "slot_id")
        req = no_trunc(s)
        ok = any(same(st, s, x) for x in self.asked(st, "slot_id")) and any(same(st, used, x) for x in self.asked(st, "slot_id"))
        self.ob(f"{what}: for the slot asked for", ok, w, f"slot of the answer {show(s)[:150]}, chain of slot {show(used)[:150]}")

    def asked(self, st, name):
        """terms denoting field `name` of the request decoded on this path"""
        out = []
        for t, f in st.facts.items():
            if isinstance(t, T) and t.op == "discr" and f == ("=", 1) and t.a[0].op == "call" and t.a[0].a[0].endswith("::spdm_read"):
                out.append(fldp(t.a[0], (V("Some"), F("0"), F(name))))
        return out

    def certificate(self, eng, st, b, w):
        p, r, c = self.get(b, "portion_length"), self.get(b, "remainder_length"), self.get(b, "cert_chain")
        s = slice_of(c.a[3]) if c.op == "patch" else slice_of(c)
        ok = s is not None and (c.op != "patch" or c.a[1] is K(0) and c.a[0].op == "rep")
        i = chain_of(s[0]) if ok else None
        ok = i is not None and field_names(s[0])[0] == "data"
        if not self.ob("CERTIFICATE: the portion is part of a provisioned chain", ok, w, show(c)[:300]):
            return
        some = any(isinstance(t, T) and t.op == "discr" and st.val(t) == 1 and t.a[0] is chain_root(s[0]) for t in st.facts)
        self.ob("CERTIFICATE: of a provisioned slot", some, w, "the slot is not known to be provisioned")
        self.slot(st, b, w, "CERTIFICATE", i)
        size = fld(parent(s[0]), F("data_size"))
        off = [o for o in self.asked(st, "offset") if same(st, s[1], o)]
        self.ob("CERTIFICATE: the portion starts at the offset asked for", bool(off), w, show(s[1])[:200])
        p0 = no_trunc(p)
        self.ob("CERTIFICATE: the portion has the length stated", sub(s[2], s[1]) is p0 and (c.op != "patch" or c.a[2] is p0), w, f"{show(sub(s[2], s[1]))[:150]} bytes, length field {show(p)[:150]}")
        rest = sub(size, s[1])
        lens = self.asked(st, "length")
        limit = c.a[0].a[1] if c.op == "patch" else p0 if p0.op == "k" else None
        limit = limit if isinstance(limit, T) or limit is None else K(limit)
        ok = any(p0 is x for x in lens) or p0 is rest or p0 is limit
        self.ob("CERTIFICATE: the portion is as long as asked for, the limit or the rest of the chain", ok, w, show(p)[:200])
        self.ob("CERTIFICATE: the portion is not longer than asked for", any(le(st, p0, x) for x in lens), w, show(p)[:200])
        self.ob("CERTIFICATE: the portion does not go beyond the chain", le(st, p0, rest) and any(le(st, o, size) for o in off), w, f"{show(p)[:200]} of {show(rest)[:150]}")
        self.ob("CERTIFICATE: the remainder is what follows the portion", sub(rest, p0) is no_trunc(r), w, show(r)[:300])

    def challenge(self, eng, st, b, w):
        i = digest_of_chain(self.get(b, "cert_chain_hash"))
        if self.ob("CHALLENGE_AUTH: the hash is that of a provisioned chain", i is not None, w, show(self.get(b, "cert_chain_hash"))[:200]):
            self.slot(st, b, w, "CHALLENGE_AUTH", i)


def parent(t):
    if t.op == "fld":
        return t.a[0]
    if t.op == "mem" and t.a[1]:
        return mk("mem", t.a[0], t.a[1][:-1], t.a[2])
    return t


def chain_root(t):
    """the Option in my_cert_chain that holds this chain"""
    t = parent(t)
    for _ in range(6):
        n = field_names(t)
        if n[:1] == ["my_cert_chain"] and (t.op == "fld" and t.a[1][0] == "i" or t.op == "mem" and t.a[1] and t.a[1][-1][0] == "i"):
            return t
        t = parent(t)
    return t


def own_jobs(c):
    l = [Job(c, "ResponderContext::handle_spdm_digest", unroll=8, wide=True), Job(c, "ResponderContext::handle_spdm_certificate", wide=True),
         Job(c, "ResponderContext::handle_spdm_challenge")]
    if c in "AC":
        l += [Job(c, "RequesterContext::encap_handle_get_digest", unroll=8, wide=True), Job(c, "RequesterContext::encap_handle_get_certificate", wide=True)]
    return l


@flow("C29", own_jobs)
@(lambda c: (setattr(c, "alone", True), c)[1])
class OwnChains(Own):
    pass


# ---------------------------------------------------------------- C30
ENCAP_CAP, CERT_CAP = 0x1000, 0x2
ACK = "SpdmEncapsulatedResponseAckPayloadType"

prop("C30", "Responder: at each send of ENCAPSULATED_REQUEST or ENCAPSULATED_RESPONSE_ACK the path facts give version >= 1.1, ENCAP_CAP of both sides, connection state >= AfterCertificate, and for an ACK the checked version and code of the embedded response; the embedded request is GET_DIGESTS or GET_CERTIFICATE for the slot and "
     "next offset; ReqSlotNumber only after the chain was kept. Requester: gates before the first message, header checks before acting, answers only to GET_DIGESTS and GET_CERTIFICATE with CERT_CAP and the negotiated version, slot < 8 before it is used.",
     expect=[("^responder", 9), ("^requester", 9)])


def version_at_least(st, byte):
    for t in st.facts:
        if isinstance(t, T):
            for x in subterms(t):
                if x.op == "pure" and x.a[0] == "enumval" and field_names(x.a[1][0])[:2] == ["spdm_version_sel", "negotiate_info"]:
                    lo, hi = st.bounds(x)
                    if lo is not None and lo >= byte:
                        return True
    return False


def both_encap(st):
    return bit(st, "req_capabilities_sel", ENCAP_CAP) is True and bit(st, "rsp_capabilities_sel", ENCAP_CAP) is True


def inner_headers(st):
    """headers read from a message carried inside another, with what is known of them on this path: {read: [version checked, code discriminant]}"""
    out = {}
    for t, f in st.facts.items():
        if not isinstance(t, T):
            continue
        for x in subterms(t):
            if x.op == "pure" and x.a[0].startswith("rd:") and "SpdmMessageHeader" in x.a[0] and inner(x):
                e = out.setdefault(x, [False, None])
                h = fldp(x, (V("Some"), F("0")))
                if t.op == "discr" and f[0] == "=" and t.a[0] is fld(h, F("request_response_code")):
                    e[1] = f[1]
                if t.op == "eq" and f == ("=", 1):
                    for a, b in (t.a, t.a[::-1]):
                        if a is fld(h, F("version")) and field_names(b)[:2] == ["spdm_version_sel", "negotiate_info"]:
                            e[0] = True
    return out


def inner(x):
    b, o = x.a[1][0], x.a[1][1]
    s = slice_of(b)
    return s is not None and s[1] is not K(0) or o is not K(0)


def outer_header(st, rule):
    """(version checked, code name) of the outermost received message"""
    ver, code = False, None
    for t, f in st.facts.items():
        if not isinstance(t, T):
            continue
        if t.op == "discr" and f[0] == "=":
            h = head0(t.a[0], "request_response_code")
            if h:
                code = rule.vname(CODE, f[1])
        if t.op == "eq" and f == ("=", 1):
            for a, b in (t.a, t.a[::-1]):
                if head0(a, "version") and field_names(b)[:2] == ["spdm_version_sel", "negotiate_info"]:
                    ver = True
    return ver, code


def head0(t, name):
    if t.op != "fld" or t.a[1] != F(name):
        return False
    y = t.a[0]
    while y.op == "fld":
        y = y.a[0]
    return y.op == "pure" and y.a[0].startswith("rd:") and "SpdmMessageHeader" in y.a[0] and not inner(y)


def embedded(e):
    """(code, payload) of an encoded SpdmMessage"""
    m = e.a[1]
    if m.op == "agg" and m.a[0].endswith("::SpdmMessage"):
        h, b = m.a[3][0], m.a[3][1]
        c = h.a[3][1] if h.op == "agg" else None
        return (c.a[2] if c is not None and c.op == "agg" else None), (b.a[3][0] if b.op == "agg" and b.a[3] else None), (h.a[3][0] if h.op == "agg" else None)
    return None, None, None


def fields(b, name):
    i = field_index(b.a[0], name)
    return b.a[3][i] if i is not None else None


def is_neg_version(t):
    return t is not None and field_names(t)[:2] == ["spdm_version_sel", "negotiate_info"]


def decoded(st, prog, ty):
    """payload terms of successful spdm_read calls for type ty (all, if the type cannot be told)"""
    out = []
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "discr" and f == ("=", 1) and t.a[0].op == "call" and t.a[0].a[0].endswith("::spdm_read") and ty in t.a[0].a[0]:
            out.append(fldp(t.a[0], (V("Some"), F("0"))))
    return out


def rsp_jobs(c):
    return [Job(c, "ResponderContext::handle_get_encapsulated_request"), Job(c, "ResponderContext::handle_deliver_encapsulated_reponse", wide=True)] if c in "AC" else []


@flow("C30", rsp_jobs)
@(lambda c: (setattr(c, "alone", True), c)[1])
class Encap(Sends):
    def on_write(self, eng, st, fr, root, path, v, span):
        names = [e[1] for e in path if e[0] == "f"]
        if "peer_cert_chain" in names and any(e[0] == "i" for e in path) and not (v.op == "agg" and v.a[2] == "None"):
            ghost(st, "kept", AGG("tuple", 0, "tuple", tuple(e[1] for e in path if e[0] == "i")))

    def send(self, eng, call, st, o, w):
        code = o.code
        if code is None and o.first is not None and o.first.op == "agg" and o.first.a[0].endswith("::SpdmMessageHeader"):
            c = o.first.a[3][1]
            code = c.a[2] if c.op == "agg" else None
        if code == "SpdmResponseError":
            return
        name = {"SpdmResponseEncapsulatedRequest": "ENCAPSULATED_REQUEST", "SpdmResponseEncapsulatedResponseAck": "ENCAPSULATED_RESPONSE_ACK"}.get(code)
        if not self.ob("responder: answers are ENCAPSULATED_REQUEST, ENCAPSULATED_RESPONSE_ACK or ERROR", name is not None, w, f"sends {code}"):
            return
        self.ob(f"responder: {name} in a session", o.secured, w, "sent in the clear")
        self.ob(f"responder: {name} needs version 1.1", version_at_least(st, 0x11), w, "the negotiated version is not known to be at least 1.1")
        self.ob(f"responder: {name} needs ENCAP_CAP of both sides", both_encap(st), w, "ENCAP_CAP is not known to be negotiated by both sides")
        lo, hi = state_value(st, eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("runtime_info"), F("connection_state"))))
        want = self.vdisc(CS, "SpdmConnectionAfterCertificate")
        self.ob(f"responder: {name} needs the certificate exchange to be over", lo is not None and lo >= want, w, f"connection state only known to be in [{lo}, {hi}]")
        ver, _ = outer_header(st, self)
        self.ob(f"responder: {name} answers a request of the negotiated version", ver, w, "version of the request not compared")
        encs = list(reversed(o.encs))
        slot = lambda t: field_names(t)[:2] == ["req_slot_id", "encap_context"]
        if name == "ENCAPSULATED_REQUEST":
            e = embedded(encs[1]) if len(encs) == 2 else (None, None, None)
            self.ob("responder: the first encapsulated request is GET_DIGESTS", e[0] == "SpdmRequestGetDigests" and is_neg_version(e[2]), w, f"carries {e[0]}")
            return
        heads = inner_headers(st)
        ok = [self.vname(CODE, d) for v, d in heads.values() if v and d is not None]
        if not self.ob("responder: an encapsulated response is taken only with the negotiated version", len(ok) == 1, w, "version or code of the embedded response is not checked"):
            return
        got = ok[0]
        p = encs[1].a[1] if len(encs) > 1 else None
        if not self.ob("responder: ENCAPSULATED_RESPONSE_ACK is well formed", p is not None and p.op == "agg" and p.a[0].endswith("::SpdmEncapsulatedResponseAckPayload"), w, str(p)[:200]):
            return
        rid = fields(p, "ack_request_id")
        self.ob("responder: the ACK names the request that was answered", any(rid is fld(d, F("request_id")) for d in decoded(st, self.prog, "SpdmDeliverEncapsulatedResponsePayload")), w, show(rid)[:200])
        kind = fields(p, "payload_type")
        kind = kind.a[2] if kind.op == "agg" else None
        if kind == "Present":
            e = embedded(encs[2]) if len(encs) == 3 else (None, None, None)
            b = e[1]
            self.ob("responder: the next encapsulated request is GET_CERTIFICATE", e[0] == "SpdmRequestGetCertificate" and is_neg_version(e[2]), w, f"carries {e[0]}")
            if b is not None and b.op == "agg" and e[0] == "SpdmRequestGetCertificate":
                self.ob("responder: GET_CERTIFICATE for the slot of the encapsulated exchange", slot(fields(b, "slot_id")), w, show(fields(b, "slot_id"))[:200])
                off = fields(b, "offset")
                now = deepall(eng, st, eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("peer_info"), F("peer_cert_chain_temp"))))
                now = fld(fldp(now, (V("Some"), F("0"))), F("data_size"))
                self.ob("responder: GET_CERTIFICATE continues where the chain received so far ends", off is now or st.val(off) is not None and st.val(off) == st.val(now), w, f"{show(off)[:200]} vs {show(now)[:200]}")
            self.ob("responder: more is asked for only after DIGESTS or a portion", got in ("SpdmResponseDigests", "SpdmResponseCertificate"), w, f"after {got}")
        elif kind == "ReqSlotNumber":
            k = ghosts(st, "kept")
            self.ob("responder: the slot is announced only after its chain was kept", got == "SpdmResponseCertificate" and bool(k), w, f"after {got}, kept {k}")
            self.ob("responder: the slot announced is that of the encapsulated exchange", len(encs) == 3 and slot(encs[2].a[1]), w, show(encs[2].a[1])[:200] if len(encs) > 2 else "")
        else:
            self.ob("responder: nothing follows an ACK without payload", len(encs) == 2, w, f"{len(encs)} parts")


def req_jobs(c):
    return [Job(c, "RequesterContext::receive_encapsulated_request"), Job(c, "RequesterContext::receive_encapsulated_response_ack")] if c in "AC" else []


@flow("C30", req_jobs)
@(lambda c: (setattr(c, "alone", True), c)[1])
class EncapRequester(Sends):
    def own(self):
        return "SpdmResponseEncapsulatedResponseAck" if self.job.name.endswith("_ack") else "SpdmResponseEncapsulatedRequest"

    def carrier(self, st, w, what):
        ver, code = outer_header(st, self)
        self.ob(f"requester: {what} only after {self.own()[12:]} of the negotiated version", ver and code == self.own(), w, f"version checked: {ver}, response code: {code}")
        pay = decoded(st, self.prog, "SpdmEncapsulatedResponseAckPayload" if self.job.name.endswith("_ack") else "SpdmEncapsulatedRequestPayload")
        self.ob(f"requester: {what} only after its payload was decoded ({self.own()[12:]})", len(pay) == 1, w, "payload not decoded")
        return pay[0] if pay else None

    def send(self, eng, call, st, o, w):
        w = self.job.name
        if not self.ob("requester: answers with DELIVER_ENCAPSULATED_RESPONSE", o.code == "SpdmRequestDeliverEncapsulatedResponse" and o.secured, w, f"sends {o.code}"):
            return
        pay = self.carrier(st, w, "an embedded request is answered")
        if pay is None:
            return
        rid = o.field("request_id")
        self.ob("requester: the answer names the request", rid is fld(pay, F("request_id")), w, show(rid)[:200] if rid is not None else "")
        encs = list(reversed(o.encs))
        if self.job.name.endswith("_ack"):
            k = st.val(discr(fld(pay, F("payload_type"))))
            f = st.facts.get(discr(fld(pay, F("payload_type"))))
            no = [d for d in (self.vdisc(self.adt(ACK), n) for n in ("Absent", "ReqSlotNumber")) if k == d or k is None and not (f and f[0] == "!" and d in f[1])]
            self.ob("requester: an ACK without embedded request is not answered", not no, w, "payload type may be Absent or ReqSlotNumber")
        e = embedded(encs[1]) if len(encs) >= 2 else (None, None, None)
        if not self.ob("requester: DELIVER_ENCAPSULATED_RESPONSE carries a response", e[0] is not None and is_neg_version(e[2]), w, f"carries {e[0]}"):
            return
        if e[0] == "SpdmResponseError" or len(encs) > 2 and embedded(encs[-1])[0] == "SpdmResponseError":
            return
        heads = inner_headers(st)
        want = {"SpdmResponseDigests": "SpdmRequestGetDigests", "SpdmResponseCertificate": "SpdmRequestGetCertificate"}.get(e[0])
        codes = {self.vname(CODE, d) for v, d in heads.values() if d is not None}
        self.ob(f"requester: an embedded request is answered by its response ({e[0][12:]})", want is not None and codes == {want}, w, f"{e[0]} answers {sorted(map(str, codes))}")
        self.ob(f"requester: the embedded request has the negotiated version ({e[0][12:]})", any(v for v, d in heads.values()), w, "version of the embedded request is not compared")
        self.ob(f"requester: {e[0][12:]} needs CERT_CAP", bit(st, "req_capabilities_sel", CERT_CAP) is True, w, "CERT_CAP is not known to be set")

    def on_write(self, eng, st, fr, root, path, v, span):
        if path and path[-1][0] == "f" and "slot_id" in path[-1][1] and "runtime_info" in [e[1] for e in path if e[0] == "f"]:
            w = fr.fn.name.split("::")[-1]
            pay = self.carrier(st, w, "the slot is set")
            lo, hi = st.bounds(no_trunc(v))
            self.ob("requester: the slot taken from an ACK exists", hi is not None and hi < SLOTS, w, f"slot in [{lo}, {hi}]")
            if pay is not None:
                self.ob("requester: the slot is taken from a ReqSlotNumber ACK", st.val(discr(fld(pay, F("payload_type")))) == self.vdisc(self.adt(ACK), "ReqSlotNumber"), w, "other payload type")

    def finish(self, run):
        if not self.job.name.endswith("_ack"):
            return
        for st, ret in run.outs:
            if may_ok(st, ret):
                self.carrier(st, self.job.name, "success")


def gate_jobs(c):
    return [Job(c, "RequesterContext::get_encapsulated_request_response", passes=1)] if c in "AC" else []


@flow("C30", gate_jobs)
@(lambda c: (setattr(c, "alone", True), c)[1])
class EncapGate(Rule):
    def on_call(self, eng, call, args, st):
        if len(ctx_stack(call.ctx)) != 1 or not (call.name in reaching(self.prog, SEND) or call.name in reaching(self.prog, RECV)):
            return None
        w = f"{self.job.name} calls {call.name.split('::')[-1]}"
        self.ob("requester: the encapsulated exchange needs version 1.1", version_at_least(st, 0x11), w, "the negotiated version is not known to be at least 1.1")
        self.ob("requester: the encapsulated exchange needs ENCAP_CAP of both sides", both_encap(st), w, "ENCAP_CAP is not known to be negotiated by both sides")
        return [(st, eng.fresh(call, st, "io"))]
