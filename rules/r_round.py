"""C23: what is encoded is decoded back."""
import itertools
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
from interp import Limit
import wire, num, r_dec, r_wire
from lin import Lin

SELF, CTX, BUF = mk("arg", "self"), mk("arg", "context"), mk("arg", "bytes")


def plain_type(prog, t):
    """integers (C25), codes and flags (C31)"""
    if t in wire.INT:
        return True
    a = prog.adts.get(t)
    return a is None or a["k"] == "enum" or len(a["v"][0]["f"]) == 1 and a["v"][0]["f"][0][0] == "bits"


def pairs(prog):
    enc, dec = {}, {}
    for f in prog.fns.values():
        k = wire.kind(f)
        if k and f.crate == "spdmlib" and not plain_type(prog, wire.ty_of(f)):
            (enc if k == "enc" else dec)[wire.ty_of(f)] = f
    return enc, dec


class Trip:
    """one type: encode an arbitrary value, decode what was written"""
    pid = "C23"

    def __init__(self, prog, t, enc, dec):
        self.prog, self.t, self.enc, self.dec = prog, t, enc, dec
        self.short = t.split("::")[-1]
        self.recs = {}
        self.kept, self.lost = set(), {}

    def ob(self, key, ok, where, why=""):
        key = f"{self.short}: {key}"
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec(self.pid, key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def go(self):
        for case in CASES.get(self.short, [()]):
            self.case(case)

    def term(self, path):
        """a place of the value, or of the negotiated parameters if it starts with ctx."""
        t = self.value
        if path.startswith("ctx."):
            t, path = self.ctx, path[4:]
        for f in path.split("."):
            t = fld(t, ("v", f[1:]) if f.startswith("@") else ("f", f))
        return t

    def case(self, case):
        unroll = 0

        def su(eng, st, a):
            self.value = eng.content(st, SELF)
            self.ctx = eng.content(st, CTX)
            for i, inner, n, cap in r_dec.pairs(self.prog, self.t):
                x = fld(self.value, ("f", self.fields()[i]))
                x = fld(x, ("f", inner)) if inner else x
                st.assume(lt(K(cap), x), False)
            for path, v in case:
                t = self.term(path)
                st.assume_eq(t, v)
                st._set(t.a[0], t.a[1], K(v))
        if any(p in ("slot_mask", "data_size") and v <= 255 for p, v in case) and len(case) == 1:
            unroll = 32
        r = wire.run(self.prog, self.enc, "enc", [SELF, CTX, BUF] if self.enc.argc == 3 else [SELF, BUF], setup=su, unroll=unroll)
        covered("C23", self.enc.name, r.eng)
        seen, n = set(), 0
        self.domain = {self.term(p): vs for p, vs in DOMAIN.get(self.short, {}).items()}
        for st, v in r.outs:
            if v.op == "agg" and v.a[2] == "Err" or not self.possible(st):
                continue
            if not self.ob("written item by item", "wbad" not in st.ev, self.enc.name, st.ev.get("wbad", "")):
                continue
            st.facts = {t: f for t, f in st.facts.items() if not (syms(t) if isinstance(t, T) else syms(t[1]))}
            k = (st.ev["wlog"], frozenset(st.facts.items()))
            if k in seen:
                continue
            seen.add(k)
            n += 1
            self.back(st, r.eng, unroll)
        self.ob("can be encoded", n > 0, self.enc.name, "no path encodes a value")

    def possible(self, st):
        """some value within the bits the field has follows this path"""
        used = subterms(mk("tuple", *(t if isinstance(t, T) else t[1] for t in st.facts), st.ev["wlog"]))
        bases = [b for b in self.domain if b in used]
        if not bases:
            return True
        c, _ = num.condition(st, bases)
        return any(c(*vs) for vs in itertools.product(*(self.domain[b] for b in bases)))

    def equal(self, st, x, y):
        """the same number, whatever values the fields packed into it have"""
        if not self.domain:
            return False
        used = subterms(x) | subterms(y)
        bases = [b for b in self.domain if b in used]
        if not bases:
            return False
        try:
            f, g = num.compiled(x, bases), num.compiled(y, bases)
        except num.Unknown:
            return False
        c, _ = num.condition(st, bases)
        return all(f(*vs) == g(*vs) for vs in itertools.product(*(self.domain[b] for b in bases)) if c(*vs))

    def fields(self):
        a = self.prog.adts[self.t]
        return [f[0] for f in a["v"][0]["f"]]

    def back(self, st, eng, unroll):
        items = st.ev["wlog"][0]
        if self.short in KIND and not self.announced(st):
            return
        q = wire.run(self.prog, self.dec, "dec", [CTX, BUF] if self.dec.argc == 2 else [BUF], state=st, items=items, unroll=unroll, b=BRANCHES.get(self.short, 4096))
        covered("C23", self.dec.name, q.eng)
        good = 0
        for s, x in q.outs:
            if not self.possible(s):
                continue
            if not self.ob("read as written", "wbad" not in s.ev, self.dec.name, s.ev.get("wbad", "")):
                continue
            if x.op == "agg" and x.a[2] == "None":
                self.refused(st, s)
            elif self.ob("understood", x.op == "agg" and x.a[2] == "Some", self.dec.name, show(x)[:200]):
                good += 1
                left = s.ev["wlog"][0]
                self.ob("nothing is left over", not left, self.dec.name, f"not read: {wire.pr(left)}" if left else "")
                self.kept_now = set()
                self.compare(q.eng, st, s, "", x.a[3][0], self.value, items)
        self.ob("what is written can be read", good > 0 or self.short in REFUSED, self.dec.name, f"no path reads {wire.pr(items) if items else 'nothing'}")
        self.good += good

    def announced(self, st):
        """the tag of the value is the one of what it holds"""
        what, tag, table = KIND[self.short]
        what, tag = self.term(what), self.term(tag)
        codes = self.variants(tag)
        d = st.val(discr(what))
        name = next((k for k, v in self.variants(what).items() if v == d), None)
        if not self.ob("one kind at a time", name is not None, self.enc.name, "what is encoded does not depend on the kind of the value"):
            return False
        if name not in table:
            return False
        if table[name] is not None:
            return st.assume_eq(discr(tag), codes[table[name]])
        return all(st.assume(eq(discr(tag), K(codes[v])), False) for v in table.values() if v is not None)

    def variants(self, t):
        """name -> discriminant of the variants a place may have"""
        ty = self.t
        for k, n in t.a[1]:
            a = self.prog.adts[ty]
            ty = next(f[1] for f in a["v"][0]["f"] if f[0] == n)
            ty = self.prog.tys[a["crate"]][ty]["p"]
        return {v["n"]: v["d"] for v in self.prog.adts[ty]["v"]}

    good = 0

    def refused(self, st, s):
        # the last test on the way
        names = set()
        for t in reversed([*(t for t in s.facts if t in st.facts), *(t for t in s.facts if t not in st.facts)]):
            names |= self.touched(t if isinstance(t, T) else t[1])
            if names:
                break
        self.ob("refused only for what the specification rules out", bool(names & set(REFUSED.get(self.short, ()))), self.dec.name, f"a value is refused that differs from accepted ones in {sorted(names)}")

    def touched(self, t):
        """names of the fields of the value, or of the context, a term speaks about"""
        out = set()
        for x in subterms(t):
            if x.op == "mem":
                for base, pre in ((self.value, ""), (self.ctx, "ctx.")):
                    if mk("mem", x.a[0], base.a[1], *x.a[2:]) is base and x.a[1]:
                        n = 1 if pre and x.a[1][0][1] in ("negotiate_info", "runtime_info") else 0
                        if len(x.a[1]) > n:
                            out.add(pre + x.a[1][n][1])
        return out

    # ---- comparison
    def compare(self, eng, st, s, path, x, y, items):
        if x.op == "patch" and Lin(s).proves_le(x.a[2], x.a[1]):
            x = x.a[0]
        if x.op == "ref":
            return self.compare(eng, st, s, path, eng.rd(s, x.a[0], x.a[1]), y if y.op == "mem" and y.a[0][0] == "D" and not y.a[1] else eng.content(s, y), items)
        if self.same(s, x, y) or self.equal(s, x, y):
            self.kept.add(path)
            return self.ob(f"{path or 'the value'} comes back", True, self.dec.name)
        if x.op == "agg" and x.a[0] in self.prog.adts:
            a = self.prog.adts[x.a[0]]
            if a["k"] == "struct":
                for v, f in zip(x.a[3], a["v"][0]["f"]):
                    self.compare(eng, st, s, (path and path + ".") + f[0], v, fld(y, ("f", f[0])), items)
                return
            if s.val(discr(y)) == dv_of(x):
                if not x.a[3]:
                    self.kept.add(path)
                for i, v in enumerate(x.a[3]):
                    self.compare(eng, st, s, path, v, fldp(y, (V(x.a[2]), F(i))), items)
                return
        if not self.tells(y, items) and (not self.depends(x) or self.equal(s, x, K(0))):
            why = self.absent(st, path, x)
            if why is None:
                shows = sorted({n for t in st.facts for n in self.touched(t if isinstance(t, T) else t[1])})
                return self.ob(f"{path} comes back", False, self.dec.name, f"{path} is not carried (is decoded as {show(x)[:80]}), on a path that depends on {shows}")
            return
        self.ob(f"{path} comes back", False, self.dec.name, f"{path} is decoded as {show(x)[:200]}, written {wire.pr(items)[:300]}")

    def absent(self, st, path, x):
        """why a field may be left out here"""
        if x.op == "rep":
            # an array of which nothing is in use
            for t, f in st.facts.items():
                if isinstance(t, T) and (t.op == "lt" and t.a[0] is K(0) and f == ("=", 0) and self.touched(t.a[1]) or f == ("=", 0) and t.op == "mem" and self.touched(t)):
                    return "empty"
        top = path.split(".")[0]
        for what in ABSENT.get((self.short, top), ()):
            for t in st.facts:
                if what in self.touched(t if isinstance(t, T) else t[1]):
                    return what
        return None

    def tells(self, y, items):
        for t in items:
            if isinstance(t, T):
                for z in subterms(t):
                    if z is y or z.op == "mem" and y.op == "mem" and z.a[0] == y.a[0] and z.a[1][:len(y.a[1])] == y.a[1]:
                        return True
            elif isinstance(t, tuple) and self.tells(y, t):
                return True
        return False

    def depends(self, v):
        return any(z is self.value or z.op == "mem" and z.a[0] == self.value.a[0] for z in subterms(v))

    def same(self, st, x, y):
        if x is y:
            return True
        if x.op == "patch":
            old, lo, hi, v = x.a[:4]
            if v.op == "agg" and v.a[0] == "array" and lo is K(0) and hi is K(len(v.a[3])):
                return all(e is fld(y, ("i", K(i))) for i, e in enumerate(v.a[3]))
            return lo is K(0) and v is fld(y, ("sl", K(0), hi))
        if x.op == "upd" and x.a[0].op == "rep":
            # the elements one by one
            subs = dict(x.a[1])
            return all(subs.get((("i", K(i)),)) is fld(y, ("i", K(i))) for i in range(len(subs)))
        if x is fld(y, ("sl", K(0), x.a[1][2])) if x.op == "fld" and x.a[1][0] == "sl" else x.op == "mem" and x.a[1] and x.a[1][-1][0] == "sl" and x is fld(y, x.a[1][-1]) and x.a[1][-1][1] is K(0):
            return True
        if x.op == "k":
            l = Lin(st)
            return st.val(y) == x.a[0] or l.proves_eq(x, y)
        return False


NIB = range(16)
# fields packed into one byte: the values they have
DOMAIN = {
    "SecuredMessageVersion": {f: NIB for f in ("major_version", "minor_version", "update_version_number", "alpha")},
    "SpdmChallengeAuthResponsePayload": {"slot_id": NIB, "challenge_auth_attribute.bits": (0, 0x80)},
    "SpdmMeasurementsResponsePayload": {"slot_id": NIB, "content_changed.bits": (0, 0x10, 0x20, 0x30)},
    "SpdmDmtfMeasurementStructure": {"type.@Unknown.0": range(len(r_wire.ENUMS["SpdmDmtfMeasurementType"][1]), 128), "representation.@Unknown.0": ()},
}
SIG = {0x1: 256, 0x2: 256, 0x4: 384, 0x8: 384, 0x10: 64, 0x20: 512, 0x40: 512, 0x80: 96}
# values looked at one by one
CASES = {
    "SpdmDigestsResponsePayload": [[("slot_mask", m)] for m in range(256)],
    "SpdmErrorResponseVendorExtData": [[("data_size", n)] for n in range(33)],
    "SpdmDheExchangeStruct": [[("ctx.negotiate_info.dhe_sel.bits", b), ("data_size", n)] for b, n in ((8, 64), (16, 96))],
    "SpdmDigestStruct": [[("ctx.negotiate_info.base_hash_sel.bits", b), ("data_size", n)] for b, n in ((1, 32), (2, 48), (4, 64))],
    "SpdmSignatureStruct": [[("ctx.negotiate_info.base_asym_sel.bits", b), ("data_size", n)] for b, n in SIG.items()],
}
# fields for which a value may be refused
REFUSED = {
    "SpdmAlgStruct": ("alg_type",),
    "SpdmMessage": ("header",),
    "SpdmCapabilitiesResponsePayload": ("flags", "data_transfer_size", "max_spdm_msg_size"),
    "SpdmGetCapabilitiesRequestPayload": ("flags", "data_transfer_size", "max_spdm_msg_size"),
    "SpdmChallengeRequestPayload": ("measurement_summary_hash_type", "ctx.rsp_capabilities_sel"),
    "SpdmKeyExchangeRequestPayload": ("measurement_summary_hash_type", "ctx.rsp_capabilities_sel"),
    "SpdmPskExchangeRequestPayload": ("measurement_summary_hash_type", "ctx.rsp_capabilities_sel"),
    "SpdmKeyExchangeResponsePayload": ("mut_auth_req",),
    "SpdmPskExchangeResponsePayload": ("psk_context",),
    "SpdmKeyUpdateRequestPayload": ("key_update_operation",),
    "SpdmKeyUpdateResponsePayload": ("key_update_operation",),
    "SpdmVersionResponsePayload": ("version_number_entry_count",),
    "SpdmMeasurementBlockStructure": ("measurement_specification", "measurement_size"),
    "SpdmMeasurementRecordStructure": ("number_of_blocks", "measurement_record_length"),
    "SpdmDmtfMeasurementStructure": ("ctx.measurement_hash_sel", "value_size"),
    "SpdmAlgorithmsResponsePayload": ("alg_struct_count", "alg_struct", "measurement_specification_sel", "other_params_selection", "measurement_hash_algo", "base_asym_sel", "base_hash_sel", "ctx.spdm_version_sel", "ctx.req_capabilities_sel", "ctx.rsp_capabilities_sel"),
    "SpdmNegotiateAlgorithmsRequestPayload": ("alg_struct_count", "alg_struct"),
    "SpdmDheExchangeStruct": ("ctx.dhe_sel",),
    "SpdmDigestStruct": ("ctx.base_hash_sel",),
    "SpdmSignatureStruct": ("ctx.base_asym_sel",),
}
VER, SUMMARY, CLEAR = "ctx.spdm_version_sel", "ctx.need_measurement_summary_hash", ("ctx.req_capabilities_sel", "ctx.rsp_capabilities_sel")
# (type, field) -> what decides whether it is there
ABSENT = {
    ("SpdmAlgorithmsResponsePayload", "alg_struct_count"): (VER,),
    ("SpdmAlgorithmsResponsePayload", "alg_struct"): (VER,),
    ("SpdmAlgorithmsResponsePayload", "other_params_selection"): (VER,),
    ("SpdmNegotiateAlgorithmsRequestPayload", "alg_struct_count"): (VER,),
    ("SpdmNegotiateAlgorithmsRequestPayload", "alg_struct"): (VER,),
    ("SpdmNegotiateAlgorithmsRequestPayload", "other_params_support"): (VER,),
    ("SpdmCapabilitiesResponsePayload", "data_transfer_size"): (VER,),
    ("SpdmCapabilitiesResponsePayload", "max_spdm_msg_size"): (VER,),
    ("SpdmGetCapabilitiesRequestPayload", "ct_exponent"): (VER,),
    ("SpdmGetCapabilitiesRequestPayload", "flags"): (VER,),
    ("SpdmGetCapabilitiesRequestPayload", "data_transfer_size"): (VER,),
    ("SpdmGetCapabilitiesRequestPayload", "max_spdm_msg_size"): (VER,),
    ("SpdmChallengeAuthResponsePayload", "measurement_summary_hash"): (SUMMARY,),
    ("SpdmKeyExchangeRequestPayload", "session_policy"): (VER,),
    ("SpdmKeyExchangeResponsePayload", "measurement_summary_hash"): (SUMMARY,),
    ("SpdmKeyExchangeResponsePayload", "verify_data"): CLEAR,
    ("SpdmPskExchangeResponsePayload", "measurement_summary_hash"): (SUMMARY,),
    ("SpdmPskExchangeResponsePayload", "psk_context"): ("ctx.rsp_capabilities_sel",),
    ("SpdmFinishRequestPayload", "signature"): ("finish_request_attributes",),
    ("SpdmFinishResponsePayload", "verify_data"): CLEAR,
    ("SpdmGetMeasurementsRequestPayload", "nonce"): ("measurement_attributes",),
    ("SpdmGetMeasurementsRequestPayload", "slot_id"): (VER, "measurement_attributes"),
    ("SpdmMeasurementsResponsePayload", "signature"): ("ctx.need_measurement_signature",),
    ("SpdmMeasurementsResponsePayload", "slot_id"): (VER, "ctx.need_measurement_signature"),
    ("SpdmMeasurementsResponsePayload", "content_changed"): (VER, "ctx.need_measurement_signature"),
    ("SpdmEncapsulatedResponseAckPayload", "ack_request_id"): (VER,),
}
# the kind of one field is announced by another; kinds not listed have a decoder of their own or none
KIND = {
    "SpdmErrorResponsePayload": ("extended_data", "error_code", {"SpdmErrorExtDataNotReady": "SpdmErrorResponseNotReady", "SpdmErrorExtDataVendorDefined": "SpdmErrorVendorDefined", "SpdmErrorExtDataNone": None}),
    "SpdmAlgStruct": ("alg_supported", "alg_type", {"SpdmAlgo" + k: "SpdmAlgType" + v for k, v in (("Dhe", "DHE"), ("Aead", "AEAD"), ("ReqAsym", "ReqAsym"), ("KeySchedule", "KeySchedule"))}),
    "SpdmMessage": ("payload", "header.request_response_code", {
        **{f"Spdm{k}Request": f"SpdmRequest{k}" for k in ("GetVersion", "GetCapabilities", "NegotiateAlgorithms", "GetDigests", "GetCertificate", "Challenge", "GetMeasurements", "KeyExchange", "Finish", "PskExchange",
                                                          "PskFinish", "Heartbeat", "KeyUpdate", "EndSession")},
        **{f"Spdm{k}Response": f"SpdmResponse{k}" for k in ("Version", "Capabilities", "Algorithms", "Digests", "Certificate", "ChallengeAuth", "Measurements", "Error")},
        **{f"Spdm{k}Response": f"SpdmResponse{k}Rsp" for k in ("KeyExchange", "Finish", "PskExchange", "PskFinish")},
        **{f"Spdm{k}Response": f"SpdmResponse{k}Ack" for k in ("Heartbeat", "KeyUpdate", "EndSession")},
    }),
}
# paths kept apart
BRANCHES = {"SpdmAlgorithmsResponsePayload": 64}
# not on the wire, or never sent
SKIP = ("SpdmStatus", "SpdmMessageGeneralPayload")
prop("C23", "For each type with both an encoder and a decoder: the encoder is followed on an arbitrary value, under arbitrary negotiated parameters, and gives on every path a sequence "
     "of typed items (loops as repeated items); the decoder is then followed on exactly those items under the same parameters. On every path the items are taken in the order and "
     "with the types they were written, none is left over, a refusal depends only on what the specification allows to refuse, and each field of the result equals that of the value, "
     "unless the negotiated parameters or an attribute leave the field out. Every field is carried on some path. Nested types are items of their own, compared in turn.",
     level="proof", expect=[(t + ": ", 3) for t in (
         "SpdmVersionResponsePayload", "SpdmGetCapabilitiesRequestPayload", "SpdmCapabilitiesResponsePayload", "SpdmNegotiateAlgorithmsRequestPayload", "SpdmAlgorithmsResponsePayload",
         "SpdmDigestsResponsePayload", "SpdmGetCertificateRequestPayload", "SpdmCertificateResponsePayload", "SpdmChallengeRequestPayload", "SpdmChallengeAuthResponsePayload",
         "SpdmGetMeasurementsRequestPayload", "SpdmMeasurementsResponsePayload", "SpdmKeyExchangeRequestPayload", "SpdmKeyExchangeResponsePayload", "SpdmFinishRequestPayload",
         "SpdmFinishResponsePayload", "SpdmPskExchangeRequestPayload", "SpdmPskExchangeResponsePayload", "SpdmPskFinishRequestPayload", "SpdmKeyUpdateRequestPayload", "SpdmEndSessionRequestPayload",
         "SpdmErrorResponsePayload", "SpdmMessage", "SpdmMessageHeader", "SpdmOpaqueStruct", "SpdmDigestStruct", "SpdmSignatureStruct", "SpdmDheExchangeStruct", "SpdmMeasurementRecordStructure",
         "SpdmMeasurementBlockStructure", "SpdmDmtfMeasurementStructure", "SecuredMessageDMTFVersionSelection", "SecuredMessageDMTFSupportedVersion")])


@structural("C23")
def c23(prog, cfg):
    enc, dec = pairs(prog)
    recs = []
    import os
    for t in sorted(set(enc) & set(dec)):
        p = Trip(prog, t, enc[t], dec[t])
        if os.environ.get("RT") and not t.endswith(os.environ["RT"]) or p.short in SKIP:
            continue
        try:
            p.go()
        except Limit as x:
            p.ob("analysed", False, enc[t].name, str(x))
        for f in p.fields():
            if not any(k == f or k.startswith(f + ".") for k in p.kept):
                p.ob(f"{f} comes back", False, dec[t].name, f"{f} is never carried")
        recs += p.recs.values()
    return recs
