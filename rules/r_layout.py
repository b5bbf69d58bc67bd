"""C32: messages have the layout of the specifications (DSP0274, DSP0277)."""
import itertools
from rulelib import *
from registry import prop, structural, covered
from interp import Limit
import wire
from r_round import Trip, SIG, KIND, SELF, CTX, BUF, DOMAIN as ROUND_DOMAIN, plain_type
from lin import Lin

VER, CLEAR = ("ver", (10, 11, 12)), ("clear", ((0, 0), (0, 1), (1, 0), (1, 1)))
SUMMARY, MSIG = ("ctx.runtime_info.need_measurement_summary_hash", (0, 1)), ("ctx.runtime_info.need_measurement_signature", (0, 1))
HANDSHAKE, WITHOUT_CONTEXT, WITH_CONTEXT = 0x8000, 0x400, 0x800
PSK = ("ctx.negotiate_info.rsp_capabilities_sel.bits", (WITHOUT_CONTEXT, WITH_CONTEXT))


def Z(n):
    """n reserved bytes"""
    return [("z",)] * n


def I(f, n):
    """an integer field of n bytes, least significant byte first"""
    return [("i", f, n)]


def T_(t, f=None):
    """a field of a type of its own"""
    return [("t", t, f)]


def C_(*bs):
    return [("k", b) for b in bs]


def M(count, *elem):
    """a counted list"""
    return [("m", count, elem)]


def LEN(base, unit, count, counted=True):
    """a length of 2 bytes: base + unit * count"""
    return [("len", base, unit, count if counted else None)]


def X(n, *fs):
    """fields that share an integer of n bytes: (field, shift)"""
    return [("x", n, fs)]


def psk(c):
    return T_("SpdmMeasurementSummaryHashType", "measurement_summary_hash_type") + Z(1) + I("req_session_id", 2) + I("psk_hint.data_size", 2) + I("psk_context.data_size", 2) + I("opaque.data_size", 2) + \
        M("psk_hint.data_size", I("psk_hint.data", 1)) + M("psk_context.data_size", I("psk_context.data", 1)) + M("opaque.data_size", I("opaque.data", 1))


def clear(c):
    return c["clear"] == (1, 1)


D, NONCE, SIGN, OPAQUE = T_("SpdmDigestStruct", "verify_data"), T_("SpdmNonceStruct", "nonce"), T_("SpdmSignatureStruct", "signature"), T_("SpdmOpaqueStruct", "opaque")
SUMMARY_HASH = T_("SpdmDigestStruct", "measurement_summary_hash")
ALGS = T_("SpdmBaseAsymAlgo", "base_asym_algo") + T_("SpdmBaseHashAlgo", "base_hash_algo") + Z(16)


def algs(c):
    return M("alg_struct_count", T_("SpdmAlgStruct", "alg_struct")) if c["ver"] >= 11 else []


# type -> (what the layout depends on, layout)
LAYOUT = {
    "SpdmMessageHeader": ((), lambda c: T_("SpdmVersion", "version") + T_("SpdmRequestResponseCode", "request_response_code")),
    "SpdmGetVersionRequestPayload": ((), lambda c: Z(2)),
    "SpdmVersionResponsePayload": ((), lambda c: Z(3) + I("version_number_entry_count", 1) + M("version_number_entry_count", T_("SpdmVersionStruct", "versions"))),
    "SpdmVersionStruct": ((), lambda c: I("update", 1) + T_("SpdmVersion", "version")),
    "SpdmGetCapabilitiesRequestPayload": ((VER,), lambda c: Z(2) + (Z(1) + I("ct_exponent", 1) + Z(2) + T_("SpdmRequestCapabilityFlags", "flags") if c["ver"] >= 11 else []) +
                                          (I("data_transfer_size", 4) + I("max_spdm_msg_size", 4) if c["ver"] >= 12 else [])),
    "SpdmCapabilitiesResponsePayload": ((VER,), lambda c: Z(3) + I("ct_exponent", 1) + Z(2) + T_("SpdmResponseCapabilityFlags", "flags") +
                                        (I("data_transfer_size", 4) + I("max_spdm_msg_size", 4) if c["ver"] >= 12 else [])),
    "SpdmNegotiateAlgorithmsRequestPayload": ((VER,), lambda c: (I("alg_struct_count", 1) if c["ver"] >= 11 else Z(1)) + Z(1) + LEN(32, 4, "alg_struct_count", c["ver"] >= 11) +
                                              T_("SpdmMeasurementSpecification", "measurement_specification") + (T_("SpdmOpaqueSupport", "other_params_support") if c["ver"] >= 12 else Z(1)) + ALGS + algs(c)),
    "SpdmAlgorithmsResponsePayload": ((VER,), lambda c: (I("alg_struct_count", 1) if c["ver"] >= 11 else Z(1)) + Z(1) + LEN(36, 4, "alg_struct_count", c["ver"] >= 11) +
                                      T_("SpdmMeasurementSpecification", "measurement_specification_sel") + (T_("SpdmOpaqueSupport", "other_params_selection") if c["ver"] >= 12 else Z(1)) +
                                      T_("SpdmMeasurementHashAlgo", "measurement_hash_algo") + T_("SpdmBaseAsymAlgo", "base_asym_sel") + T_("SpdmBaseHashAlgo", "base_hash_sel") + Z(16) + algs(c)),
    "SpdmAlgStruct": ((("kind", ("Dhe", "Aead", "ReqAsym", "KeySchedule")),), lambda c: T_("SpdmAlgType", "alg_type") + C_(0x20) + T_(f"Spdm{c['kind']}Algo", f"alg_supported.@SpdmAlgo{c['kind']}.0")),
    "SpdmGetDigestsRequestPayload": ((), lambda c: Z(2)),
    "SpdmDigestsResponsePayload": ((("slot_mask", range(256)),), lambda c: Z(1) + C_(c["slot_mask"]) + M(bin(c["slot_mask"]).count("1"), T_("SpdmDigestStruct", "digests"))),
    "SpdmGetCertificateRequestPayload": ((), lambda c: I("slot_id", 1) + Z(1) + I("offset", 2) + I("length", 2)),
    "SpdmCertificateResponsePayload": ((), lambda c: I("slot_id", 1) + Z(1) + I("portion_length", 2) + I("remainder_length", 2) + M("portion_length", I("cert_chain", 1))),
    "SpdmChallengeRequestPayload": ((), lambda c: I("slot_id", 1) + T_("SpdmMeasurementSummaryHashType", "measurement_summary_hash_type") + NONCE),
    "SpdmChallengeAuthResponsePayload": ((SUMMARY,), lambda c: X(1, ("slot_id", 0), ("challenge_auth_attribute.bits", 0)) + I("slot_mask", 1) + T_("SpdmDigestStruct", "cert_chain_hash") + NONCE +
                                         (SUMMARY_HASH if c[SUMMARY[0]] else []) + OPAQUE + SIGN),
    "SpdmGetMeasurementsRequestPayload": ((VER, ("measurement_attributes.bits", (0, 1, 2, 3))), lambda c: T_("SpdmMeasurementAttributes", "measurement_attributes") +
                                          T_("SpdmMeasurementOperation", "measurement_operation") + (NONCE + (I("slot_id", 1) if c["ver"] >= 11 else []) if c["measurement_attributes.bits"] & 1 else [])),
    "SpdmMeasurementsResponsePayload": ((VER, MSIG), lambda c: I("number_of_measurement", 1) +
                                        (X(1, ("slot_id", 0), ("content_changed.bits", 0)) if c[MSIG[0]] and c["ver"] >= 12 else I("slot_id", 1) if c[MSIG[0]] and c["ver"] >= 11 else Z(1)) +
                                        T_("SpdmMeasurementRecordStructure", "measurement_record") + NONCE + OPAQUE + (SIGN if c[MSIG[0]] else [])),
    "SpdmMeasurementRecordStructure": ((), lambda c: I("number_of_blocks", 1) + I("measurement_record_length", 3) + M("measurement_record_length.0", I("measurement_record_data", 1))),
    "SpdmMeasurementBlockStructure": ((), lambda c: I("index", 1) + T_("SpdmMeasurementSpecification", "measurement_specification") + I("measurement_size", 2) + T_("SpdmDmtfMeasurementStructure", "measurement")),
    "SpdmKeyExchangeRequestPayload": ((VER,), lambda c: T_("SpdmMeasurementSummaryHashType", "measurement_summary_hash_type") + I("slot_id", 1) + I("req_session_id", 2) +
                                      (I("session_policy", 1) if c["ver"] >= 12 else Z(1)) + Z(1) + T_("SpdmRandomStruct", "random") + T_("SpdmDheExchangeStruct", "exchange") + OPAQUE),
    "SpdmKeyExchangeResponsePayload": ((SUMMARY, CLEAR), lambda c: I("heartbeat_period", 1) + Z(1) + I("rsp_session_id", 2) + T_("SpdmKeyExchangeMutAuthAttributes", "mut_auth_req") + I("req_slot_id", 1) +
                                       T_("SpdmRandomStruct", "random") + T_("SpdmDheExchangeStruct", "exchange") + (SUMMARY_HASH if c[SUMMARY[0]] else []) + OPAQUE + SIGN + ([] if clear(c) else D)),
    "SpdmFinishRequestPayload": ((("finish_request_attributes.bits", (0, 1)),), lambda c: T_("SpdmFinishRequestAttributes", "finish_request_attributes") + I("req_slot_id", 1) +
                                 (SIGN if c["finish_request_attributes.bits"] else []) + D),
    "SpdmFinishResponsePayload": ((CLEAR,), lambda c: Z(2) + (D if clear(c) else [])),
    "SpdmPskExchangeRequestPayload": ((), psk),
    "SpdmPskExchangeResponsePayload": ((SUMMARY, PSK), lambda c: I("heartbeat_period", 1) + Z(1) + I("rsp_session_id", 2) + Z(2) + (I("psk_context.data_size", 2) if c[PSK[0]] == WITH_CONTEXT else Z(2)) +
                                       I("opaque.data_size", 2) + (SUMMARY_HASH if c[SUMMARY[0]] else []) +
                                       (M("psk_context.data_size", I("psk_context.data", 1)) if c[PSK[0]] == WITH_CONTEXT else []) + M("opaque.data_size", I("opaque.data", 1)) + D),
    "SpdmPskFinishRequestPayload": ((), lambda c: Z(2) + D),
    "SpdmPskFinishResponsePayload": ((), lambda c: Z(2)),
    "SpdmHeartbeatRequestPayload": ((), lambda c: Z(2)),
    "SpdmHeartbeatResponsePayload": ((), lambda c: Z(2)),
    "SpdmKeyUpdateRequestPayload": ((), lambda c: T_("SpdmKeyUpdateOperation", "key_update_operation") + I("tag", 1)),
    "SpdmKeyUpdateResponsePayload": ((), lambda c: T_("SpdmKeyUpdateOperation", "key_update_operation") + I("tag", 1)),
    "SpdmEndSessionRequestPayload": ((), lambda c: T_("SpdmEndSessionRequestAttributes", "end_session_request_attributes") + Z(1)),
    "SpdmEndSessionResponsePayload": ((), lambda c: Z(2)),
    "SpdmGetEncapsulatedRequestPayload": ((), lambda c: Z(2)),
    "SpdmEncapsulatedRequestPayload": ((), lambda c: I("request_id", 1) + Z(1)),
    "SpdmDeliverEncapsulatedResponsePayload": ((), lambda c: I("request_id", 1) + Z(1)),
    "SpdmEncapsulatedResponseAckPayload": ((VER,), lambda c: I("request_id", 1) + T_("SpdmEncapsulatedResponseAckPayloadType", "payload_type") + (I("ack_request_id", 1) + Z(3) if c["ver"] >= 12 else [])),
    "SpdmVendorDefinedRequestPayload": ((), lambda c: Z(2) + T_("RegistryOrStandardsBodyID", "standard_id") + T_("VendorIDStruct", "vendor_id") + T_("VendorDefinedReqPayloadStruct", "req_payload")),
    "SpdmVendorDefinedResponsePayload": ((), lambda c: Z(2) + T_("RegistryOrStandardsBodyID", "standard_id") + T_("VendorIDStruct", "vendor_id") + T_("VendorDefinedRspPayloadStruct", "rsp_payload")),
    "VendorIDStruct": ((), lambda c: I("len", 1) + M("len", I("vendor_id", 1))),
    "VendorDefinedReqPayloadStruct": ((), lambda c: I("req_length", 2) + M("req_length", I("vendor_defined_req_payload", 1))),
    "VendorDefinedRspPayloadStruct": ((), lambda c: I("rsp_length", 2) + M("rsp_length", I("vendor_defined_rsp_payload", 1))),
    "SpdmErrorResponsePayload": ((("kind", ("None", "NotReady", "VendorDefined")),), lambda c: T_("SpdmErrorCode", "error_code") + I("error_data", 1) +
                                 T_({"None": "SpdmErrorResponseNoneExtData", "NotReady": "SpdmErrorResponseNotReadyExtData", "VendorDefined": "SpdmErrorResponseVendorExtData"}[c["kind"]],
                                    f"extended_data.@SpdmErrorExtData{c['kind']}.0")),
    "SpdmErrorResponseNoneExtData": ((), lambda c: []),
    "SpdmErrorResponseNotReadyExtData": ((), lambda c: I("rdt_exponent", 1) + I("request_code", 1) + I("token", 1) + I("rdtm", 1)),
    "SpdmErrorResponseVendorExtData": ((), lambda c: M("data_size", I("data", 1))),
    "SpdmOpaqueStruct": ((), lambda c: I("data_size", 2) + M("data_size", I("data", 1))),
    "SpdmNonceStruct": ((), lambda c: M(32, I("data", 1))),
    "SpdmRandomStruct": ((), lambda c: M(32, I("data", 1))),
    "SpdmDheExchangeStruct": ((("size", ((8, 64), (16, 96))),), lambda c: M(c["size"][1], I("data", 1))),
    "SpdmDigestStruct": ((("size", ((1, 32), (2, 48), (4, 64))),), lambda c: M(c["size"][1], I("data.*", 1))),
    "SpdmSignatureStruct": ((("size", tuple(SIG.items())),), lambda c: M(c["size"][1], I("data", 1))),
    "SpdmDmtfMeasurementStructure": ((("type", (*range(8), 100)), ("rep", (0, 1))), lambda c: [("dmtf", c["type"], c["rep"])] + I("value_size", 2) + M("value_size", I("value", 1))),
    "SecuredMessageVersion": ((), lambda c: X(1, ("update_version_number", 4), ("alpha", 0)) + X(1, ("major_version", 4), ("minor_version", 0))),
    "SecuredMessageVersionList": ((), lambda c: I("version_count", 1) + M("version_count", T_("SecuredMessageVersion", "versions_list"))),
    "SecuredMessageGeneralOpaqueDataHeader": ((VER,), lambda c: I("total_elements", 1) + Z(3) if c["ver"] >= 12 else C_(0x46, 0x54, 0x4D, 0x44) + C_(1) + I("total_elements", 1) + Z(2)),
    "OpaqueElementDMTFVersionSelection": ((), lambda c: C_(0, 0, 4, 0, 1, 0) + T_("SecuredMessageVersion", "selected_version")),
    "OpaqueElementDMTFSupportedVersion": ((), lambda c: C_(0, 0) + LEN(3, 2, "secured_msg_vers.version_count") + C_(1, 1) + T_("SecuredMessageVersionList", "secured_msg_vers") + [("pad",)]),
    "OpaqueElementHeader": ((), lambda c: I("id", 1) + I("vendor_len", 1) + M("vendor_len", I("vendor_id", 1))),
    "SecuredMessageDMTFVersionSelection": ((), lambda c: T_("SecuredMessageGeneralOpaqueDataHeader", "secured_message_general_opaque_data_header") +
                                           M("secured_message_general_opaque_data_header.total_elements", T_("OpaqueElementDMTFVersionSelection", "opaque_element_dmtf_version_selection_list"))),
    "SecuredMessageDMTFSupportedVersion": ((), lambda c: T_("SecuredMessageGeneralOpaqueDataHeader", "secured_message_general_opaque_data_header") +
                                           M("secured_message_general_opaque_data_header.total_elements", T_("OpaqueElementDMTFSupportedVersion", "opaque_element_dmtf_supported_version_list"))),
}
SIZE_FIELD = {"SpdmDheExchangeStruct": "dhe_sel", "SpdmDigestStruct": "base_hash_sel", "SpdmSignatureStruct": "base_asym_sel"}
prop("C32", "every encoder is run over every path; the bytes and parts it writes, in order, are those of a table of the message formats of DSP0274 and DSP0277 (reserved bytes zero, counts, lengths, optional parts by version and by what was negotiated); the constants sent as opaque data are parsed",
     level="proof", expect=[(t + ": the layout", 1) for t in LAYOUT if "Encap" not in t and t != "OpaqueElementHeader"])


class Layout(Trip):
    def go(self):
        ds, f = LAYOUT[self.short]
        for vals in itertools.product(*(d[1] for d in ds)):
            self.one({d[0]: v for d, v in zip(ds, vals)}, f)

    def one(self, c, f):
        what = ", ".join(f"{k.split('.')[-1]}={v}" for k, v in c.items())

        def put(st, t, v):
            st.assume_eq(t, v)
            st._set(t.a[0], t.a[1], K(v))

        def su(eng, st, a):
            self.value, self.ctx = eng.content(st, SELF), eng.content(st, CTX)
            if self.short == "SpdmDigestStruct":
                self.boxed = eng.content(st, self.term("data"))
            for k, v in c.items():
                if k == "ver":
                    t = self.term("ctx.negotiate_info.spdm_version_sel")
                    st.assume_eq(discr(t), next(x["d"] for x in self.prog.adts["spdmlib::protocol::version::SpdmVersion"]["v"] if x["n"] == f"SpdmVersion{v}"))
                elif k == "clear":
                    for side, on in zip(("req", "rsp"), v):
                        put(st, self.term(f"ctx.negotiate_info.{side}_capabilities_sel.bits"), HANDSHAKE if on else 0)
                elif k == "kind":
                    t = self.term(KIND[self.short][0])
                    st.assume_eq(discr(t), next(d for n, d in self.variants(t).items() if n.endswith(v)))
                elif k == "size":
                    put(st, self.term(f"ctx.negotiate_info.{SIZE_FIELD[self.short]}.bits"), v[0])
                    put(st, self.term("data_size"), v[1])
                elif k in ("type", "rep"):
                    t = self.term("type" if k == "type" else "representation")
                    known = self.variants(t)
                    d = sorted(d for n, d in known.items() if n != "Unknown")
                    if v < len(d):
                        st.assume_eq(discr(t), d[v])
                    else:
                        st.assume_eq(discr(t), known["Unknown"])
                        put(st, fldp(t, (V("Unknown"), F("0"))), v)
                else:
                    put(st, self.term(k), v)
        r = wire.run(self.prog, self.enc, "enc", [SELF, CTX, BUF] if self.enc.argc == 3 else [SELF, BUF], setup=su, unroll=32 if "slot_mask" in c else 0)
        covered("C32", self.enc.name, r.eng)
        self.domain = {self.term(p): vs for p, vs in DOMAIN.get(self.short, {}).items()}
        n = 0
        for st, v in r.outs:
            if v.op == "agg" and v.a[2] == "Err" or not self.possible(st):
                continue
            n += 1
            if not self.ob("written item by item", "wbad" not in st.ev, self.enc.name, st.ev.get("wbad", "")):
                continue
            have = flat(st.ev["wlog"][0])
            why = self.differ(st, have, self.expected(f(c), NTH))
            self.ob("the layout of the specification" + (f" ({what})" if what and "slot_mask" not in c else ""), why is None, self.enc.name, f"{why} [{what}]")
        self.ob("can be encoded", n > 0, self.enc.name, f"no path encodes a value [{what}]")

    def place(self, f, i=None):
        t = self.boxed if f == "data.*" else self.term(f)
        return t if i is None else fld(t, ("i", i))

    def held(self, v, t):
        """v is what the field t holds, or t with a part the case gives a value"""
        return v is t or v.op == "upd" and v.a[0] is t and all(x[1].op == "k" for x in v.a[1])

    def byte(self, st, h, w):
        if h is w or self.equal(st, h, w):
            return True
        if h.op != "k":
            return False
        v = st.val(w.a[0] if w.op == "byte" else w)
        return v is not None and h.a[0] == (v >> 8 * w.a[1] & 255 if w.op == "byte" else v)

    def expected(self, toks, ix, i=None):
        out = []
        for t in toks:
            if t[0] == "z":
                out.append(("b", K(0)))
            elif t[0] == "k":
                out.append(("b", K(t[1])))
            elif t[0] == "i":
                v = self.place(t[1], i)
                out += [("b", v if t[2] == 1 else mk("byte", v, j, t[2])) for j in range(t[2])]
            elif t[0] == "t":
                out.append(("t", t[1], self.place(t[2], i)))
            elif t[0] == "x":
                out.append(("b", add(*(scale(self.term(f), 1 << s) for f, s in t[2])) if len(t[2]) > 1 else scale(self.term(t[2][0][0]), 1 << t[2][0][1])))
            elif t[0] == "len":
                v = add(K(t[1]), scale(self.term(t[3]), t[2])) if t[3] else K(t[1])
                out += [("b", K(v.a[0] >> 8 * j & 255) if v.op == "k" else mk("byte", v, j, 2)) for j in range(2)]
            elif t[0] == "pad":
                out.append(("pad",))
            elif t[0] == "dmtf":
                out.append(("b", K(t[1] | t[2] << 7)))
            elif t[0] == "m" and isinstance(t[1], int):
                for k in range(t[1]):
                    for e in t[2]:
                        out += self.expected(e if isinstance(e, list) else [e], ix, K(k))
            else:
                out.append(("m", self.term(t[1]), [x for e in t[2] for x in self.expected(e if isinstance(e, list) else [e], ix, ix)]))
        return out

    def differ(self, st, have, want):
        """None, or where the two part"""
        have = list(have)
        for n, w in enumerate(want):
            if w[0] == "pad":
                while have and (have[0] == ("b", K(0)) or have[0][0] == "m" and have[0][2] == [("b", K(0))]):
                    have.pop(0)
                continue
            if w[0] == "m":
                if have and have[0][0] == "m" and wire.same(st, have[0][1], w[1]):
                    d = self.differ(st, have.pop(0)[2], w[2])
                    if d is not None:
                        return d
                elif not Lin(st).proves_le(w[1], K(0)):
                    return f"item {n} should be {pr(w)}, is {pr(have[0]) if have else 'missing'}"
                continue
            if not have:
                return f"item {n}, {pr(w)}, is missing"
            h = have.pop(0)
            if h[0] != w[0] or h[0] == "t" and (h[1] != w[1] or not self.held(h[2], w[2])) or h[0] == "b" and not self.byte(st, h[1], w[1]):
                return f"item {n} should be {pr(w)}, is {pr(h)}"
        return f"{pr(have[0])} follows the last item" if have else None


NTH = mk("nth")
DOMAIN = {k: v for k, v in ROUND_DOMAIN.items() if k != "SpdmDmtfMeasurementStructure"}


def flat(items, ix=None, to=None):
    out = []
    for t in items:
        if ix is not None:
            t = wire.tsubst(t, ix, to)
        if t[0] == "v" and t[1] in wire.INT:
            w, v = wire.INT[t[1]], t[2]
            if v.op == "agg" and t[1].endswith("u24"):
                v = fld(v, F("0"))
            out += [("b", K(v.a[0] >> 8 * j & 255) if v.op == "k" else v if w == 1 else mk("byte", v, j, w)) for j in range(w)]
        elif t[0] == "v":
            out.append(("t", t[1].split("::")[-1], t[2]))
        elif t[1].op == "k" and t[1].a[0] <= 1024:
            for k in range(t[1].a[0]):
                out += flat(t[3], t[2], K(k))
        else:
            out.append(("m", t[1], flat(t[3], t[2], NTH)))
    return out


def pr(x):
    return f"{x[1]} {show(x[2])[:60]}" if x[0] == "t" else show(x[1])[:80] if x[0] == "b" else f"{show(x[1])[:40]} times {', '.join(pr(y) for y in x[2])}"


@structural("C32")
def c32(prog, cfg):
    enc = {}
    for f in prog.fns.values():
        if wire.kind(f) == "enc" and f.crate == "spdmlib" and not plain_type(prog, wire.ty_of(f)):
            enc.setdefault(wire.ty_of(f), []).append(f)
    recs = []
    for t, es in sorted(enc.items()):
        if t.split("::")[-1] not in LAYOUT:
            continue
        for e in es:
            p = Layout(prog, t, e, None)
            p.pid = "C32"
            try:
                p.go()
            except Limit as x:
                p.ob("analysed", False, e.name, str(x))
            recs += p.recs.values()
    for k, c in sorted(prog.consts.items()):
        n = k.split("::")[-1]
        if n.startswith(("REQ_DMTF_OPAQUE_DATA", "RSP_DMTF_OPAQUE_DATA")) and isinstance(c["v"], dict) and "bytes" in c["v"]:
            why = opaque_list(c["v"]["bytes"], n.endswith("FMT1"), n.startswith("REQ"))
            recs.append(Rec("C32", f"{n}: is general opaque data of DSP0277", why is None, k, why or ""))
    return recs


def opaque_list(b, fmt1, req):
    """None, or why b is not the opaque data a requester (or responder) sends: one DMTF element"""
    head = [1, 0, 0, 0] if fmt1 else [0x46, 0x54, 0x4D, 0x44, 1, 1, 0, 0]
    if b[:len(head)] != head:
        return f"starts with {b[:len(head)]}, not {head}"
    e = b[len(head):]
    if len(b) % 4 or len(e) < 8 or e[:2] != [0, 0] or e[4:6] != [1, 1 if req else 0]:
        return f"the element {e} is no DMTF {'supported version list' if req else 'version selection'} of version 1, padded to 4 bytes"
    n = e[2] | e[3] << 8
    if n + 4 > len(e) or len(e) - n - 4 > 3 or any(e[n + 4:]) or n != (3 + 2 * e[6] if req else 4):
        return f"the element's length {n} is not that of what follows"
    vs = e[7:n + 4] if req else e[6:8]
    return None if all(v == 0 for v in vs[::2]) and all(v in (0x10, 0x11) for v in vs[1::2]) else f"names the versions {vs}"
