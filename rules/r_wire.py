"""C31: the numbers on the wire and the sizes of the algorithms are those of the SPDM, MCTP and PCI-DOE specifications."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
import raw
from bits import bits
from interp import State

REQS = dict(GetDigests=0x81, GetCertificate=0x82, Challenge=0x83, GetVersion=0x84, GetMeasurements=0xE0, GetCapabilities=0xE1, NegotiateAlgorithms=0xE3, KeyExchange=0xE4,
            Finish=0xE5, PskExchange=0xE6, PskFinish=0xE7, Heartbeat=0xE8, KeyUpdate=0xE9, GetEncapsulatedRequest=0xEA, DeliverEncapsulatedResponse=0xEB, EndSession=0xEC,
            VendorDefinedRequest=0xFE, ResponseIfReady=0xFF)
RSPS = dict(Digests=0x01, Certificate=0x02, ChallengeAuth=0x03, Version=0x04, Measurements=0x60, Capabilities=0x61, Algorithms=0x63, KeyExchangeRsp=0x64, FinishRsp=0x65,
            PskExchangeRsp=0x66, PskFinishRsp=0x67, HeartbeatAck=0x68, KeyUpdateAck=0x69, EncapsulatedRequest=0x6A, EncapsulatedResponseAck=0x6B, EndSessionAck=0x6C,
            VendorDefinedResponse=0x7E, Error=0x7F)
# enumeration -> (width in bits, {name: code})
ENUMS = {
    "SpdmRequestResponseCode": (8, {**{"SpdmRequest" + k: v for k, v in REQS.items() if not k.startswith(("VendorDef", "ResponseIf"))}, **{"SpdmResponse" + k: v for k, v in RSPS.items()},
                                    "SpdmRequestVendorDefinedRequest": 0xFE, "SpdmRequestResponseIfReady": 0xFF}),
    "SpdmVersion": (8, dict(SpdmVersion10=0x10, SpdmVersion11=0x11, SpdmVersion12=0x12)),
    "SpdmErrorCode": (8, {"SpdmError" + k: v for k, v in dict(
        InvalidRequest=1, Busy=3, UnexpectedRequest=4, Unspecified=5, DecryptError=6, UnsupportedRequest=7, RequestInFlight=8, InvalidResponseCode=9, SessionLimitExceeded=0xA,
        SessionRequired=0xB, ResetRequired=0xC, ResponseTooLarge=0xD, RequestTooLarge=0xE, LargeResponse=0xF, MessageLost=0x10, VersionMismatch=0x41, ResponseNotReady=0x42,
        RequestResynch=0x43, VendorDefined=0xFF).items()}),
    "SpdmKeyUpdateOperation": (8, dict(SpdmUpdateSingleKey=1, SpdmUpdateAllKeys=2, SpdmVerifyNewKey=3)),
    "SpdmMeasurementOperation": (8, dict(SpdmMeasurementQueryTotalNumber=0, SpdmMeasurementRequestAll=0xFF)),
    "SpdmMeasurementSummaryHashType": (8, dict(SpdmMeasurementSummaryHashTypeNone=0, SpdmMeasurementSummaryHashTypeTcb=1, SpdmMeasurementSummaryHashTypeAll=0xFF)),
    "SpdmAlgType": (8, dict(SpdmAlgTypeDHE=2, SpdmAlgTypeAEAD=3, SpdmAlgTypeReqAsym=4, SpdmAlgTypeKeySchedule=5)),
    "SpdmDmtfMeasurementType": (8, {"SpdmDmtfMeasurement" + k: i for i, k in enumerate(["Rom", "Firmware", "HardwareConfig", "FirmwareConfig", "Manifest", "StructuredRepresentationMode",
                                                                                        "MutableFirmwareVersionNumber", "MutableFirmwareSecurityVersionNumber"])}),
    "SpdmDmtfMeasurementRepresentation": (8, dict(SpdmDmtfMeasurementDigest=0, SpdmDmtfMeasurementRawBit=0x80)),
    "SpdmEncapsulatedResponseAckPayloadType": (8, dict(Absent=0, Present=1, ReqSlotNumber=2)),
    "RegistryOrStandardsBodyID": (16, {k: i for i, k in enumerate(["DMTF", "TCG", "USB", "PCISIG", "IANA", "HDBASET", "MIPI", "CXL", "JEDEC"])}),
    "MctpMessageType": (8, {"MctpMessageType" + k: v for k, v in dict(MctpControl=0, Pldm=1, Ncsi=2, Ethernet=3, Nvme=4, Spdm=5, SecuredMctp=6, VendorDefinedPci=0x7E, VendorDefinedIana=0x7F).items()}),
    "PciDoeVendorId": (16, dict(PciDoeVendorIdPciSig=1)),
    "PciDoeDataObjectType": (8, dict(PciDoeDataObjectTypeDoeDiscovery=0, PciDoeDataObjectTypeSpdm=1, PciDoeDataObjectTypeSecuredSpdm=2)),
}
ASYM = dict(TPM_ALG_RSASSA_2048=0, TPM_ALG_RSAPSS_2048=1, TPM_ALG_RSASSA_3072=2, TPM_ALG_RSAPSS_3072=3, TPM_ALG_ECDSA_ECC_NIST_P256=4, TPM_ALG_RSASSA_4096=5, TPM_ALG_RSAPSS_4096=6,
            TPM_ALG_ECDSA_ECC_NIST_P384=7)
BOTH = dict(CERT_CAP=1, CHAL_CAP=2, ENCRYPT_CAP=6, MAC_CAP=7, MUT_AUTH_CAP=8, KEY_EX_CAP=9, ENCAP_CAP=12, HBEAT_CAP=13, KEY_UPD_CAP=14, HANDSHAKE_IN_THE_CLEAR_CAP=15, PUB_KEY_ID_CAP=16,
            CHUNK_CAP=17)
# set of flags -> (width in bits, {name: bit}); no width: not a wire type of its own
FLAGS = {
    "SpdmMeasurementSpecification": (8, dict(DMTF=0)),
    "SpdmMeasurementHashAlgo": (32, dict(RAW_BIT_STREAM=0, TPM_ALG_SHA_256=1, TPM_ALG_SHA_384=2, TPM_ALG_SHA_512=3, TPM_ALG_SHA3_256=4, TPM_ALG_SHA3_384=5, TPM_ALG_SHA3_512=6, TPM_ALG_SM3=7)),
    "SpdmBaseAsymAlgo": (32, ASYM),
    "SpdmBaseHashAlgo": (32, dict(TPM_ALG_SHA_256=0, TPM_ALG_SHA_384=1, TPM_ALG_SHA_512=2)),
    "SpdmDheAlgo": (16, dict(SECP_256_R1=3, SECP_384_R1=4)),
    "SpdmAeadAlgo": (16, dict(AES_128_GCM=0, AES_256_GCM=1, CHACHA20_POLY1305=2)),
    "SpdmReqAsymAlgo": (16, ASYM),
    "SpdmKeyScheduleAlgo": (16, dict(SPDM_KEY_SCHEDULE=0)),
    "SpdmRequestCapabilityFlags": (32, dict(BOTH, PSK_CAP=10, PSK_RSVD=11)),
    "SpdmResponseCapabilityFlags": (32, dict(BOTH, CACHE_CAP=0, MEAS_CAP_NO_SIG=3, MEAS_CAP_SIG=4, MEAS_FRESH_CAP=5, PSK_CAP_WITHOUT_CONTEXT=10, PSK_CAP_WITH_CONTEXT=11, ALIAS_CERT_CAP=18,
                                             SET_CERT_CAP=19, CSR_CAP=20, CERT_INSTALL_RESET_CAP=21)),
    "SpdmOpaqueSupport": (8, dict(OPAQUE_DATA_FMT1=1)),
    "SpdmMeasurementAttributes": (8, dict(SIGNATURE_REQUESTED=0, RAW_BIT_STREAM_REQUESTED=1)),
    "SpdmEndSessionRequestAttributes": (8, dict(PRESERVE_NEGOTIATED_STATE=0)),
    "SpdmFinishRequestAttributes": (8, dict(SIGNATURE_INCLUDED=0)),
    "SpdmKeyExchangeMutAuthAttributes": (8, dict(MUT_AUTH_REQ=0, MUT_AUTH_REQ_WITH_ENCAP_REQUEST=1, MUT_AUTH_REQ_WITH_GET_DIGESTS=2)),
    "SpdmMeasurementContentChanged": (None, dict(DETECTED_CHANGE=4, NO_CHANGE=5)),
    "SpdmChallengeAuthAttribute": (None, dict(BASIC_MUT_AUTH_REQ=7)),
}
HASH = dict(TPM_ALG_SHA_256=32, TPM_ALG_SHA_384=48, TPM_ALG_SHA_512=64)
SIG = dict(TPM_ALG_RSASSA_2048=256, TPM_ALG_RSAPSS_2048=256, TPM_ALG_RSASSA_3072=384, TPM_ALG_RSAPSS_3072=384, TPM_ALG_RSASSA_4096=512, TPM_ALG_RSAPSS_4096=512,
           TPM_ALG_ECDSA_ECC_NIST_P256=64, TPM_ALG_ECDSA_ECC_NIST_P384=96)
# (type, function) -> {name: size in bytes}
SIZES = {
    ("SpdmBaseHashAlgo", "get_size"): HASH, ("SpdmBaseAsymAlgo", "get_size"): SIG, ("SpdmReqAsymAlgo", "get_size"): SIG,
    ("SpdmMeasurementHashAlgo", "get_size"): dict(HASH, RAW_BIT_STREAM=0, TPM_ALG_SHA3_256=32, TPM_ALG_SHA3_384=48, TPM_ALG_SHA3_512=64, TPM_ALG_SM3=32),
    ("SpdmDheAlgo", "get_size"): dict(SECP_256_R1=64, SECP_384_R1=96),
    ("SpdmAeadAlgo", "get_key_size"): dict(AES_128_GCM=16, AES_256_GCM=32, CHACHA20_POLY1305=32),
    ("SpdmAeadAlgo", "get_iv_size"): dict(AES_128_GCM=12, AES_256_GCM=12, CHACHA20_POLY1305=12),
    ("SpdmAeadAlgo", "get_tag_size"): dict(AES_128_GCM=16, AES_256_GCM=16, CHACHA20_POLY1305=16),
    ("RegistryOrStandardsBodyID", "get_default_vendor_id_len"): dict(DMTF=0, TCG=2, USB=2, PCISIG=2, IANA=4, HDBASET=4, MIPI=2, CXL=2, JEDEC=2),
}
# the message a code announces
MESSAGE = {**{k: ("Spdm" + k + "Request", "Spdm" + k + "RequestPayload") for k in REQS if k not in ("ResponseIfReady", "VendorDefinedRequest", "GetEncapsulatedRequest", "DeliverEncapsulatedResponse")},
           **{k: ("Spdm" + k + "Response",) for k in RSPS}}
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}
prop("C31", "For each enumeration and each set of flags that travels on the wire: the numbers of its names, and what read and encode make of every value (an enumeration: each known code "
     "becomes its name and back, every other value is kept; flags: each declared bit comes from and goes to its place, no other bit appears), at the width the specification gives; the "
     "sizes returned for each algorithm; the payload kind read for each message code. Compared with tables written from DSP0274, DSP0236/0275 and the PCI-DOE specification.", level="proof",
     expect=[(t + ": each code", 1) for t in ENUMS if t not in ("SpdmDmtfMeasurementType", "SpdmDmtfMeasurementRepresentation", "SpdmEncapsulatedResponseAckPayloadType")] + [(t + ": encoded", 1) for t, x in FLAGS.items() if x[0]]
     + [(t + ": number", 1) for t in FLAGS] + [(f"{t}::{f}: ", 1) for t, f in SIZES])


class Wire:
    def __init__(self, prog):
        self.prog, self.recs = prog, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec("C31", key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def run(self, fn, setup=None):
        """the integers read and written are single values of their width"""
        W = mk("arg", "wire")

        rd = {f"<{t} as codec::codec::Codec>::read": t for t in WIDTH}
        wr = {f"<{t} as codec::codec::Codec>::encode": t for t in WIDTH}

        def pol(f):
            if f.name in rd:
                t = rd[f.name]
                return lambda e, c, a, s: rmodel(t, e, c, a, s)
            if f.name in wr:
                t = wr[f.name]
                return lambda e, c, a, s: wmodel(t, e, c, a, s)
            return raw.policy(f)

        def rmodel(t, eng, call, args, st):
            s = st.copy()
            st.ev["wire"] = st.ev.get("wire", ()) + (("r", WIDTH[t]),)
            return [(s, NONE), (st, SOME(W))]

        def wmodel(t, eng, call, args, st):
            s = st.copy()
            st.ev["wire"] = st.ev.get("wire", ()) + (("w", WIDTH[t], eng.content(st, args[0])),)
            return [(s, ERR(mk("arg", "full"))), (st, OK(K(WIDTH[t] // 8)))]
        r = raw.run(self.prog, fn, setup=setup, pol=pol)
        covered("C31", fn.name, r.eng)
        return W, r

    def method(self, t, name, trait=None):
        for f in self.prog.fns.values():
            if "closure" not in f.name and f.name.endswith(f"::{t} as codec::codec::Codec>::{name}" if trait else f"::{t}::{name}"):
                return f
        return None


def holds(st, t, c):
    """a copy of the state in which t == c; None if it cannot be"""
    s = st.copy()
    return s if s.assume_eq(t, c) else None


def variant(v):
    return v.a[2] if v.op == "agg" else None


def enums(w):
    for t, (width, codes) in ENUMS.items():
        rd = w.method(t, "read", True)
        if rd is not None:
            W, r = w.run(rd)
            n = 0
            for st, v in r.outs:
                if variant(v) != "Some":
                    continue
                x = v.a[3][0]
                w.ob(f"{t}: read at its width", st.ev.get("wire") == (("r", width),), rd.name, str(st.ev.get("wire")))
                hit = [k for k, c in codes.items() if holds(st, W, c) is not None]
                for k in hit:
                    n += 1
                    w.ob(f"{t}: each code is read as its name", variant(x) == k, rd.name, f"{codes[k]:#x} is read as {show(x)[:100]}, not {k}")
                s = st.copy()
                if all(s.assume(eq(W, K(c)), False) for c in codes.values()):
                    w.ob(f"{t}: other values are kept", variant(x) == "Unknown" and x.a[3][0] is W, rd.name, f"an unknown code is read as {show(x)[:100]}")
            w.ob(f"{t}: each code can be read", n >= len(codes), rd.name, f"{n} of {len(codes)} codes")
        for fn in [w.method(t, "encode", True)] + [w.method(t, f"get_u{b}") for b in (8, 16, 32)]:
            if fn is None:
                continue
            S = None
            seen = set()

            def su(eng, st, a):
                nonlocal S
                S = eng.content(st, a[0])
            W, r = w.run(fn, su)
            for st, v in r.outs:
                if fn.trait:
                    if variant(v) != "Ok":
                        continue
                    wr = st.ev.get("wire", ())
                    w.ob(f"{t}: written at its width", len(wr) == 1 and wr[0][:2] == ("w", width), fn.name, str(wr)[:200])
                    x = wr[-1][2] if wr else v
                else:
                    x = v
                adt = next(a for p, a in w.prog.adts.items() if p.endswith("::" + t))
                for i, vv in enumerate(adt["v"]):
                    if holds(st, discr(S), vv.get("d", i) if isinstance(vv.get("d", i), int) else i) is None:
                        continue
                    seen.add(vv["n"])
                    if vv["n"] in codes:
                        w.ob(f"{t}: each name is written as its code", x.op == "k" and x.a[0] == codes[vv["n"]], fn.name, f"{vv['n']} is written as {show(x)[:60]}, not {codes[vv['n']]:#x}")
                    elif vv["n"] == "Unknown":
                        w.ob(f"{t}: other values are written back", x is fldp(S, (V("Unknown"), F(0))), fn.name, f"an unknown code is written as {show(x)[:100]}")
            w.ob(f"{t}: each name has a code", set(codes) <= seen, fn.name, f"missing: {sorted(set(codes) - seen)[:4]}")


def flags(w):
    vals = {}
    for k, c in w.prog.consts.items():
        v = c["v"]
        if "{impl" in k and "::all::" not in k and isinstance(v, dict) and "adt" in v and len(v.get("f", ())) == 1 and isinstance(v["f"][0], int):
            vals.setdefault(v["adt"].split("::")[-1], {})[k.split("::")[-1]] = v["f"][0]
    for t, (width, names) in FLAGS.items():
        d = vals.get(t, {})
        for n, b in names.items():
            w.ob(f"{t}: number of each flag", d.get(n) == 1 << b, t, f"{n} is {d.get(n)}, not {1 << b}")
        if width is None:
            continue
        rd, en = w.method(t, "read", True), w.method(t, "encode", True)
        if rd is not None:
            W, r = w.run(rd)
            n = 0
            for st, v in r.outs:
                if variant(v) != "Some":
                    continue
                n += 1
                w.ob(f"{t}: read at its width", st.ev.get("wire") == (("r", width),), rd.name, str(st.ev.get("wire")))
                x = fld(v.a[3][0], F("bits")) if v.a[3][0].op != "agg" else v.a[3][0].a[3][0]
                bs = bits(x, width, lambda y: ("w", 0, width) if y is W else None)
                for j in range(width):
                    ok = bs is not None and (bs[j] == ("w", j) or bs[j] == 0 and j not in names.values())
                    w.ob(f"{t}: each flag is read from its bit", ok, rd.name, f"bit {j} of the value read is {bs and bs[j]}" + (f" ({[k for k, b in names.items() if b == j]})"))
            w.ob(f"{t}: can be read", n > 0, rd.name)
        if en is not None:
            S = None

            def su(eng, st, a):
                nonlocal S
                S = fld(eng.content(st, a[0]), F("bits"))
            W, r = w.run(en, su)
            for st, v in r.outs:
                if variant(v) != "Ok":
                    continue
                wr = st.ev.get("wire", ())
                ok = len(wr) == 1 and wr[0][:2] == ("w", width)
                w.ob(f"{t}: written at its width", ok, en.name, str(wr)[:200])
                bs = bits(wr[0][2], width, lambda y: ("s", 0, width) if y is S else None) if ok else None
                w.ob(f"{t}: encoded as it is", bs is not None and all(bs[j] == ("s", j) or bs[j] == 0 and j not in names.values() for j in range(width)), en.name, str(wr)[:200])


def sizes(w):
    for (t, f), want in SIZES.items():
        fn = w.method(t, f)
        if fn is None:
            continue
        S = None

        def su(eng, st, a):
            nonlocal S
            S = eng.content(st, a[0])
        _, r = w.run(fn, su)
        codes = {n: 1 << FLAGS[t][1][n] for n in want} if t in FLAGS else None
        for n, size in want.items():
            hit = 0
            for st, v in r.outs:
                if codes is not None:
                    s = holds(st, fld(S, F("bits")), codes[n])
                else:
                    adt = next(a for p, a in w.prog.adts.items() if p.endswith("::" + t))
                    s = holds(st, discr(S), next((i for i, x in enumerate(adt["v"]) if x["n"] == n), -1))
                if s is None:
                    continue
                hit += 1
                w.ob(f"{t}::{f}: size of each algorithm", v is K(size), fn.name, f"{n}: {show(v)[:60]}, not {size}")
            w.ob(f"{t}::{f}: knows each algorithm", hit > 0, fn.name, f"{n}: no result")


@structural("C31")
def c31(prog, cfg):
    w = Wire(prog)
    enums(w)
    flags(w)
    sizes(w)
    return list(w.recs.values())
