"""C09 C10: signatures, MACs and random values in outgoing messages."""
from rulelib import *
from registry import prop, flow, responder, req
from r_resp import Sends
from r_auth import key_of, field_names_deep
from transcript import Cls
from domain import deepall

prop("C09", "At every send of CHALLENGE_AUTH, MEASUREMENTS, KEY_EXCHANGE_RSP, PSK_EXCHANGE_RSP or FINISH_RSP reachable from process_message, the last bytes of the encoded message are, "
     "exactly at the place the message layout gives them, the result of a sign call that returned Some (signature) and of an hmac call that returned Some with the session's "
     "response_finished_key (HMAC); the signature of MEASUREMENTS may be missing only if SIGNATURE_REQUESTED is known to be clear, the HMAC only where the handshake is (not) in the clear.",
     quick=("A",), expect=[("^CHALLENGE_AUTH: signature", 1), ("^KEY_EXCHANGE_RSP: signature", 1), ("^KEY_EXCHANGE_RSP: HMAC", 1), ("^PSK_EXCHANGE_RSP: HMAC", 1), ("^FINISH_RSP: HMAC", 1),
                           ("^MEASUREMENTS: signature", 1), ("^MEASUREMENTS: no signature", 1), ("^KEY_EXCHANGE_RSP: no HMAC", 1)])

SIGN = r"crypto::asym_sign::sign$|secret_callback::.*sign|asym_sign::.*sign$"
HMAC = r"crypto::hmac::hmac$"


def tops(v, n=0):
    """calls whose result the value v is (projected / sliced)"""
    while v.op in ("fld", "deref", "ref", "mem") and n < 30:
        n += 1
        if v.op in ("ref", "mem"):
            if v.a[0][0] != "D":
                return None
            v = v.a[0][1]
        else:
            v = v.a[0]
    return v if v.op == "call" else None


def signed_request(st):
    """did the request ask for a signature? True/False/None"""
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "and" and any(x.op == "k" and x.a[0] == 1 for x in t.a):
            x = t.a[0] if t.a[1].op == "k" else t.a[1]
            if received(x) and "measurement_attributes" in field_names(x):
                if f[0] == "=":
                    return f[1] == 1
                if 1 in f[1]:
                    return False
                if 0 in f[1]:
                    return True
    return None


@flow("C09", responder)
class Genuine(Sends):
    NAMES = {"SpdmResponseChallengeAuth": "CHALLENGE_AUTH", "SpdmResponseMeasurements": "MEASUREMENTS", "SpdmResponseKeyExchangeRsp": "KEY_EXCHANGE_RSP",
             "SpdmResponsePskExchangeRsp": "PSK_EXCHANGE_RSP", "SpdmResponseFinishRsp": "FINISH_RSP"}

    def send(self, eng, call, st, o, w):
        n = self.NAMES.get(o.code)
        if n is None:
            return
        c = Cls()
        A, H = "-size(base_asym_sel)", "-size(base_hash_sel)"
        norm_ = lambda t: "+".join(sorted(re.sub(r"size\([^()]*(base_asym|base_hash)_(sel|algo)\)", r"size(\1_sel)", c.bound(t)).split("+")))
        fields = {}
        for lo, hi, v, nencs in o.patches:
            call_ = tops(v)
            kind = None
            if call_ is not None and re.search(SIGN, call_.a[0]):
                kind = "sign"
            elif call_ is not None and re.search(HMAC, call_.a[0]):
                kind = "hmac"
            if kind is None or kind in fields:
                self.ob(f"{n}: every patched field is a signature or an HMAC", False, w, f"bytes [{c.bound(lo)}..{c.bound(hi)}] are overwritten with {show(v)[:200]}")
                return
            fields[kind] = (norm_(lo), norm_(hi), call_)
        good = {id(x) for x in succeeded(st, self.prog, SIGN + "|" + HMAC)}
        for k, (lo, hi, call_) in fields.items():
            self.ob(f"{n}: {'signature' if k == 'sign' else 'HMAC'} computed successfully", id(call_) in good, w, f"{show(call_)[:120]} is not known to have returned a value on this path")
        self.ob(f"{n}: the message is not changed after it was authenticated", all(x[3] == 0 for x in o.patches), w, "bytes are appended after the signature or HMAC was written")
        clear = in_clear(st)

        def at(k, lo, hi):
            return k in fields and fields[k][:2] == (lo, hi)

        def srt(*p):
            return "+".join(sorted(p))
        if n in ("CHALLENGE_AUTH", "MEASUREMENTS"):
            want = True if n == "CHALLENGE_AUTH" else signed_request(st)
            if want is False:
                self.ob(f"{n}: no signature asked for", not fields, w, "an unsolicited signature")
            else:
                self.ob(f"{n}: signature at the end of the message", at("sign", srt(A, "end"), "end") and "hmac" not in fields, w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
        elif n == "KEY_EXCHANGE_RSP":
            if "hmac" in fields:
                self.ob(f"{n}: HMAC unless in the clear", clear is not True, w, "")
                self.ob(f"{n}: signature before the HMAC", at("sign", srt(A, H, "end"), srt(H, "end")), w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
                self.ob(f"{n}: HMAC at the end of the message", at("hmac", srt(H, "end"), "end"), w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
            else:
                self.ob(f"{n}: no HMAC only when the handshake is in the clear", clear is True, w, "no HMAC, and HANDSHAKE_IN_THE_CLEAR is not known to be negotiated")
                self.ob(f"{n}: signature at the end of the message", at("sign", srt(A, "end"), "end"), w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
        elif n == "PSK_EXCHANGE_RSP":
            self.ob(f"{n}: HMAC at the end of the message", at("hmac", srt(H, "end"), "end") and "sign" not in fields, w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
        elif o.secured:
            self.ob(f"{n}: no HMAC in a session unless the handshake is in the clear", not fields and clear is not True, w, f"authenticated fields {list(fields)}")
        else:
            self.ob(f"{n}: HMAC at the end of the message", at("hmac", srt(H, "end"), "end") and "sign" not in fields, w, f"authenticated fields: {({k: v[:2] for k, v in fields.items()})}")
        if "hmac" in fields:
            key = fields["hmac"][2].a[2][1]
            ok = "response_finished_key" in field_names_deep(key) or any("response_finished" in x.a[0] for x in subterms(key) if x.op in ("pure", "call")) or "rsp_finished" in show(key)
            self.ob(f"{n}: HMAC keyed with the session's responder finished key", ok, w, "key: " + show(key)[:300])
        if "sign" in fields:
            a = fields["sign"][2].a[2]
            self.ob(f"{n}: signed with the negotiated hash and signature algorithm", "base_hash_sel" in field_names(a[0]) and "base_asym_sel" in field_names(a[1]), w, show(a[0])[:80] + show(a[1])[:80])

prop("C10", "At every send of CHALLENGE, GET_MEASUREMENTS (with signature), KEY_EXCHANGE, PSK_EXCHANGE and of their responses, the whole nonce / random / PSK context buffer in the message is the "
     "output of a get_random call made while processing this message and known to have returned Ok, and the key exchange data is the public half of a key pair generated while processing it "
     "(generate_key_pair returned Some).  The PSK context of a response may be empty only if PSK_CAP_WITHOUT_CONTEXT is known to be selected.",
     quick=("A",), expect=[("^SpdmRe(quest|sponse)\\w*: (nonce|random|psk_context) is fresh", 8), ("exchange data is fresh", 2)])

FRESH = {"SpdmRequestChallenge": ["nonce"], "SpdmRequestGetMeasurements": ["nonce"], "SpdmRequestKeyExchange": ["random", "exchange"], "SpdmRequestPskExchange": ["psk_context"],
         "SpdmResponseChallengeAuth": ["nonce"], "SpdmResponseMeasurements": ["nonce"], "SpdmResponseKeyExchangeRsp": ["random", "exchange"], "SpdmResponsePskExchangeRsp": ["psk_context"]}


class Fresh(Sends):
    def send(self, eng, call, st, o, w):
        for f in FRESH.get(o.code, ()):
            v = o.field(f)
            if f == "exchange":
                c = tops(v) if v is not None else None
                ok = c is not None and c.a[0].endswith("dhe::generate_key_pair") and bool([x for x in succeeded(st, self.prog, r"dhe::generate_key_pair$") if x is c])
                self.ob(f"{o.code}: exchange data is freshly generated", ok, w, "exchange data: " + show(v)[:200] if v is not None else "message not understood")
                ok = c is not None and "dhe_sel" in field_names(c.a[2][0])
                self.ob(f"{o.code}: exchange data is of the negotiated group", ok, w, "")
                continue
            if o.code == "SpdmRequestGetMeasurements" and v is not None:
                at = o.field("measurement_attributes")
                bits_ = fldp(at, (F("bits"),)) if at is not None else None
                if bits_ is not None and bits_.op == "fld" and bits_.a[0].op == "agg":
                    bits_ = bits_.a[0].a[3][0]
                known = bit(st, "measurement_attributes", 1)
                if known is False:
                    continue
            if v is None:
                self.ob(f"{o.code}: {f} is fresh", False, w, "message not understood")
                continue
            data, size = v, None
            if v.op == "agg":
                i = field_index(v.a[0], "data")
                data = v.a[3][i] if i is not None else v
                j = field_index(v.a[0], "data_size")
                size = v.a[3][j] if j is not None else None
            for d in alts(data):
                if size is not None and size is K(0) and f == "psk_context":
                    self.ob(f"{o.code}: empty {f}", bit(st, "rsp_capabilities_sel", 0x400) is True and o.code == "SpdmResponsePskExchangeRsp", w, "an empty PSK context although PSK_CAP_WITHOUT_CONTEXT is not known to be selected")
                    continue
                ok = d.op == "call" and d.a[0].endswith("rand::get_random!out0") and any(x.a[1] == d.a[1] for x in succeeded(st, self.prog, r"rand::get_random$"))
                self.ob(f"{o.code}: {f} is fresh random data", ok, w, "not the (whole) output of a successful random generator call on this path: " + show(d)[:200])


flow("C10", responder)(Fresh)
flow("C10", req("send_receive_spdm_challenge", "send_receive_spdm_measurement", "send_receive_spdm_key_exchange", "send_receive_spdm_psk_exchange"))(Fresh)
