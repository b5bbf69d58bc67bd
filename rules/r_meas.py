"""C35: measurements and measurement summary hashes."""
from rulelib import *
from registry import prop, flow, responder, req
from r_resp import Sends
from domain import deepall

N = (F("common"), F("negotiate_info"))
ALL, TOTAL = 255, 0
MOP, SUM = "spdmlib::message::measurement::SpdmMeasurementOperation", "spdmlib::protocol::algo::SpdmMeasurementSummaryHashType"
prop("C35", "At every send of MEASUREMENTS reachable from process_message the record is the device's answer (measurement_collection, which returned Some) for the negotiated version, specification and hash and for exactly the "
     "index the request names (empty for the query of the total number), the number is the device's own total for a query or for all and 0 otherwise; every measurement summary hash sent is the device's, for the negotiated parameters "
     "and the type the request asks for, and is absent only if the request asks for none.  A requester's call that returns Ok hands out the record of the verified response and its number.", quick=("A",),
     expect=[("^MEASUREMENTS: record", 3), ("^MEASUREMENTS: number", 3), ("summary hash", 6), ("^requester: ", 2)])


def collected(t):
    """index asked for, if t is (part of) what the device's measurement callback returned"""
    while t.op == "fld":
        t = t.a[0]
    return t if t.op == "call" and t.a[0].endswith("::measurement_collection") else None


@flow("C35", responder)
class Reported(Sends):
    NAMES = {"SpdmResponseChallengeAuth": "CHALLENGE_AUTH", "SpdmResponseKeyExchangeRsp": "KEY_EXCHANGE_RSP", "SpdmResponsePskExchangeRsp": "PSK_EXCHANGE_RSP"}

    def neg(self, eng, st, name):
        return deepall(eng, st, eng.rd(st, ("D", mk("arg", "self")), N + (F(name),)))

    def asked(self, eng, st, c, names):
        """is each leading argument of the call the negotiated parameter of that name"""
        for a, n in zip(c.a[2], names):
            if deepall(eng, st, a) is not self.neg(eng, st, n):
                return n
        return None

    def of_request(self, st, name):
        """what is known of an enum field of the request: [(term, fact)]"""
        return [(t.a[0], f) for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == F(name) and received(t.a[0])]

    def send(self, eng, call, st, o, w):
        if o.code == "SpdmResponseMeasurements":
            self.measurements(eng, st, o, w)
        elif o.code in self.NAMES:
            self.summary(eng, st, o, w, self.NAMES[o.code])

    def measurements(self, eng, st, o, w):
        rec, num = (deepall(eng, st, o.field(f)) for f in ("measurement_record", "number_of_measurement"))
        slot = deepall(eng, st, o.field("slot_id"))
        self.ob("MEASUREMENTS: slot is that of the request", slot.op == "fld" and slot.a[1] == F("slot_id") and received(slot), w, show(slot)[-200:])
        ops = self.of_request(st, "measurement_operation")
        op = self.vname(MOP, ops[0][1][1]) if len(ops) == 1 and ops[0][1][0] == "=" else None
        self.ob("MEASUREMENTS: the operation asked for decides the record", op is not None, w, f"known of the operation: {[f for _, f in ops]}")
        if op is None:
            return
        what = {"SpdmMeasurementQueryTotalNumber": "query of the total number", "SpdmMeasurementRequestAll": "all", "Unknown": "one index"}.get(op, op)
        done = {id(c) for c in succeeded(st, self.prog, r"::measurement_collection$")}

        def device(v, index):
            c = collected(v)
            if c is None:
                return f"not from the device: {show(v)[:150]}"
            bad = self.asked(eng, st, c, ("spdm_version_sel", "measurement_specification_sel", "measurement_hash_sel"))
            if bad:
                return f"not for the negotiated {bad}"
            if not index(c.a[2][3]):
                return f"index {show(c.a[2][3])[-120:]}"
            return None if id(c) in done else "the device may have had no answer"

        opt = ops[0][0]
        if what == "query of the total number":
            why = None if rec.op == "agg" and all(not collected(x) and not received(x) for x in rec.a[3]) and fld(rec, F("number_of_blocks")) is K(0) else f"the record is not empty: {show(rec)[:150]}"
        elif rec.op == "call" or rec.op == "fld":
            part = rec.op == "fld" and rec.a[1][0] == "f" and rec.a[1][1] != "0"
            why = "only a part of the answer" if part else device(rec, (lambda i: i is K(ALL)) if what == "all" else (lambda i: self.index(i, opt)))
        else:
            why = f"the record is not the device's: {show(rec)[:150]}"
        self.ob(f"MEASUREMENTS: record for {what}", why is None, w, why)
        if what == "one index":
            self.ob(f"MEASUREMENTS: number for {what}", num is K(0), w, show(num)[:150])
        else:
            why = device(num, lambda i: i is K(TOTAL)) if num.op == "fld" and num.a[1] == F("number_of_blocks") else f"not a number of blocks: {show(num)[:150]}"
            self.ob(f"MEASUREMENTS: number for {what}", why is None, w, why)

    def index(self, i, op):
        while i.op in ("trunc", "cast", "zext"):
            i = i.a[0]
        x = i
        while x.op == "fld" and x is not op:
            x = x.a[0]
        return x is op and i is not op

    def summary(self, eng, st, o, w, n):
        v = deepall(eng, st, o.field("measurement_summary_hash"))
        kinds = self.of_request(st, "measurement_summary_hash_type")
        want = [self.vdisc(SUM, "SpdmMeasurementSummaryHashType" + x) for x in ("Tcb", "All")]
        if v.op == "agg" and fld(v, F("data_size")) is K(0):
            none = any(f[0] == "=" and f[1] not in want or f[0] == "!" and all(x in f[1] for x in want) for _, f in kinds)
            self.ob(f"{n}: no summary hash only if none is asked for", none, w, f"known of the kind asked for: {[f for _, f in kinds]}")
            return
        c = v
        while c.op == "fld":
            c = c.a[0]
        if c.op != "call" or not c.a[0].endswith("::generate_measurement_summary_hash") or v is not fld(fld(c, ("v", 1)), ("f", "0")) and not (v.op == "fld" and v.a[1] == ("f", "0")):
            self.ob(f"{n}: summary hash is the device's", False, w, show(v)[:200])
            return
        ok = id(c) in {id(x) for x in succeeded(st, self.prog, r"::generate_measurement_summary_hash$")}
        self.ob(f"{n}: summary hash is the device's", ok, w, "the device may have had no answer")
        bad = self.asked(eng, st, c, ("spdm_version_sel", "base_hash_sel", "measurement_specification_sel", "measurement_hash_sel"))
        self.ob(f"{n}: summary hash for the negotiated parameters", bad is None, w, f"not for the negotiated {bad}")
        k = c.a[2][4]
        self.ob(f"{n}: summary hash of the kind asked for", k.op == "fld" and k.a[1] == F("measurement_summary_hash_type") and received(k), w, show(k)[-200:])


@flow("C35", req("send_receive_spdm_measurement"))
class Handed(Rule):
    def finish(self, run):
        eng = run.eng
        names = dict(zip(run.fn.names[1:], run.args))
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            rec, num = (deepall(eng, st, eng.content(st, names[n])) for n in ("spdm_measurement_record_structure", "out_total_number"))
            op = st.val(discr(names["measurement_operation"]))
            query = op == self.vdisc(MOP, "SpdmMeasurementQueryTotalNumber")
            src = rec
            if rec.op == "agg" and rec.a[3] and rec.a[3][0].op == "fld":
                src = rec.a[3][0].a[0]
                src = src if all(x.op == "fld" and x.a[0] is src and field_index(rec.a[0], x.a[1][1]) == i for i, x in enumerate(rec.a[3])) else rec
            ok = src.op == "fld" and src.a[1] == F("measurement_record") and received(src) and bool(of_message(src))
            self.ob("requester: the record handed out is the one received", ok, self.job.name, show(rec)[-200:])
            body = of_message(src)
            want = None if not ok else fld(body, F("number_of_measurement")) if query else fld(src, F("number_of_blocks"))
            kind = "total for a query" if query else "blocks otherwise"
            self.ob(f"requester: the number handed out is that of the same response: {kind}", num is want, self.job.name, show(num)[-200:])


def of_message(rec):
    """the MEASUREMENTS body the record is part of"""
    b = rec.a[0] if rec.op == "fld" else None
    c = b
    while c is not None and c.op == "fld":
        c = c.a[0]
    return b if c is not None and c.op == "call" and c.a[0].endswith("spdm_read") and "SpdmMeasurementsResponsePayload" in c.a[0] else None
