"""Registry of properties: which rules decide each, over which entries and configurations."""
from jobs import Job

REG = {}


class Spec:
    def __init__(self, pid, rule, quick=("A",), thorough=("A", "B", "C", "D"), level="other", expect=()):
        self.pid, self.rule, self.quick, self.thorough, self.level = pid, rule, quick, thorough, level
        self.flow, self.structural, self.expect = [], [], list(expect)

    def cfgs(self, tier):
        return list(self.quick if tier == "quick" else self.thorough)


def prop(pid, rule, **kw):
    s = REG[pid] = Spec(pid, rule, **kw)
    return s


def flow(pid, jobs):
    """class decorator: run this dataflow rule over jobs(cfg)"""
    def d(cls):
        cls.prop = pid
        REG[pid].flow.append((cls, jobs))
        return cls
    return d


def structural(pid):
    def d(f):
        REG[pid].structural.append(f)
        return f
    return d


COVER = {}


def covered(pid, entry, eng):
    """what a structural rule analysed (for the evidence)"""
    c = COVER.setdefault(pid, dict(jobs=set(), fns=set(), steps=0, calls=0, blocks=0, runs=0))
    c["jobs"].add(entry)
    c["fns"] |= set(eng.fn_visited)
    c["steps"] += eng.steps
    c["calls"] += eng.callsites
    c["blocks"] += len(eng.visited)
    c["runs"] += 1


RESP = "spdmlib::responder::context::ResponderContext::process_message"


def responder(c):
    return [Job(c, RESP, split=8)]


REQ_NAMES = ["send_receive_spdm_version", "send_receive_spdm_capability", "send_receive_spdm_algorithm", "send_receive_spdm_digest",
             "send_receive_spdm_certificate", "send_receive_spdm_challenge", "send_receive_spdm_measurement", "send_receive_spdm_key_exchange",
             "send_receive_spdm_psk_exchange", "send_receive_spdm_finish", "send_receive_spdm_psk_finish", "send_receive_spdm_heartbeat",
             "send_receive_spdm_key_update", "send_receive_spdm_end_session", "send_spdm_vendor_defined_request"]


def req(*names):
    def f(c):
        out = []
        for n in names:
            out.append(Job(c, "RequesterContext::" + n))
        return out
    return f


def requester(c):
    l = list(REQ_NAMES)
    if c in ("A", "C"):
        l.append("session_based_mutual_authenticate")
    return req(*l)(c)


def both(c):
    return responder(c) + requester(c)
