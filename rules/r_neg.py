"""C11: what version, capabilities and algorithms a connection ends up with."""
from rulelib import *
from registry import prop, flow, responder, req, RESP
from jobs import Job, PROGS
from domain import deepall, ghost, ghosts
from interp import State
from r_resp import Sends
from transcript import path_tail

# negotiated value -> configuration value it must respect
ALGS = {"measurement_specification_sel": "measurement_specification", "base_hash_sel": "base_hash_algo", "base_asym_sel": "base_asym_algo",
        "dhe_sel": "dhe_algo", "aead_sel": "aead_algo", "req_asym_sel": "req_asym_algo", "key_schedule_sel": "key_schedule_algo",
        "opaque_data_support": "opaque_support"}
MUST = ("base_hash_sel",)
STRUCT = {"SpdmAlgoDhe": "dhe_sel", "SpdmAlgoAead": "aead_sel", "SpdmAlgoReqAsym": "req_asym_sel", "SpdmAlgoKeySchedule": "key_schedule_sel"}
STRUCTTYPE = {"SpdmAlgTypeDHE": "SpdmAlgoDhe", "SpdmAlgTypeAEAD": "SpdmAlgoAead", "SpdmAlgTypeReqAsym": "SpdmAlgoReqAsym", "SpdmAlgTypeKeySchedule": "SpdmAlgoKeySchedule"}


def bits(t):
    """the raw word of a bitflags value"""
    if t.op == "agg" and len(t.a[3]) == 1:
        return t.a[3][0]
    if t.op in ("k", "and", "or"):
        return t
    if t.op == "fld" and t.a[1] == F("bits"):
        return t
    if t.op == "mem" and t.a[1] and t.a[1][-1] == F("bits"):
        return t
    return fld(t, F("bits"))


def leaves(t):
    return leaves(t.a[0]) + leaves(t.a[1]) if t.op == "and" else [t]


def is_cfg(t, name):
    n = [x for x in field_names(t) if x != "bits"]
    return n[:2] == [name, "config_info"]


def is_neg(t, name):
    n = [x for x in field_names(t) if x != "bits"]
    return n[:2] == [name, "negotiate_info"]


def contained(st, cfg, v):
    """do the path facts say that v is a subset of config_info.<cfg>?"""
    b = bits(v)
    if b.op == "k" and b.a[0] == 0:
        return True
    l = leaves(b)
    if any(is_cfg(x, cfg) for x in l):
        return True
    for t, f in st.facts.items():
        if not isinstance(t, T) or f[0] != "=":
            continue
        if t.op == "eq" and f[1] == 1:
            for x, y in (t.a, t.a[::-1]):
                if x is b and y.op == "and" and b in leaves(y) and any(is_cfg(z, cfg) for z in leaves(y)):
                    return True
    return False


def nonzero(st, v):
    b = bits(v)
    if b.op == "k":
        return b.a[0] != 0
    f = st.facts.get(b)
    return f is not None and (f[0] == "!" and 0 in f[1] or f[0] == "=" and f[1] != 0)


prop("C11", "Every prioritize function is executed over symbolic bit sets with its table unrolled: each outcome must be a single bit tested to be in both sets, or nothing with every table entry excluded. At each ALGORITHMS, CAPABILITIES and VERSION "
     "the responder sends, the fields must be that combination of the decoded request and config_info, the negotiated values in force equal to those sent, the hash not empty and the version tested against the configured list. On the requester every write of a "
     "received selection to negotiate_info must lie under a test that it is a subset of config_info's value, hash and signature algorithm non-empty on success, and the version the first configured one of the responder's list sorted highest first.", expect=[("chosen", 20), ("ALGORITHMS", 15), ("accepted", 7), ("version", 3), ("CAPABILITIES", 8)])


def prio_fns(p):
    """functions that narrow their own value by a second one of the same type"""
    return sorted({f.name for f in p.fns.values() if f.name.endswith("::prioritize")})


def prio_jobs(c):
    out = []
    for n in prio_fns(PROGS[c]):
        j = Job(c, n, unroll=24, name=n.split("::")[-2] + "::prioritize")
        out.append(j)
    return out


@flow("C11", prio_jobs)
class Prio(Rule):
    def finish(self, run):
        n = self.job.name
        res = []
        me, peer = ("D", mk("arg", "self")), mk("arg", "peer")
        for st, ret in run.outs:
            v = bits(run.eng.rd(st, me, ()))
            if v.op != "k":
                self.ob(f"{n}: a value chosen from the table", False, n, f"left at {show(v)[:200]}")
                continue
            res.append((st, v.a[0]))
        vals = {v for _, v in res if v}
        old = [mk("mem", me, (F("bits"),), 0)]

        def has(st, v):
            ls = set()
            for t, f in st.facts.items():
                if isinstance(t, T) and t.op == "and":
                    l = leaves(t)
                    if any(x is K(v) for x in l) and (f[0] == "!" and 0 in f[1] or f[0] == "=" and f[1] == v):
                        ls |= {("peer" if "peer" in arg_names(x) and not is_self(x) else "self" if is_self(x) else "?") for x in l if x.op != "k"}
            return ls

        def lacks(st, v):
            return any(isinstance(t, T) and t.op == "and" and f[0] == "=" and f[1] == 0 and any(x is K(v) for x in leaves(t)) for t, f in st.facts.items())

        for st, v in res:
            if v == 0:
                miss = [hex(x) for x in vals if not lacks(st, x)]
                self.ob(f"{n}: nothing chosen only when nothing is common", not miss, n, f"{miss} may be common to both when nothing is chosen")
            else:
                ls = has(st, v)
                self.ob(f"{n}: {hex(v)} chosen only if both sides have it", {"self", "peer"} <= ls, n, f"checked only against {sorted(ls)}")
                self.ob(f"{n}: {hex(v)} is one algorithm", v & (v - 1) == 0, n, "more than one bit chosen")
        self.ob(f"{n}: a value chosen from the table", bool(vals), n, "no outcome selects an algorithm")


def is_self(t):
    return "self" in arg_names(t) or t.op == "mem" and t.a[0] == ("D", mk("arg", "self"))


class Summaries(Sends):
    """prioritize(old, config) as one value; what it means is decided on its own"""

    def on_call(self, eng, call, args, st):
        if call.name.endswith("::prioritize") and len(args) == 2 and args[0].op == "ref":
            r, p = args[0].a[0], args[0].a[1]
            old = deepall(eng, st, eng.rd(st, r, p))
            eng.wr(st, call.fr, r, p, mk("pure", "prioritize", (old, deepall(eng, st, args[1]))), call.span)
            return [(st, UNIT)]
        return super().on_call(eng, call, args, st)


def prio_of(t):
    if t.op == "pure" and t.a[0] == "prioritize":
        return t.a[1]
    return None


def neg_now(eng, st, name):
    return eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("negotiate_info"), F(name)))


def alone(cls):
    cls.alone = True
    return cls


@flow("C11", responder)
@alone
class Responder(Summaries):
    def send(self, eng, call, st, o, w):
        if o.code == "SpdmResponseAlgorithms":
            self.algorithms(eng, st, o, w)
        if o.code == "SpdmResponseCapabilities":
            for f, cf in (("flags", "rsp_capabilities"), ("data_transfer_size", "data_transfer_size"), ("max_spdm_msg_size", "max_spdm_msg_size"), ("ct_exponent", "rsp_ct_exponent")):
                v = o.field(f)
                self.ob(f"CAPABILITIES: {f} is the configured one", v is not None and is_cfg(v, cf), w, show(v)[:200] if v is not None else "no such field")
            n = neg_now(eng, st, "rsp_capabilities_sel")
            self.ob("CAPABILITIES: own flags remembered", is_cfg(n, "rsp_capabilities"), w, show(n)[:200])
            n = neg_now(eng, st, "req_capabilities_sel")
            self.ob("CAPABILITIES: peer's flags remembered", received(n) and "flags" in field_names(n), w, show(n)[:200])
            v = neg_now(eng, st, "spdm_version_sel")
            h = o.header("version")
            self.ob("CAPABILITIES: version answered is the one in force", h is v, w, f"{show(h)[:100]} / {show(v)[:100]}")
            self.ob("CAPABILITIES: version in force is the requested one", received(v) and "version" in field_names(v), w, show(v)[:200])
            self.ob("CAPABILITIES: version in force is a configured one", listed(st, v), w, "no test against config_info.spdm_version on this path")
        if o.code == "SpdmResponseVersion":
            l = o.field("versions")
            ents = entries(l) if l is not None else None
            ok = ents is not None and all("spdm_version" in field_names(fld(x, F("version"))) for x in ents)
            self.ob("VERSION: versions offered are the configured ones", ok, w, show(l)[:300] if l is not None else "no such field")

    def algorithms(self, eng, st, o, w):
        flds = {"measurement_specification_sel": "measurement_specification_sel", "base_hash_sel": "base_hash_sel", "base_asym_sel": "base_asym_sel",
                "opaque_data_support": "other_params_selection"}
        got = {n: o.field(f) for n, f in flds.items()}
        ents = entries(o.field("alg_struct")) if o.field("alg_struct") is not None else None
        for e in ents or []:
            a = fld(e, F("alg_supported"))
            t = fld(e, F("alg_type"))
            if a.op == "agg" and a.a[2] in STRUCT:
                ty = t.a[2] if t.op == "agg" else None
                self.ob(f"ALGORITHMS: {a.a[2]} announced under its own type", STRUCTTYPE.get(ty) == a.a[2], w, f"type {ty}")
                if STRUCT[a.a[2]] in got:
                    self.ob("ALGORITHMS: each table once", False, w, a.a[2])
                got[STRUCT[a.a[2]]] = a.a[3][0]
        for n, cf in ALGS.items():
            v = got.get(n)
            if v is None:
                self.ob(f"ALGORITHMS: {n} announced", False, w, "not in the response")
                continue
            p = prio_of(v)
            if n == "opaque_data_support":
                l = leaves(bits(v))
                ok = any(is_cfg(x, cf) for x in l) and any(received(x) for x in l)
            elif p is not None:
                ok = is_cfg(p[1], cf) and (n in STRUCT.values() or received(p[0]) and bool({cf, n} & set(field_names(p[0]))))
            else:
                ok = contained(st, cf, v)
            self.ob(f"ALGORITHMS: {n} common to request and configuration", ok, w, f"announces {show(v)[:300]}")
            self.ob(f"ALGORITHMS: {n} in force is the one announced", neg_now(eng, st, n) is v, w, f"in force: {show(neg_now(eng, st, n))[:200]}")
            if n in MUST:
                self.ob(f"ALGORITHMS: {n} is not empty", nonzero(st, v), w, "no test that an algorithm is common")
        v = o.field("measurement_hash_algo")
        self.ob("ALGORITHMS: measurement hash is the configured one", v is not None and is_cfg(v, "measurement_hash_algo") and
                is_cfg(neg_now(eng, st, "measurement_hash_sel"), "measurement_hash_algo"), w, show(v)[:200] if v is not None else "")

    def on_write(self, eng, st, fr, root, path, v, span):
        if len(path) >= 2 and path[-2] == F("negotiate_info") and path[-1][1] in STRUCT.values():
            n = path[-1][1]
            v = deepall(eng, st, v)
            p = prio_of(v)
            b = bits(v)
            if p is not None:
                ok = is_cfg(p[1], ALGS[n])
            elif b.op == "k":
                ok = b.a[0] == 0
            else:
                alg = [k for k, x in STRUCT.items() if x == n][0]
                ok = received(v) and alg in variants_on(v) or contained(st, ALGS[n], v)
            self.ob(f"{n} is set from the request's own table, narrowed by the configuration", ok, fr.fn.name, show(v)[:300])


def variants_on(t):
    """enum variants projected along t"""
    out = set()
    while t.op in ("fld",):
        if t.a[1][0] == "v":
            out.add(t.a[1][1])
        t = t.a[0]
    if t.op == "mem":
        out |= {e[1] for e in t.a[1] if e[0] == "v"}
    return out


def entries(t):
    if t.op == "agg" and t.a[0] == "array":
        return list(t.a[3])
    if t.op == "agg" and t.a[1] == 0 and all(isinstance(x, T) for x in t.a[3]) and t.a[0] in ("[]", "arr"):
        return list(t.a[3])
    return None


def listed(st, v):
    """is v known to be one of the configured versions?"""
    for t, f in st.facts.items():
        if not isinstance(t, T) or f[0] != "=":
            continue
        if t.op == "pure" and t.a[0] == "contains" and f[1] == 1:
            if any("spdm_version" in field_names(x) for x in subterms(t.a[1][0])) and same(t.a[1][1], v):
                return True
        if t.op == "eq" and f[1] == 1:
            for x, y in (t.a, t.a[::-1]):
                if same(x, v) and any(z in ("spdm_version",) for z in field_names(y)):
                    return True
    return False


def same(x, v):
    return x is v or x.op == "pure" and x.a[0] == "enumval" and x.a[1][0] is v


def alg_req(c):
    return req("send_receive_spdm_algorithm")(c)


@flow("C11", alg_req)
class RequesterAlgorithms(Sends):
    def send(self, eng, call, st, o, w):
        if o.code != "SpdmRequestNegotiateAlgorithms":
            return
        got = {"measurement_specification_sel": o.field("measurement_specification"), "base_hash_sel": o.field("base_hash_algo"),
               "base_asym_sel": o.field("base_asym_algo"), "opaque_data_support": o.field("other_params_support")}
        for e in entries(o.field("alg_struct")) or []:
            a, t = fld(e, F("alg_supported")), fld(e, F("alg_type"))
            if a.op == "agg" and a.a[2] in STRUCT:
                self.ob(f"NEGOTIATE_ALGORITHMS: {a.a[2]} offered under its own type", STRUCTTYPE.get(t.a[2] if t.op == "agg" else None) == a.a[2], w, show(t)[:80])
                got[STRUCT[a.a[2]]] = a.a[3][0]
        for n, cf in ALGS.items():
            v = got.get(n)
            self.ob(f"NEGOTIATE_ALGORITHMS: {cf} offered is the configured one", v is not None and is_cfg(v, cf), w, show(v)[:200] if v is not None else "not offered")

    def on_write(self, eng, st, fr, root, path, v, span):
        if not (len(path) >= 2 and path[-2] == F("negotiate_info") and path[-1][1] in ALGS):
            return
        n = path[-1][1]
        v = deepall(eng, st, v)
        if bits(v).op == "k":
            self.ob(f"{n} is reset to nothing", bits(v).a[0] == 0, fr.fn.name, show(v))
            return
        ok = received(v)
        if n in STRUCT.values():
            alg = [k for k, x in STRUCT.items() if x == n][0]
            ok = ok and alg in variants_on(v)
        elif n != "opaque_data_support":
            ok = ok and n in field_names(v)
        else:
            ok = ok and "other_params_selection" in field_names(v)
        self.ob(f"{n} accepted is the responder's selection", ok, fr.fn.name, show(v)[:200])
        self.ob(f"{n} accepted is among those offered", contained(st, ALGS[n], v), fr.fn.name, f"{show(v)[:200]} is not compared with config_info.{ALGS[n]}")

    def finish(self, run):
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            for n in ("base_hash_sel", "base_asym_sel"):
                v = neg_now(run.eng, st, n)
                self.ob(f"{n} accepted is not empty", received(v) and nonzero(st, v), "send_receive_spdm_algorithm", show(v)[:200])


@flow("C11", req("send_receive_spdm_capability"))
class RequesterCapabilities(Sends):
    def send(self, eng, call, st, o, w):
        if o.code != "SpdmRequestGetCapabilities":
            return
        for f, cf in (("flags", "req_capabilities"), ("data_transfer_size", "data_transfer_size"), ("max_spdm_msg_size", "max_spdm_msg_size"), ("ct_exponent", "req_ct_exponent")):
            v = o.field(f)
            self.ob(f"GET_CAPABILITIES: {f} is the configured one", v is not None and is_cfg(v, cf), w, show(v)[:200] if v is not None else "no such field")

    def finish(self, run):
        for st, ret in run.outs:
            if may_ok(st, ret):
                v = neg_now(run.eng, st, "req_capabilities_sel")
                self.ob("CAPABILITIES accepted: own flags are those sent", is_cfg(v, "req_capabilities"), self.job.name, show(v)[:200])
                v = neg_now(run.eng, st, "rsp_capabilities_sel")
                self.ob("CAPABILITIES accepted: peer's flags are those received", received(v) and "flags" in field_names(v), self.job.name, show(v)[:200])


@flow("C11", req("send_receive_spdm_version"))
class RequesterVersion(Rule):
    def on_call(self, eng, call, args, st):
        if call.name.startswith("core::slice::sort") or call.name.startswith("alloc::slice::sort"):
            if len(args) == 2:
                self.order(eng, call, args, st)
        if call.name == "core::iter::traits::iterator::Iterator::next" and ghosts(st, "chosen"):
            self.ob("version: the search ends at the first common version", False, where(call), "the search goes on after a version was chosen")
        return None

    def order(self, eng, call, args, st):
        a, b = mk("arg", "$a"), mk("arg", "$b")
        out = eng.call_closure(call, args[1], [REF(("D", a), ()), REF(("D", b), ())], st.copy(), tag="order")
        for s, r in out:
            ok = r.op == "pure" and r.a[0] == "cmp" and "$b" in all_args(r.a[1][0]) and "$a" in all_args(r.a[1][1]) \
                and all("version" in tnames(x) for x in r.a[1])
            if r.op == "pure" and r.a[0] == "reverse":
                r = r.a[1][0]
                ok = r.op == "pure" and r.a[0] == "cmp" and "$a" in all_args(r.a[1][0]) and "$b" in all_args(r.a[1][1])
            self.ob("version: offered versions are tried highest first", ok, where(call), f"compares {show(r)[:200]}")

    def on_write(self, eng, st, fr, root, path, v, span):
        if not (path and path[-1] == F("spdm_version_sel")):
            return
        v = deepall(eng, st, v)
        if v.op == "agg" and v.a[2] == "Unknown" or not received(v):
            self.ob("version: reset to none", v.op == "agg" and v.a[2] in ("Unknown", "SpdmVersion10"), fr.fn.name, show(v)[:200])
            return
        self.ob("version: chosen from the responder's list", "version" in field_names(v), fr.fn.name, show(v)[:200])
        self.ob("version: chosen one is configured", listed(st, v), fr.fn.name, "not tested against config_info.spdm_version")
        self.ob("version: chosen from the ordered list", has_sub(v, lambda x: x.op == "sorted"), fr.fn.name, show(v)[:300])
        self.ob("version: the search ends at the first common version", True)
        ghost(st, "chosen", v)

    def finish(self, run):
        for st, ret in run.outs:
            if may_ok(st, ret):
                v = neg_now(run.eng, st, "spdm_version_sel")
                d = st.val(discr(v))
                f = st.facts.get(discr(v))
                ok = v.op == "agg" and v.a[2] != "Unknown" or bool(ghosts(st, "chosen")) or d is not None and self.vname(self.adt("SpdmVersion"), d) != "Unknown"
                self.ob("version: success only with a version chosen", ok, self.job.name, show(v)[:200])


def all_args(t):
    out = set()
    for x in subterms(t):
        if x.op == "arg":
            out.add(x.a[0])
        if x.op == "mem" and x.a[0][0] == "D":
            out |= all_args(x.a[0][1])
    return out


def tnames(t):
    out = set()
    for x in subterms(t):
        out |= set(field_names(x))
    return out
