"""C34: the device presents its own certificate chains under the hash algorithm in use."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
from interp import Hooks
from r_session import byte_of
import itertools
import raw
import domain

C = "spdmlib::common::"
ROOT = ("D", mk("arg", "self"))
OWN, DATA, HASH = (F("provision_info"), F("my_cert_chain")), (F("provision_info"), F("my_cert_chain_data")), (F("negotiate_info"), F("base_hash_sel"))
prop("C34", "Every way through construct_my_cert_chain that succeeds leaves, in each slot with a provisioned chain, [total length u16, 2 zero bytes, hash of the first certificate under base_hash_sel, the provisioned chain]; "
     "ALGORITHMS is encoded, and the requester authenticates itself, only after it succeeded for the base_hash_sel in force.", level="proof",
     expect=[("^own chain: ", 3), ("^ALGORITHMS ", 1)])


def low16(t):
    return t.a[0] if t.op == "trunc" and t.a[1] == 16 else t


def wrong(v, src, n, alg):
    """None if v is the chain buffer for the provisioned chain src of n bytes, or what differs"""
    if v.op != "agg" or v.a[2] != "Some":
        return "not set"
    v = v.a[3][0]
    size, d = fld(v, F("data_size")), fld(v, F("data"))
    data = fld(src, F("data"))
    parts = []
    byte = {}
    while d.op == "patch" or d.op == "upd" and all(len(q) == 1 and q[0][0] == "i" and q[0][1].op == "k" and q[0][1].a[0] < 4 for q, _ in d.a[1]):
        if d.op == "patch":
            parts.append(tuple(d.a[1:]))
        else:
            for q, x in d.a[1]:
                byte.setdefault(q[0][1].a[0], x)
        d = d.a[0]
    head = [p for p in parts if p[0].op == "k" and p[1].op == "k" and p[1].a[0] <= 4]
    parts = [p for p in parts if p not in head]
    if len(parts) != 2:
        return "not made of two parts after the header"
    if parts[0][0] is K(4):
        parts.reverse()
    (lo, hi, first), (lo2, hi2, second) = parts[1], parts[0]
    if lo is not K(4):
        (lo, hi, first), (lo2, hi2, second) = parts[0], parts[1]
    hs = sub(hi, K(4))
    # the first part: the hash of the root certificate
    h = next((x for x in subterms(first) if x.op == "digest"), None)
    if lo is not K(4) or h is None or hs is not fld(h, F("data_size")):
        return "the root hash does not follow the 4 byte header"
    if not (first.op == "mem" and first.a[1] == (("sl", K(0), hs),) and first.a[0][0] == "D" and first.a[0][1] is fld(h, F("data"))):
        return f"the first part is not the whole root hash: {show(first)[:80]}"
    a = h.a[0]
    if a.op != "app" or a.a[0].op != "hctx" or a.a[0].a[0] is not alg:
        return "the root hash is not taken with the negotiated algorithm"
    b = a.a[1] if not isinstance(a.a[1], tuple) else a.a[1][0]
    cert = next((x for x in subterms(b) if x.op == "call" and x.a[0].endswith("get_cert_from_cert_chain")), None)
    if cert is None:
        return "what is hashed is not a certificate of this chain"
    at, to = (fldp(cert, (V("Ok"), F(0), F(i))) for i in (0, 1))
    if b is not fld(data, ("sl", at, to)):
        return "what is hashed is not the certificate found in this chain"
    ca = cert.a[2]
    if not (len(ca) == 2 and ca[1] is K(0) and ca[0] is fld(data, ("sl", K(0), n))):
        return f"the certificate hashed is not the first of this chain: {[show(x)[:60] for x in ca]}"
    if lo2 is not hi or hi2 is not add(hi, n) or second is not fld(data, ("sl", K(0), n)):
        return "the provisioned chain does not follow the root hash in full"
    if low16(size) is not add(hi, n):
        return f"the size is not that of the chain with its header: {show(size)[:80]}"
    for i in range(4):
        x = next((fld(p[2], ("i", sub(K(i), p[0]))) for p in head if p[0].a[0] <= i < p[1].a[0]), None)
        x = byte.get(i, fld(d, ("i", K(i))) if x is None else x)
        if i < 2 and (low16(byte_of(x)[0]), byte_of(x)[1]) != (low16(size), i) or i >= 2 and x is not K(0):
            return f"byte {i} of the header: {show(x)[:80]}"
    return None


def apart(t):
    return t.op == "ghost" or t.op == "discr" and t.a[0].op == "mem" and DATA[1] in t.a[0].a[1]


class Build(Hooks):
    def __init__(self):
        self.bad, self.good, self.other = {}, 0, set()

    def on_write(self, eng, st, fr, root, path, v, span):
        if root != ROOT:
            return
        if path[:2] != OWN:
            self.other.add(".".join(str(x[1]) for x in path[:2]))
            return
        k = path[2][1] if len(path) == 3 and path[2][0] == "i" else None
        if k is None or k.op != "k":
            self.bad.setdefault(-1, "written in parts")
            return
        o = st.read(ROOT, DATA + (path[2],))
        src = fldp(o, (V("Some"), F(0)))
        domain.unghost(st, "own", k.a[0])
        why = wrong(v, src, fld(src, F("data_size")), st.read(ROOT, HASH)) if st.val(discr(o)) == 1 else "written although nothing is provisioned"
        if why:
            self.bad.setdefault(k.a[0], why)
        else:
            self.good += 1
            domain.ghost(st, "own", k.a[0])


def built(prog):
    recs = []
    fn = next((f for f in prog.fns.values() if f.name.endswith("SpdmContext::construct_my_cert_chain")), None)
    if fn is None:
        return recs
    n = next(prog.tys[fn.crate][f[1]]["n"] for f in prog.adts[C + "SpdmProvisionInfo"]["v"][0]["f"] if f[0] == "my_cert_chain")
    good, bad, left, other = 0, {}, set(), set()
    # any two slots may be provisioned, the others are not: one slot cannot keep another from being built
    for two in itertools.combinations(range(n), 2):
        def only(eng, st, _):
            for k in range(n):
                if k not in two:
                    st._set(ROOT, DATA + (("i", K(k)),), NONE)
        h = Build()
        r = raw.run(prog, fn, setup=only, hooks=h, pol=domain.policy, track=apart)
        covered("C34", fn.name, r.eng)
        good += h.good
        other |= h.other
        for k, w in h.bad.items():
            bad.setdefault(k, w)
        for st, v in r.outs:
            if v.op == "agg" and v.a[2] == "Err":
                continue
            for k in two:
                s = st.copy()
                if k not in domain.ghosts(st, "own") and s.assume_eq(discr(st.read(ROOT, DATA + (("i", K(k)),))), 1):
                    left.add(k)
    recs.append(Rec("C34", "own chain: what is built is length, root hash and provisioned chain", not bad and good > 0, fn.name, "; ".join(f"slot {k}: {w}" for k, w in sorted(bad.items())[:3])))
    recs.append(Rec("C34", "own chain: built anew in each slot with a provisioned chain", not left and good > 0, fn.name, f"what slot {sorted(left)} held before can stay"))
    recs.append(Rec("C34", "own chain: provisioned chains and the negotiated algorithms are not changed", not other and good > 0, fn.name, ", ".join(sorted(other))))
    return recs


class Use(Hooks):
    """who needs the chains built"""
    def __init__(self, what):
        self.what, self.seen = what, []

    def on_call(self, eng, call, args, st):
        if call.name.endswith("SpdmContext::construct_my_cert_chain"):
            s = st.copy()
            s.ev["own"] = st.read(ROOT, (F("common"),) + HASH)
            st.ev.pop("own", None)
            return [(s, OK(AGG("tuple", 0, "tuple", ()))), (st, ERR(eng.fresh(call, st, "own", ())))]
        if self.what(eng, call, args, st):
            self.seen.append((call.name, st.ev.get("own") is not None and st.ev["own"] is st.read(ROOT, (F("common"),) + HASH)))
            return []
        return None


def algorithms(eng, call, args, st):
    if not call.name.endswith("::spdm_encode") or not args:
        return False
    m = eng.rd(st, *eng.deref(args[0]))
    return m.op == "agg" and any(x.op == "agg" and x.a[2] == "SpdmAlgorithmsResponse" for x in subterms(m))


@structural("C34")
def c34(prog, cfg):
    recs = built(prog)
    for end, what, title in (("ResponderContext::write_spdm_algorithm", algorithms, "ALGORITHMS is written after the own chains were built for the hash selected"),
                             ("RequesterContext::session_based_mutual_authenticate", lambda e, c, a, s: c.name.endswith("::get_encapsulated_request_response"),
                              "mutual authentication starts after the own chains were built for the hash negotiated")):
        fn = next((f for f in prog.fns.values() if f.name.split(" as ")[0].endswith(end) or f.name.endswith(end)), None)
        if fn is None:
            continue
        h = Use(what)
        r = raw.run(prog, fn, hooks=h, pol=domain.policy, b=16)
        covered("C34", fn.name, r.eng)
        recs.append(Rec("C34", title, bool(h.seen) and all(x for _, x in h.seen), fn.name, "on some path they are not" if h.seen else "not found"))
    return recs
