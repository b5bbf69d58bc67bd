"""C26: the functions of crypto, secret and time hand every call to the callback the integrator registered, and nothing else."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
import raw
from interp import State

C, S_ = "spdmlib::crypto::", "spdmlib::secret::"
# function -> (instance, callback)
WRAP = {
    C + "hash::hash_all": ("CRYPTO_HASH", "hash_all_cb"), C + "hmac::hmac": ("CRYPTO_HMAC", "hmac_cb"), C + "hmac::hmac_verify": ("CRYPTO_HMAC", "hmac_verify_cb"),
    C + "asym_verify::verify": ("CRYPTO_ASYM_VERIFY", "verify_cb"), C + "dhe::generate_key_pair": ("CRYPTO_DHE", "generate_key_pair_cb"),
    C + "cert_operation::get_cert_from_cert_chain": ("CRYPTO_CERT_OPERATION", "get_cert_from_cert_chain_cb"),
    C + "cert_operation::verify_cert_chain": ("CRYPTO_CERT_OPERATION", "verify_cert_chain_cb"), C + "hkdf::hkdf_extract": ("CRYPTO_HKDF", "hkdf_extract_cb"),
    C + "hkdf::hkdf_expand": ("CRYPTO_HKDF", "hkdf_expand_cb"), C + "aead::encrypt": ("CRYPTO_AEAD", "encrypt_cb"), C + "aead::decrypt": ("CRYPTO_AEAD", "decrypt_cb"),
    C + "rand::get_random": ("CRYPTO_RAND", "get_random_cb"), S_ + "measurement::measurement_collection": ("SECRET_MEASUREMENT_INSTANCE", "measurement_collection_cb"),
    S_ + "measurement::generate_measurement_summary_hash": ("SECRET_MEASUREMENT_INSTANCE", "generate_measurement_summary_hash_cb"),
    S_ + "psk::handshake_secret_hkdf_expand": ("SECRET_PSK_INSTANCE", "handshake_secret_hkdf_expand_cb"), S_ + "psk::master_secret_hkdf_expand": ("SECRET_PSK_INSTANCE", "master_secret_hkdf_expand_cb"),
    S_ + "asym_sign::sign": ("SECRET_ASYM_INSTANCE", "sign_cb"), "spdmlib::time::sleep": ("TIME_INSTANCE", "sleep_cb"),
}
CTX = {C + "hash::hash_ext::hash_ctx_" + k: ("CRYPTO_HASH", f"hash_ctx_{k}_cb") for k in ("init", "update", "finalize", "dup")}
REG_ = {m + "::register": i for m, i in {C + "hash": "CRYPTO_HASH", C + "hmac": "CRYPTO_HMAC", C + "asym_verify": "CRYPTO_ASYM_VERIFY", C + "dhe": "CRYPTO_DHE",
                                        C + "cert_operation": "CRYPTO_CERT_OPERATION", C + "hkdf": "CRYPTO_HKDF", C + "aead": "CRYPTO_AEAD", C + "rand": "CRYPTO_RAND",
                                        S_ + "measurement": "SECRET_MEASUREMENT_INSTANCE", S_ + "psk": "SECRET_PSK_INSTANCE", S_ + "asym_sign": "SECRET_ASYM_INSTANCE",
                                        "spdmlib::time": "TIME_INSTANCE"}.items()}
short = lambda n: n[len("spdmlib::"):]
prop("C26", "Each public function of crypto::*, secret::* and time is followed on every path: it makes exactly one indirect call, of the callback field meant for it, of the one registered "
     "instance of its kind, with its own arguments unchanged and in order, and returns that call's result; without an instance it fails. register() stores the given value only if none is "
     "registered and reports whether it did. A running hash's handle is passed on unchanged, is not used after it was finalized, and is finalized when dropped.", level="proof",
     expect=[(short(n) + ": ", 3) for n in WRAP] + [(short(n) + ": ", 2) for n in REG_])


class Facade:
    def __init__(self, prog):
        self.prog, self.recs = prog, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec("C26", key, ok, where, "" if ok else why)
        else:
            r.n += 1
            if r.ok and not ok:
                r.ok, r.why = False, why
        return ok

    def run(self, fn):
        """[(state, result, indirect calls)]"""
        class H(raw.Total):
            def on_call(self, eng, call, args, st):
                if call.name == "<indirect>" or call.name.startswith("conquer_once::"):
                    st.ev["calls"] = st.ev.get("calls", ()) + ((call.name, tuple(args)),)
                return None

            def on_drop(self, eng, st, fr, bb, term):
                t = eng.prog.tys[fr.fn.crate][term[3]]
                if t.get("p", "").endswith("::SpdmHashCtx"):
                    root, path = eng.loc(st, fr, term[1])
                    st.ev["drops"] = st.ev.get("drops", ()) + ((fr.fn.id, eng.rd(st, root, path + (F("0"),)), any(c[0] == "<indirect>" for c in st.ev.get("calls", ()))),)
        h = H()
        r = raw.run(self.prog, fn, hooks=h)
        covered("C26", fn.name, r.eng)
        return [(st, v, [c for c in st.ev.get("calls", ()) if c[0] == "<indirect>"]) for st, v in r.outs], r


def statics(t):
    out = set()

    def go(x):
        if isinstance(x, T):
            for a in x.a:
                go(a)
        elif isinstance(x, (tuple, list)):
            for a in x:
                go(a)
        elif isinstance(x, str) and x.startswith("spdmlib::") and x.split("::")[-1].isupper():
            out.add(x.split("::")[-1])
    go(t)
    return out


def fails(v):
    return v.op == "agg" and v.a[2] in ("None", "Err")


def from_instance(callee, inst, cb):
    """is this the callback field of the registered instance?"""
    if callee.op == "fld" and callee.a[1] == F(cb) or callee.op == "mem" and callee.a[1] and callee.a[1][-1] == F(cb):
        return statics(callee) == {inst}
    return False


def given(prog, fn, r, st):
    """the arguments, references to a running hash followed"""
    T_ = prog.tys[fn.crate]
    for i, a in enumerate(r.args):
        t = T_[fn.locals[i + 1]]
        if t["k"] == "ref" and T_[t["e"]].get("p", "").endswith("::SpdmHashCtx"):
            a = r.eng.content(State(), a)
        yield a


def gives(st, v, callee, args):
    """the result is that of the call, as it is or taken apart and put together again"""
    if v.op == "agg" and v.a[0] == "tuple" and not v.a[3]:
        return True
    if v.op == "call":
        return v.a[0] == "<indirect>" and v.a[2] == (callee, *args)
    if v.op != "agg" or len(v.a[3]) > 1:
        return False
    if not v.a[3]:
        return any(f == ("=", 0) and t.op == "discr" and gives(st, t.a[0], callee, args) for t, f in st.facts.items() if isinstance(t, T))
    x = v.a[3][0]
    while x.op == "agg" and len(x.a[3]) == 1:
        x = x.a[3][0]
    return x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[1] == V(v.a[2]) and gives(st, x.a[0].a[0], callee, args)


@structural("C26")
def c26(prog, cfg):
    c = Facade(prog)
    byname = {f.name: f for f in prog.fns.values()}
    for name, (inst, cb) in {**WRAP, **CTX}.items():
        fn, n = byname.get(name), short(name)
        if fn is None:
            if name in WRAP:
                c.ob(f"{n}: exists", False, name, "no such function")
            continue
        outs, r = c.run(fn)
        done = 0
        for st, v, calls in outs:
            if not calls:
                c.ob(f"{n}: without an instance it fails", fails(v), fn.name, f"returns {show(v)[:150]} without calling the registered {cb}")
                continue
            done += 1
            callee, args = calls[0][1][0], calls[0][1][1:]
            c.ob(f"{n}: calls its callback once", len(calls) == 1 and from_instance(callee, inst, cb), fn.name, f"{len(calls)} calls; calls {show(callee)[:200]} instead of {inst}.{cb}")
            want = [fld(a, F("0")) if i == 0 and name in CTX and cb != "hash_ctx_init_cb" else a for i, a in enumerate(given(prog, fn, r, st))]
            c.ob(f"{n}: passes its arguments on unchanged", list(args) == want, fn.name, "passes (" + ", ".join(show(a)[:60] for a in args) + ")")
            c.ob(f"{n}: returns what the callback gave", gives(st, v, callee, args), fn.name, f"returns {show(v)[:200]}")
            if cb == "hash_ctx_finalize_cb":
                ds = [d for d in st.ev.get("drops", ()) if d[0] == fn.id and d[2]]
                c.ob(f"{n}: the handle is not finalized again when the value is dropped", all(d[1] is K(0) for d in ds), fn.name, "dropped with " + ", ".join(show(d[1]) for d in ds))
        c.ob(f"{n}: reaches its callback", done > 0, fn.name, "never calls it")
    for name, inst in REG_.items():
        fn, n = byname.get(name), short(name)
        if fn is None:
            c.ob(f"{n}: exists", False, name, "no such function")
            continue
        outs, r = c.run(fn)
        for st, v, calls in outs:
            ini = [a for k, a in st.ev.get("calls", ()) if k == "conquer_once::cell::try_init_once"]
            ok = len(ini) == 1 and not calls and statics(r.eng.content(st, ini[0][0])) | statics(ini[0][0]) == {inst}
            c.ob(f"{n}: registers with {inst} if nothing is registered yet", ok, fn.name, f"{len(ini)} registrations: {[show(a[0])[:80] for a in ini]}")
            if not ok:
                continue
            clo = ini[0][1]
            c.ob(f"{n}: what is registered is the value given", stored(c, prog, clo) is r.args[0], fn.name, f"the instance is made by {show(clo)[:150]}")
            res = [t for t in subs(v) if t.op == "call" and t.a[0].endswith("try_init_once")]
            if v.op == "k":
                f = [f for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0].endswith("try_init_once")]
                told = bool(f) and (f[0] == ("=", 0)) == bool(v.a[0]) and (f[0][0] == "=" or 0 in f[0][1])
            else:
                told = bool(res) and v is eq(discr(res[0]), K(0))
            c.ob(f"{n}: tells whether it was registered", told, fn.name, f"returns {show(v)[:200]}")
    for f in prog.fns.values():
        if f.name.endswith("::SpdmHashCtx as core::ops::drop::Drop>::drop") or f.name.endswith("::SpdmHashCtx as core::clone::Clone>::clone"):
            kind = f.name.split("::")[-1]
            outs, r = c.run(f)
            h = fld(r.eng.content(State(), r.args[0]), F("0"))
            for st, v, calls in outs:
                if kind == "drop":
                    unused = st.copy().assume_eq(h, 0) and not st.copy().assume(eq(h, K(0)), False)
                    lost = any(t.op == "discr" and f2 == ("=", 1) and "try_get_or_init" in show(t) for t, f2 in st.facts.items() if isinstance(t, T))
                    c.ob("running hash: a handle in use is finalized when dropped", bool(calls) != bool(unused) or lost, f.name, f"{len(calls)} calls")
                    if calls:
                        c.ob("running hash: dropping finalizes its own handle", from_instance(calls[0][1][0], "CRYPTO_HASH", "hash_ctx_finalize_cb") and calls[0][1][1] is h, f.name, show(calls[0][1][0])[:200])
                else:
                    ok = len(calls) == 1 and from_instance(calls[0][1][0], "CRYPTO_HASH", "hash_ctx_dup_cb") and calls[0][1][1] is h
                    c.ob("running hash: a clone is a duplicate of its own handle", ok and any(t.op == "call" and t.a[0] == "<indirect>" for t in subs(v)), f.name, show(v)[:200])
    return list(c.recs.values())


def stored(c, prog, clo):
    """what a closure that makes the instance returns"""
    if clo.op != "agg" or clo.a[0] != "closure":
        return None
    fn = next((f for f in prog.fns.values() if f.id == clo.a[2]), None)
    if fn is None:
        return None
    a = [clo] + [mk("arg", f"c{i}") for i in range(1, fn.argc)]
    r = raw.run(prog, fn, args=a)
    vs = {v for _, v in r.outs}
    return vs.pop() if len(vs) == 1 else None


def subs(t):
    yield t
    for a in t.a:
        if isinstance(a, T):
            yield from subs(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield from subs(b)
