"""C17: key material is wiped when the value that holds it is released."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
from interp import Hooks
import raw
import re

A, S = "spdmlib::protocol::algo::", "spdmlib::common::session::"
SECRET = [A + x for x in ("SpdmDheFinalKeyStruct", "SpdmHandshakeSecretStruct", "SpdmDirectionHandshakeSecretStruct", "SpdmFinishedKeyStruct", "SpdmMasterSecretStruct", "SpdmDirectionDataSecretStruct",
                          "SpdmAeadKeyStruct", "SpdmAeadIvStruct", "SpdmExportMasterSecretStruct", "SpdmHkdfPseudoRandomKey", "SpdmHkdfOutputKeyingMaterial")] + \
         [S + x for x in ("SpdmSessionDheSecretRoot", "SpdmSessionSecretParam", "SpdmSessionHandshakeSecret", "SpdmSessionAppliationSecret")] + ["spdmlib::crypto::bytes_mut_scrubbed::BytesMutStrubbed"]
# where the secrets of a session are kept
KEPT = ("dhe_secret", "handshake_secret", "master_secret", "application_secret", "export_master_secret", "finished_key", "encryption_key", "salt", "data_secret")
short = lambda t: t.split("::")[-1]
prop("C17", "For each type that holds key material: the destructor is followed on every path and overwrites (zeroize) the whole of every field that holds bytes, unless the field is itself of such a type; "
     "fields of the session named after secrets are of such types.", level="proof", expect=[("^" + short(t) + ": ", 1) for t in SECRET])


class Wipe:
    def __init__(self, prog):
        self.prog, self.recs, self.memo = prog, [], {}
        self.drops = {}
        for f in prog.fns.values():
            if f.trait == "core::ops::drop::Drop" and f.name.endswith("::drop"):
                self.drops[f.name[1:].split(" as ")[0]] = f

    def wiped(self, fn):
        """[(paths wiped, state)] for each way through the destructor"""
        me = self

        class H(Hooks):
            def on_call(self, eng, call, args, st):
                if call.name.startswith("zeroize::") and args:
                    st.ev["wiped"] = st.ev.get("wiped", ()) + (args[0],)
                return None
        r = raw.run(self.prog, fn, hooks=H())
        covered("C17", fn.name, r.eng)
        return r

    def kind(self, crate, ti):
        """what a field holds: None (no bytes of a secret), 'bytes', or the path of a struct of this crate"""
        t = self.prog.tys[crate][ti]
        k = t.get("k")
        if k in ("array", "slice", "str"):
            return "bytes"
        if k == "adt":
            if t["p"] == "alloc::boxed::Box" or t["p"] == "core::option::Option":
                return self.kind(crate, t["a"][0])
            if t["p"].startswith("spdmlib::"):
                return t["p"]
            return None if t["p"].startswith("core::marker::") else "bytes"
        return None

    def holds(self, p):
        """does a struct hold bytes at all"""
        a = self.prog.adts.get(p)
        if a is None or a["k"] == "enum":
            return False
        return any(k == "bytes" or k and k != p and self.holds(k) for k in (self.kind(a["crate"], f[1]) for f in a["v"][0]["f"]))

    def why_not(self, p):
        """None if releasing a value of this type wipes it, or what is left"""
        if p in self.memo:
            return self.memo[p]
        a = self.prog.adts.get(p)
        if a is None:
            return f"{p} cannot be found"
        fn = self.drops.get(p)
        r = self.wiped(fn) if fn is not None else None
        why = None
        for name, ti, _ in a["v"][0]["f"]:
            k = self.kind(a["crate"], ti)
            if k is None or k != "bytes" and (not self.holds(k) or self.why_not(k) is None):
                continue
            if r is None:
                why = f"{name} is left as it is: no destructor"
                break
            if not r.outs:
                why = "the destructor does not return"
            for st, v in r.outs:
                if not any(whole(x, name) for x in st.ev.get("wiped", ())):
                    why = f"{name} is not overwritten as a whole on a path through {fn.name}"
            if why:
                break
        self.memo[p] = why
        return why

    def go(self):
        for p in SECRET:
            if p not in self.prog.adts:
                continue
            why = self.why_not(p)
            self.recs.append(Rec("C17", f"{short(p)}: wiped when it is released", why is None, p, why or ""))
        a = self.prog.adts.get(S + "SpdmSession")
        for name, ti, _ in a["v"][0]["f"] if a else ():
            if any(x in name for x in KEPT):
                k = self.kind(a["crate"], ti)
                why = None if k is None else "held as plain bytes" if k == "bytes" else self.why_not(k)
                self.recs.append(Rec("C17", f"session: {name} is wiped when it is released", why is None, S + "SpdmSession", why or ""))
        return self.recs


def whole(x, name):
    """x refers to the field, all of it"""
    t = re.sub(r"#\d+", "", show(x))
    m = re.fullmatch(r"(.*)\[0\.\.len\((.*)\)\]", t)
    if m and m[1].lstrip("&") == m[2].lstrip("&"):      # x[0..x.len()]
        t = m[1]
    return t.lstrip("&") in (f"(*arg(self)).{name}", f"*(*arg(self)).{name}", f"(*(*arg(self)).{name})")


@structural("C17")
def c17(prog, cfg):
    return Wipe(prog).go()
