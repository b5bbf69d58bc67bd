"""C18 C15: key schedule and key update."""
from rulelib import *
from registry import prop, flow, responder, req
from jobs import Job
import domain
from domain import deepall
from interp import State
from r_session import SESSION, selfroot, PHASES, DIRS
from r_sign import tops
from r_resp import Sends, request_codes, header_field, CODE

KS = "spdmlib::common::key_schedule::SpdmKeySchedule::"

prop("C18", "Each derivation of the key schedule, analysed as a function: every hkdf_expand / PSK expand gets as info exactly length | 'spdm x.y ' of the version argument | the DSP0274 label of that derivation | "
     "(if it has one) the transcript hash argument; as key the key argument, or the PSK when use_psk; and the result is what is returned.  In the session, every handshake and application key field "
     "is written with the derivation, the secret and the transcript hash of its own direction and phase, AEAD key and IV with the derivation from its own direction's secret, and the DHE secrets from the shared secret.",
     quick=("A",), expect=[("^derive_", 20), ("^generate_handshake_secret: ", 6), ("^generate_data_secret: ", 6), ("^set_dhe_secret: ", 2), ("DHE", 2)])

EXPAND = r"crypto::hkdf::hkdf_expand$"
PSKHS, PSKMS = r"secret::psk::handshake_secret_hkdf_expand$", r"secret::psk::master_secret_hkdf_expand$"
# derivation: (label, context argument, psk primitive)
DERIVE = {
    "derive_master_secret": (b"derived", None, None),
    "derive_request_handshake_secret": (b"req hs data", "th1", PSKHS),
    "derive_response_handshake_secret": (b"rsp hs data", "th1", PSKHS),
    "derive_finished_key": (b"finished", None, None),
    "derive_request_data_secret": (b"req app data", "th2", PSKMS),
    "derive_response_data_secret": (b"rsp app data", "th2", PSKMS),
    "derive_export_master_secret": (b"exp master", None, PSKMS),
    "derive_update_secret": (b"traffic upd", None, None),
}


def kd(c):
    return [Job(c, KS + n, pol="kd") for n in list(DERIVE) + ["derive_aead_key_iv", "derive_handshake_secret"]]


def lit(t):
    if t.op == "bytes":
        try:
            return bytes(c.a[0] if isinstance(c, T) else c for c in t.a[0])
        except Exception:
            return None
    return None


def info_chunks(t):
    """pieces of an info buffer written from offset 0, if contiguous and complete"""
    s = slice_of(t)
    if s is None or s[1] is not K(0):
        return None
    out, y = [], s[0]
    end = s[2]
    while y.op in ("ext", "enc"):
        if y.op == "ext":
            old, off, data, n = y.a
            if add(off, n) is not end:
                return None
            out.append(data)
            end, y = off, old
        else:
            out.append(("int", y.a[1]))
            if y.a[2] is not K(0) or end is not K(2):
                return None
            y = y.a[0]
            end = K(0)
    out.reverse()
    return out if y.op in ("empty", "rep") and end is K(0) else None


def version_text(t):
    """'spdm x.y ' built from the version argument"""
    if t.op != "upd" or lit(t.a[0]) is None:
        return False
    b = lit(t.a[0])
    if b[:5] != b"spdm " [:5] and b[:4] != b"spdm":
        return False
    # 'spdm' | major | '.' | minor | ' ' in DSP0274's bin_str: "spdm1.1 " (8 bytes)
    got = {}
    for path, v in t.a[1]:
        path = path[-1] if isinstance(path, tuple) and isinstance(path[0], tuple) else path
        got[path[1].a[0] if isinstance(path[1], T) else path[1]] = v
    if set(got) != {4, 6}:
        return False
    isver = lambda x: has_sub(x, lambda y: y is mk("arg", "spdm_version"))
    maj = isver(got[4]) and has_sub(got[4], lambda x: (x.op == "bin" and x.a[0] == "Shr" and x.a[2] is K(4)) or (x.op == "bin" and x.a[0] == "Div" and x.a[2] is K(16))) and has_const(got[4], 48)
    mnr = isver(got[6]) and has_sub(got[6], lambda x: (x.op == "and" and any(a is K(15) for a in x.a)) or (x.op == "bin" and x.a[0] == "Rem" and x.a[2] is K(16))) and has_const(got[6], 48)
    return maj and mnr


def has_const(t, c):
    return lin_parts(t)[0] == c


@flow("C18", kd)
class Derive(Rule):
    def on_call(self, eng, call, args, st):
        n = self.job.name
        if re.search(EXPAND, call.name):
            a = [deepall(eng, st, x) for x in args]
            self.expand(eng, st, n, a[0], a[1], a[2], a[3], call)
        elif re.search(PSKHS + "|" + PSKMS, call.name):
            want = DERIVE.get(n, (None, None, None))[2]
            a = [deepall(eng, st, x) for x in args]
            self.ob(f"{n}: PSK secret used is the one of this phase", want is not None and bool(re.search(want, call.name)), n, f"uses {call.name.split('::')[-1]}")
            self.ob(f"{n}: the PSK is used only in a PSK session", st.truth(mk("arg", "use_psk")) is True, n, "use_psk is not known to hold")
            self.ob(f"{n}: PSK chosen by the session's hint", has_sub(a[2], lambda x: x is mk("arg", "psk_hint")), n, show(a[2])[:120])
            self.info(n, a[3], a[1], a[0])
        elif call.name.endswith("hkdf::hkdf_extract"):
            a = [deepall(eng, st, x) for x in args]
            self.extract(eng, st, n, a)
        return None

    def info(self, n, info, hash_algo, ver=None):
        label, ctx, _ = DERIVE[n]
        ch = info_chunks(info)
        if ch is None or len(ch) < 3:
            self.ob(f"{n}: info is length | version | label | context", False, n, show(info)[:300])
            return
        ln = ch[0][1] if isinstance(ch[0], tuple) else None
        self.ob(f"{n}: info starts with the output length", ln is not None and ln.op == "pure" and ln.a[0].endswith("get_size") and ln.a[1][0] is hash_algo, n, show(ln)[:120] if ln is not None else "")
        self.ob(f"{n}: info carries the SPDM version", isinstance(ch[1], T) and version_text(ch[1]), n, show(ch[1])[:300] if isinstance(ch[1], T) else "")
        self.ob(f"{n}: label '{label.decode()}'", isinstance(ch[2], T) and lit(ch[2]) == label, n, f"label is {lit(ch[2]) if isinstance(ch[2], T) else ch[2]}")
        rest = ch[3:]
        if ctx is None:
            self.ob(f"{n}: no transcript context", not rest, n, "unexpected context " + ", ".join(show(x)[:80] for x in rest))
        else:
            ok = len(rest) == 1 and (rest[0] is mk("arg", ctx) or (rest[0].op == "mem" and rest[0].a[0] == ("D", mk("arg", ctx)) and not rest[0].a[1]))
            self.ob(f"{n}: context is the transcript hash {ctx}", ok, n, ", ".join(show(x)[:120] for x in rest) or "no context")

    def expand(self, eng, st, n, algo, prk, info, size, call):
        if n == "derive_aead_key_iv":
            return self.aead(eng, st, n, algo, prk, info, call)
        if n not in DERIVE:
            self.ob(f"{n}: derivations known", False, n, f"unexpected hkdf_expand in {n}")
            return
        self.ob(f"{n}: negotiated hash algorithm", algo is mk("arg", "hash_algo"), n, show(algo)[:100])
        self.ob(f"{n}: key is the given secret", self.from_arg(prk, "key"), n, show(prk)[:200])
        if DERIVE[n][2] is not None:
            self.ob(f"{n}: the DHE secret is used only outside PSK sessions", st.truth(mk("arg", "use_psk")) is False, n, "use_psk is not known to be false")
        self.ob(f"{n}: output has hash size", size.op == "pure" and size.a[0].endswith("get_size") and size.a[1][0] is mk("arg", "hash_algo"), n, show(size)[:100])
        self.info(n, info, algo)

    def from_arg(self, prk, name):
        """a pseudo random key holding data[..size] of the key argument"""
        roots = set()
        for x in subterms(prk):
            if x.op == "mem" and x.a[0][0] == "D":
                roots |= {y.a[0] for y in subterms(x.a[0][1]) if y.op == "arg"}
            elif x.op == "arg":
                roots.add(x.a[0])
        return roots <= {name, "hash_algo"} and name in roots

    def aead(self, eng, st, n, algo, prk, info, call):
        ch = info_chunks(info)
        if ch is None or len(ch) != 3 or not isinstance(ch[0], tuple):
            self.ob(f"{n}: info is length | version | label", False, n, show(info)[:300])
            return
        label = lit(ch[2])
        want = {b"key": "get_key_size", b"iv": "get_iv_size"}.get(label)
        self.ob(f"{n}: label 'key' or 'iv'", want is not None, n, str(label))
        if want is None:
            return
        ln = ch[0][1]
        self.ob(f"{n}: '{label.decode()}' info starts with the size of the negotiated AEAD", ln.op == "pure" and ln.a[0].endswith(want) and ln.a[1][0] is mk("arg", "aead_algo"), n, show(ln)[:100])
        self.ob(f"{n}: info carries the SPDM version", version_text(ch[1]), n, show(ch[1])[:200])
        self.ob(f"{n}: key is the given secret", self.from_arg(prk, "key"), n, show(prk)[:200])
        self.ob(f"{n}: negotiated hash algorithm", algo is mk("arg", "hash_algo"), n, show(algo)[:100])

    def extract(self, eng, st, n, a):
        salt, ikm = a[1], a[2]
        if n == "derive_handshake_secret":
            s = slice_of(salt)
            b = lit(s[0]) if s else lit(salt)
            ok = (b is not None and not any(b)) or (s is not None and s[0].op == "rep" and s[0].a[0] is K(0))
            sz = s is not None and s[2].op == "pure" and s[2].a[0].endswith("get_size") and s[2].a[1][0] is mk("arg", "hash_algo")
            self.ob(f"{n}: salt is zeros of hash size", ok and sz, n, show(salt)[:200])
            self.ob(f"{n}: DHE shared secret is the input keying material", self.from_arg(ikm, "key") and ikm.op == "agg" and ikm.a[2] == "SpdmDheFinalKey", n, show(ikm)[:200])
        elif n == "derive_master_secret":
            ok = bool(calls_in(salt, EXPAND))
            self.ob(f"{n}: salt is expanded from the handshake secret", ok, n, show(salt)[:200])
            z = ikm.op == "agg" and ikm.a[2] == "SpdmZeroFilled"
            self.ob(f"{n}: input keying material is zeros", z and not calls_in(ikm, "."), n, show(ikm)[:200])
        else:
            self.ob(f"{n}: derivations known", False, n, "unexpected hkdf_extract")
        self.ob(f"{n}: negotiated hash algorithm", a[0] is mk("arg", "hash_algo"), n, show(a[0])[:100])

    def finish(self, run):
        n = self.job.name
        for st, ret in run.outs:
            d = st.val(discr(ret)) if ret.op != "agg" else (1 if ret.a[2] == "Some" else 0)
            if d == 0:
                continue
            v = deepall(run.eng, st, ret.a[3][0]) if ret.op == "agg" else ret
            last = {"derive_handshake_secret": r"hkdf::hkdf_extract$", "derive_master_secret": r"hkdf::hkdf_extract$"}.get(n, "|".join([EXPAND, PSKHS, PSKMS]))
            if n == "derive_aead_key_iv":
                ok = v.op == "agg" and len(v.a[3]) == 2
                for i, lb in ((0, b"key"), (1, b"iv")):
                    x = v.a[3][i] if ok else v
                    cs = self.direct(x, EXPAND)
                    okk = bool(cs) and all(lb == lit(info_chunks(c.a[2][2])[2]) for c in cs if info_chunks(c.a[2][2]))
                    self.ob(f"{n}: result {i} is derived with label '{lb.decode()}'", okk, n, show(x)[:200])
            else:
                cs = self.direct(v, last)
                self.ob(f"{n}: returns what was derived", bool(cs), n, show(v)[:200])

    def direct(self, v, pat):
        """calls matching pat the bytes of v come from (not nested inside other calls)"""
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "call":
                if re.search(pat, x.a[0]):
                    out.append(x)
                continue
            for y in kids(x):
                todo.append(y)
        return out


def kids(x):
    for a in x.a:
        yield from kids_(a)


def kids_(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for b in a:
            yield from kids_(b)


# ------------------------------------------------------------------ use in the session
def ks(*names):
    def f(c):
        return [Job(c, SESSION + "::" + n, pol="ks") for n in names]
    return f


def call_name(c):
    return c.a[0].split("::")[-1]


def whole(v):
    """call (through Some/tuple projection only) that v is the result of; every alternative of a join"""
    out = []
    for x in alts(v):
        proj = []
        y = x
        while y.op == "fld":
            proj.append(y.a[1])
            y = y.a[0]
        if y.op != "call":
            # rebuilt value: a struct of fields of one call
            cs = {z for z in subterms(x) if z.op == "call" and "::derive_" in z.a[0]}
            tops_ = [c for c in cs if not any(c is not d and has_sub(mk("t_", *d.a[2]), lambda q: q is c) for d in cs)]
            if len(tops_) == 1:
                out.append((tops_[0], None))
                continue
            out.append((None, None))
            continue
        idx = [e[1] for e in proj if e[0] == "f" and e[1] in ("0", "1")]
        out.append((y, idx[0] if len(idx) > 1 else None))
    return out


class SesKeys(Rule):
    """which derivation feeds which key of the session"""

    def on_call(self, eng, call, args, st):
        if "::SpdmKeySchedule::derive_" not in call.name:
            return None
        n, j = call.name.split("::")[-1], self.job.name
        fn = call.fn
        named = dict(zip(fn.names[1:], args))
        deep = {k: deepall(eng, st, v) for k, v in named.items() if k}
        if "hash_algo" in deep:
            self.ob(f"{j}: {n} uses the session's hash algorithm", "base_hash_algo" in field_names(deep["hash_algo"]), j, show(deep["hash_algo"])[:100])
        if "aead_algo" in deep:
            self.ob(f"{j}: {n} uses the session's AEAD", "aead_algo" in field_names(deep["aead_algo"]), j, show(deep["aead_algo"])[:100])
        ver = deep.get("spdm_version", deep.get("_spdm_version"))
        if ver is not None:
            self.ob(f"{j}: {n} uses the negotiated version", ver is mk("arg", "spdm_version"), j, show(ver)[:100])
        if "use_psk" in deep:
            self.ob(f"{j}: {n} knows whether this is a PSK session", deep["use_psk"] is eng.rd(st, selfroot(), (F("use_psk"),)) or deep["use_psk"].op == "k", j, show(deep["use_psk"])[:100])
        for th in ("th1", "th2"):
            if th in deep:
                self.ob(f"{j}: {n} is bound to {th}", has_sub(deep[th], lambda x: x.op == "arg" and x.a[0] == th) and self.only_arg(deep[th], th), j, show(deep[th])[:160])
        k = named.get("key")
        if k is not None and n in self.KEYARG:
            want = self.KEYARG[n]
            if k.op == "agg" and k.a[0] == OPT:
                if k.a[2] == "None":
                    self.ob(f"{j}: {n} without DHE secret only in a PSK session", st.val(eng.rd(st, selfroot(), (F("use_psk"),))) == 1, j, "no key given although use_psk is not known to hold")
                    return None
                k = k.a[3][0]
            if k.op == "agg" and k.a[3]:
                k = k.a[3][0]
            if k.op == "ref" and k.a[0] != selfroot():
                inner = eng.rd(st, k.a[0], k.a[1])
                if inner.op == "agg" and inner.a[3] and inner.a[3][0].op == "ref":
                    k = inner.a[3][0]
            names = [e[1] for e in k.a[1] if e[0] == "f"] if k.op == "ref" and k.a[0] == selfroot() else None
            val = eng.rd(st, k.a[0], k.a[1]) if k.op == "ref" else k
            self.keyarg(eng, st, j, n, names, val, want, call)
        return None

    def only_arg(self, t, name):
        return {x.a[0] for x in subterms(t) if x.op == "arg"} == {name}

    KEYARG = {"derive_request_handshake_secret": "dhe_secret_root.handshake_secret", "derive_response_handshake_secret": "dhe_secret_root.handshake_secret",
              "derive_request_data_secret": "dhe_secret_root.master_secret", "derive_response_data_secret": "dhe_secret_root.master_secret",
              "derive_export_master_secret": "dhe_secret_root.master_secret", "derive_finished_key": None, "derive_aead_key_iv": None, "derive_update_secret": None,
              "derive_handshake_secret": None, "derive_master_secret": None}

    def keyarg(self, eng, st, j, n, names, val, want, call):
        if want is not None:
            self.ob(f"{j}: {n} starts from {want}", names is not None and ".".join(names) == want, j, f"starts from {'.'.join(names) if names else show(val)[:120]}")
            return
        src = sorted({call_name(c) for c, i in whole(val) if c is not None})
        st.may = st.may | {("src", call.ctx, tuple(src), tuple(names or ()))}


FIELDS = {
    "generate_handshake_secret": {
        "handshake_secret.request_handshake_secret": ("derive_request_handshake_secret", None),
        "handshake_secret.response_handshake_secret": ("derive_response_handshake_secret", None),
        "handshake_secret.request_finished_key": ("derive_finished_key", "derive_request_handshake_secret"),
        "handshake_secret.response_finished_key": ("derive_finished_key", "derive_response_handshake_secret"),
        "handshake_secret.request_direction.encryption_key": ("derive_aead_key_iv", "derive_request_handshake_secret", "0"),
        "handshake_secret.request_direction.salt": ("derive_aead_key_iv", "derive_request_handshake_secret", "1"),
        "handshake_secret.response_direction.encryption_key": ("derive_aead_key_iv", "derive_response_handshake_secret", "0"),
        "handshake_secret.response_direction.salt": ("derive_aead_key_iv", "derive_response_handshake_secret", "1"),
    },
    "generate_data_secret": {
        "application_secret.request_data_secret": ("derive_request_data_secret", None),
        "application_secret.response_data_secret": ("derive_response_data_secret", None),
        "application_secret.export_master_secret": ("derive_export_master_secret", None),
        "application_secret.request_direction.encryption_key": ("derive_aead_key_iv", "derive_request_data_secret", "0"),
        "application_secret.request_direction.salt": ("derive_aead_key_iv", "derive_request_data_secret", "1"),
        "application_secret.response_direction.encryption_key": ("derive_aead_key_iv", "derive_response_data_secret", "0"),
        "application_secret.response_direction.salt": ("derive_aead_key_iv", "derive_response_data_secret", "1"),
    },
    "set_dhe_secret": {
        "dhe_secret_root.handshake_secret": ("derive_handshake_secret", None),
        "dhe_secret_root.master_secret": ("derive_master_secret", "derive_handshake_secret"),
    },
}


def check_field(rule, eng, st, path, want, j, pre=""):
    v = eng.rd(st, selfroot(), tuple(F(x) for x in path.split(".")))
    n, src = want[0], want[1]
    for c, i in whole(v):
        ok = c is not None and call_name(c) == n
        if ok and len(want) > 2 and i is not None:
            ok = i == want[2]
        why = f"{path} is {show(v)[:160]}"
        if ok and src is not None:
            srcs = {m[2] for m in st.may if isinstance(m, tuple) and m and m[0] == "src" and m[1] == c.a[1]}
            ok = bool(srcs) and all(s == (src,) for s in srcs)
            why = f"{path} is derived by {n} from {sorted(srcs)}, expected {src}"
        rule.ob(f"{j}: {pre}{path}", ok, j, why)


@flow("C18", ks("generate_handshake_secret", "generate_data_secret", "set_dhe_secret"))
class Generate(SesKeys):
    def finish(self, run):
        j = self.job.name
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            for path, want in FIELDS[j].items():
                check_field(self, run.eng, st, path, want, j)


@flow("C18", ks("export_keys"))
class Export(Rule):
    """the keys handed out for use outside the library are those of the direction, request first"""

    def finish(self, run):
        eng = run.eng
        for st, ret in run.outs:
            for i, d in enumerate(("request_direction", "response_direction")):
                for name in ("encryption_key", "salt", "sequence_number"):
                    v = fld(fld(ret, ("f", str(i))), F(name))
                    want = eng.rd(st, selfroot(), (F("application_secret"), F(d), F(name)))
                    while v.op == "call" and v.a[0].endswith("::clone"):
                        v = v.a[2][0]
                    self.ob(f"export_keys: {name} of the {d.replace('_', ' ')}", deepall(eng, st, v) is deepall(eng, st, want), self.job.name, show(v)[:200])


class SharedSecret(Rule):
    """the session's DHE secret is computed from this handshake's key pair and the peer's exchange data"""

    def on_call(self, eng, call, args, st):
        if call.name == SESSION + "::set_dhe_secret":
            v = deepall(eng, st, args[2])
            if v.op == "agg" or v.op == "call" or v.op == "fld":
                c = tops(v)
                ok = c is not None and "compute_final_key" in c.a[0]
                self.ob(f"{self.job.name}: DHE secret is the result of the key agreement", ok, call.where(), show(v)[:200])
                if ok:
                    prv, peer = c.a[2][0], c.a[2][1]
                    self.ob(f"{self.job.name}: DHE: own private key of this exchange", has_sub(prv, lambda x: x.op == "call" and x.a[0].endswith("generate_key_pair")), call.where(), show(prv)[:160])
                    self.ob(f"{self.job.name}: DHE: exchange data of the peer's message", received(peer) and "exchange" in "".join(sorted(all_fields(peer))), call.where(), show(peer)[:160])
            else:
                self.ob(f"{self.job.name}: DHE secret is the result of the key agreement", False, call.where(), show(v)[:200])
        return None


def all_fields(t):
    out = set()
    for x in subterms(t):
        if x.op == "fld" and x.a[1][0] == "f":
            out.add(x.a[1][1])
        elif x.op in ("mem", "ref"):
            out |= {e[1] for e in x.a[1] if e[0] == "f"}
    return out


flow("C18", responder)(SharedSecret)
flow("C18", req("send_receive_spdm_key_exchange"))(SharedSecret)


# ------------------------------------------------------------------ C15 key update
prop("C15", "create_data_secret_update: for each direction asked for, the new secret is derive_update_secret of that direction's current secret, key and IV are derived from the new secret, the counter restarts at 0 "
     "and secret and direction are saved first; the other direction is left alone.  activate_data_secret_update: undoing restores exactly the directions asked for, keeping changes no key in use.  Responder: a "
     "KEY_UPDATE_ACK is sent only after exactly the update its operation asks for succeeded in the session the request came in, and mirrors operation and tag.  Requester: keys change only after the request was "
     "sent, with the directions of the operation; new keys are kept only after a KEY_UPDATE_ACK, and otherwise undone.",
     quick=("A",), expect=[("^create: ", 9), ("^activate: ", 6), ("^responder: ", 5), ("^requester: ", 5)])

APP, BAK = "application_secret", "application_secret_backup"
SIDES = {"update_requester": "request", "update_responder": "response"}


def at0(*names):
    """value of a session field when the function was entered"""
    return ("mem", selfroot(), tuple(F(x) for x in names))


def initial(v, *names):
    """does v denote the field's value at entry?  (also a struct rebuilt field by field from it)"""
    want = tuple(F(x) for x in names)
    if v.op == "mem" and v.a[0] == selfroot() and tuple(v.a[1]) == want:
        return True
    if v.op == "agg" and v.a[3]:
        fs = [x for x in (None,)]
        for i, x in enumerate(v.a[3]):
            ok = x.op == "mem" and x.a[0] == selfroot() and tuple(x.a[1][:-1]) == want and field_index(v.a[0], x.a[1][-1][1]) == i
            if not ok:
                return False
        return True
    return False


@flow("C15", ks("create_data_secret_update"))
class Create(SesKeys):
    def keyarg(self, eng, st, j, n, names, val, want, call):
        st.may = st.may | {("from", call.ctx, val)}

    def finish(self, run):
        eng = run.eng
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            for arg, d in SIDES.items():
                t = st.truth(mk("arg", arg))
                rd = lambda *p: eng.rd(st, selfroot(), tuple(F(x) for x in p))
                sec, dr = d + "_data_secret", d + "_direction"
                if t is not True:
                    same = initial(rd(APP, sec), APP, sec) and initial(rd(APP, dr), APP, dr)
                    self.ob(f"create: {d} keys untouched unless asked for", same, self.job.name, f"{sec} is {show(rd(APP, sec))[:100]}, {dr} is {show(rd(APP, dr))[:100]}")
                if t is not False:
                    new = rd(APP, sec)
                    for c, i in whole(new):
                        ok = c is not None and call_name(c) == "derive_update_secret"
                        self.ob(f"create: {sec} is derived by derive_update_secret", ok, self.job.name, show(new)[:160])
                        src = self.source(st, c)
                        self.ob(f"create: {sec} is derived from the current {sec}", ok and src and all(initial(s, APP, sec) for s in src), self.job.name, ", ".join(show(s)[:100] for s in src) or "?")
                    for f, ix in (("encryption_key", "0"), ("salt", "1")):
                        v = rd(APP, dr, f)
                        for c, i in whole(v):
                            ok = c is not None and call_name(c) == "derive_aead_key_iv" and i in (ix, None)
                            self.ob(f"create: {dr}.{f} is derived by derive_aead_key_iv", ok, self.job.name, show(v)[:160])
                            src = self.source(st, c)
                            self.ob(f"create: {dr}.{f} is derived from the new {sec}", ok and src and all(s is new for s in src), self.job.name, ", ".join(show(s)[:100] for s in src) or "?")
                    self.ob(f"create: {dr} counts from 0 again", rd(APP, dr, "sequence_number") is K(0), self.job.name, show(rd(APP, dr, "sequence_number"))[:100])
                    for x in (sec, dr):
                        self.ob(f"create: {x} saved", initial(rd(BAK, x), APP, x), self.job.name, f"backup is {show(rd(BAK, x))[:200]}")

    def source(self, st, c):
        return [m[2] for m in st.may if isinstance(m, tuple) and m and m[0] == "from" and c is not None and m[1] == c.a[1]]


@flow("C15", ks("activate_data_secret_update"))
class Activate(Rule):
    def finish(self, run):
        eng = run.eng
        for st, ret in run.outs:
            if not may_ok(st, ret):
                continue
            keep = st.truth(mk("arg", "use_new_key"))
            for arg, d in SIDES.items():
                t = st.truth(mk("arg", arg))
                for x in (d + "_data_secret", d + "_direction"):
                    v = eng.rd(st, selfroot(), (F(APP), F(x)))
                    if keep is not False or t is not True:
                        self.ob(f"activate: {x} stays when kept or not asked for", initial(v, APP, x) or (keep is None and t is None), self.job.name, show(v)[:160])
                    if keep is not True and t is not False:
                        self.ob(f"activate: {x} is restored when undone", initial(v, BAK, x), self.job.name, show(v)[:160])


KUOP = "spdmlib::message::key_update::SpdmKeyUpdateOperation"
KUFLAGS = {"SpdmUpdateSingleKey": (True, False), "SpdmUpdateAllKeys": (True, True), "SpdmVerifyNewKey": (True, False)}


def ku_call(st, name, args):
    """(name, flags...) of a call of create_/activate_data_secret_update"""
    return (name,) + tuple(st.truth(a) if a.op != "k" else bool(a.a[0]) for a in args)


def ku_calls(st):
    """key update steps known to have succeeded, as (loc, name, flags...)"""
    out = []
    for t, f in st.facts.items():
        if isinstance(t, T) and t.op == "discr" and t.a[0].op == "call":
            c = t.a[0]
            n = call_name(c)
            if n in ("create_data_secret_update", "activate_data_secret_update"):
                out.append((c.a[2][0], f == ("=", 0), ku_call(st, n, c.a[2][2:])))
    return out


@flow("C15", responder)
class KuResponder(Sends):
    def on_call(self, eng, call, args, st):
        n = call.name.split("::")[-1]
        if n in ("create_data_secret_update", "activate_data_secret_update"):
            st.may = st.may | {("ku", ku_call(st, n, [deepall(eng, st, a) for a in args[2:]]))}
            rq = request_codes(st, self)
            self.ob("responder: session keys are updated only for KEY_UPDATE", rq == {"SpdmRequestKeyUpdate"}, where(call), f"request known on this path: {sorted(map(str, rq))}")
        return super().on_call(eng, call, args, st)

    def send(self, eng, call, st, o, w):
        if o.code != "SpdmResponseKeyUpdateAck":
            return
        op, tag = o.field("key_update_operation"), o.field("tag")
        same = lambda t, n: t is not None and t.op == "fld" and t.a[1] == F(n) and root_call(t, "SpdmKeyUpdateRequestPayload")
        self.ob("responder: KEY_UPDATE_ACK mirrors the tag", same(tag, "tag"), w, show(tag)[:160] if tag is not None else "no tag")
        d = st.val(discr(op)) if op is not None and op.op != "agg" else dv_of(op) if op is not None else None
        rd_ = [(t, f[1]) for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and f[0] == "=" and same(t.a[0], "key_update_operation")]
        v = self.vname(KUOP, d) if d is not None else None
        self.ob("responder: KEY_UPDATE_ACK mirrors the operation", op is not None and (same(op, "key_update_operation") or (rd_ and all(x == d for _, x in rd_))), w, show(op)[:160] if op is not None else "none")
        if v not in KUFLAGS:
            self.ob("responder: operation acknowledged is one of SPDM's", False, w, f"operation on this path: {v}")
            return
        fl = KUFLAGS[v]
        want = {"SpdmUpdateSingleKey": {("create_data_secret_update",) + fl}, "SpdmUpdateAllKeys": {("create_data_secret_update",) + fl, ("activate_data_secret_update",) + fl + (True,)},
                "SpdmVerifyNewKey": {("activate_data_secret_update",) + fl + (True,)}}[v]
        done = ku_calls(st)
        good = {c for _, ok, c in done if ok}
        tried = {m[1] for m in st.may if isinstance(m, tuple) and m and m[0] == "ku"}
        self.ob(f"responder: {v} acknowledged after exactly its update succeeded", good == want and tried == want, w, f"done {sorted(map(str, good))}, tried {sorted(map(str, tried))}, expected {sorted(map(str, want))}")
        locs = {l.a[0] for l, ok, c in done if l.op == "loc"}
        self.ob(f"responder: {v} updates the session the request came in", o.secured and locs == {o.session.a[0]}, w, f"{len(locs)} session(s) updated")


def root_call(t, part):
    while t.op == "fld":
        t = t.a[0]
    return t.op in ("call", "pure") and part in t.a[0]


@flow("C15", req("send_receive_spdm_key_update"))
class KuRequester(Sends):
    def on_call(self, eng, call, args, st):
        n = call.name.split("::")[-1]
        if n == "create_data_secret_update":
            fl = ku_call(st, n, [deepall(eng, st, a) for a in args[2:]])[1:]
            m = [x for x in st.may if isinstance(x, tuple) and x and x[0] == "kusent"]
            op = m[-1][1] if m else None
            for x in m:
                ok = x[1] in KUFLAGS
                want = KUFLAGS.get(x[1])
                if x[1] == "SpdmVerifyNewKey":
                    want = (False, False)
                self.ob(f"requester: {x[1]} updates its directions", ok and fl == want, where(call), f"updates {fl}, expected {want}")
            sent = bool(succeeded(st, self.prog, r"SpdmDeviceIo::send$"))
            self.ob("requester: keys are updated only after KEY_UPDATE was sent", sent and bool(m), where(call), "no successful send of KEY_UPDATE on this path")
            outs = domain.SESSION[n](eng, call, args, st)
            for s, r in outs:
                s.may = drop(s, "kudone", "kugone")
                if may_ok(s, r):
                    s.may = s.may | {("kudone", fl)}
            return outs
        elif n == "activate_data_secret_update":
            c = ku_call(st, n, [deepall(eng, st, a) for a in args[2:]])
            cr = {x[1] for x in st.may if isinstance(x, tuple) and x and x[0] == "kudone"}
            self.ob("requester: new keys are kept or undone for the directions updated", cr == {c[1:3]} or ("kugone",) in st.may, where(call), f"created {cr}, activated {c[1:3]}")
            if c[3] is not False:
                got = {self.vname(CODE, f[1]) for t, f in st.facts.items() if isinstance(t, T) and t.op == "discr" and f[0] == "=" and header_field(t.a[0], "request_response_code") is not None}
                self.ob("requester: new keys are kept only after KEY_UPDATE_ACK", "SpdmResponseKeyUpdateAck" in got, where(call), f"received on this path: {sorted(map(str, got))}")
            st.may = drop(st, "kusent", "kudone") | {("kuundo" if c[3] is False else "kukept", c[1:3])}
        return super().on_call(eng, call, args, st)

    def send(self, eng, call, st, o, w):
        if o.code != "SpdmRequestKeyUpdate":
            return
        op = o.field("key_update_operation")
        d = None if op is None else st.val(discr(op)) if op.op != "agg" else dv_of(op)
        v = self.vname(KUOP, d) if d is not None else None
        self.ob("requester: KEY_UPDATE is sent in a session with a known operation", o.secured and v in KUFLAGS, w, f"operation {v}")
        st.may = drop(st, "kusent", "kudone", "kuundo", "kukept", "kugone") | {("kusent", v)}

    def on_write(self, eng, st, fr, root, path, v, span):
        if path and path[-1] == F("session_id") and v is K(0) and root[0] == "SES":
            st.may = drop(st, "kudone") | {("kugone",)}

    def finish(self, run):
        for st, ret in run.outs:
            ms = {x[0] for x in st.may if isinstance(x, tuple) and x}
            if may_ok(st, ret):
                self.ob("requester: success only with the new keys kept", "kukept" in ms and "kuundo" not in ms, self.job.name, str(ms))
            self.ob("requester: an update that was not acknowledged is undone", "kudone" not in ms, self.job.name, "may return with keys updated that were neither acknowledged nor undone: " + str(ms))


def drop(st, *kinds):
    return frozenset(x for x in st.may if not (isinstance(x, tuple) and x and x[0] in kinds))
