"""C24: decoders are total and what they return is consistent. C33: certificate format check."""
from rulelib import *
from registry import prop, structural, covered
from jobs import Rec
from interp import Limit
import raw, num
from lin import Lin

prop("C24", "Every implementation of Codec::read and SpdmCodec::spdm_read is followed for symbolic bytes, any negotiated parameters and any position of the reader inside its buffer; each index, slice, copy, "
     "subtraction, narrow addition, shift, division, unwrap and explicit panic on any path is an obligation decided with linear arithmetic over the facts of the path; for every struct returned, each size, length or count "
     "field is shown not to exceed the array it belongs to. Nested decoders that are entries of their own are summarised.", level="proof",
     expect=[("decoder of ", 100)])

# decoders that are large and entries of their own: summarised when met inside another one
NESTED = ("SpdmDigestStruct", "SpdmSignatureStruct", "SpdmDheExchangeStruct", "SpdmMeasurementBlockStructure", "OpaqueElementDMTFSupportedVersion", "SpdmMeasurementRecordStructure")
# (struct, field) whose users check the count themselves
CHECKED_LATER = {("SecuredMessageVersionList", "version_count")}
SIZES = ("size", "length", "len", "count", "elements")


def decoders(prog):
    out = []
    for f in prog.fns.values():
        if "closure" in f.name:
            continue
        if f.trait == "spdmlib::common::spdm_codec::SpdmCodec" and f.name.endswith("::spdm_read") or f.trait == "codec::codec::Codec" and f.name.endswith("::read"):
            out.append(f)
    return sorted(out, key=lambda f: f.name)


def kind_of(prog, fn):
    return fn.name[1:].split(" as ")[0]


def capacity(prog, crate, t):
    ty = prog.tys[crate][t]
    if ty["k"] == "array" and isinstance(ty["n"], int):
        return ty["n"]
    if ty["k"] == "adt" and ty["p"].endswith("boxed::Box") and ty["a"]:
        return capacity(prog, crate, ty["a"][0])
    return None


def pairs(prog, path):
    """(index of the field, name of the size in it if that is a header, name of the size, capacity of the array) of a struct"""
    a = prog.adts.get(path)
    if not a or a["k"] != "struct":
        return []
    crate = a.get("crate") or path.split("::")[0]
    fs = a["v"][0]["f"]
    out = []
    for i, (n, t, _) in enumerate(fs):
        ty = prog.tys[crate][t]
        inner = None
        h = prog.adts.get(ty.get("p")) if ty["k"] == "adt" else None
        if h and h["k"] == "struct" and ty["p"] != "codec::codec::u24" and len(h["v"][0]["f"]) == 1:
            # a header with nothing but the number
            (n, t, _), = h["v"][0]["f"]
            ty = prog.tys[h.get("crate") or path.split("::")[0]][t]
            inner = n
        num_ = ty["k"] == "uint" or ty["k"] == "adt" and ty["p"] == "codec::codec::u24"
        if not num_ or n.split("_")[-1] not in SIZES or n.startswith(("remain", "max_")) or (path.split("::")[-1], n) in CHECKED_LATER:
            continue
        # the array that follows, perhaps after other numbers
        for m, u, _ in fs[i + 1:]:
            c = capacity(prog, crate, u)
            if c is not None:
                out.append((i, inner, n, c))
            elif prog.tys[crate][u]["k"] == "uint" and m.startswith("remain"):
                continue
            break
    return out


def expected(prog, path, seen=()):
    """(name, struct) of the sizes a value of this type holds, outside of arrays and nested decoders' types"""
    a = prog.adts.get(path)
    if not a or path in seen or a["k"] != "struct":
        return
    crate = a.get("crate") or path.split("::")[0]
    for _, _, n, _ in pairs(prog, path):
        yield n, path.split("::")[-1]
    for _, t, _ in a["v"][0]["f"]:
        ty = prog.tys[crate][t]
        if ty["k"] == "adt" and ty["p"].split("::")[-1] not in NESTED:
            yield from expected(prog, ty["p"], (*seen, path))


def parts(v):
    """(type, fields) of the struct values inside a value"""
    b = v
    while b.op == "upd" or b.op == "phi" and len(b.a) == 3 and isinstance(b.a[1], T):
        b = b.a[0] if b.op == "upd" else b.a[1]
    if b.op == "agg":
        fs = b.a[3]
        a = ADTS.get(b.a[0])
        if v is not b and a and a["k"] == "struct":
            fs = [fld(v, ("f", f[0])) for f in a["v"][0]["f"]]
        elif v is not b and b.a[0] == "tuple":
            fs = [fld(v, F(i)) for i in range(len(fs))]
        elif v is not b:
            fs = [fldp(v, (V(b.a[2]), F(0)))] if len(fs) == 1 else []
        yield b.a[0], fs
        for x in fs:
            yield from parts(x)


def decode(prog, fn, b, budget):
    h = raw.Total()
    r = raw.run(prog, fn, hooks=h, b=b, unroll=32, pol=raw.dec_policy(prog, fn, [n + " as" for n in NESTED]), max_steps=budget)
    obs = dict(h.obs)
    some = 0
    for st, v in r.outs:
        if v.op == "agg" and v.a[2] == "None":
            continue
        some += 1
        for x in parts(v):
            for i, inner, n, cap in pairs(prog, x[0]):
                t = x[1][i]
                if inner:
                    t = t.a[3][0] if t.op == "agg" else fld(t, ("f", inner))
                if t.op == "agg" and len(t.a[3]) == 1:
                    t = t.a[3][0]
                k = (f"{n} within its array", x[0].split("::")[-1])
                l = Lin(st)
                ok = l.proves_le(t, K(cap)) or l.unsat()
                if k not in obs or (obs[k][0] and not ok):
                    obs[k] = (ok, f"{n} = {show(t)[:150]} may exceed {cap}")
    return r, obs, some


@structural("C24")
def c24(prog, cfg):
    recs = []
    for fn in decoders(prog):
        name = kind_of(prog, fn)
        short = name.split("::")[-1]
        bad, err, r, obs, some = None, None, None, {}, 0
        for b, budget in ((12, 60_000), (4096, 60_000)):
            try:
                r, obs, some = decode(prog, fn, b, budget)
                err = None
            except Limit as x:
                err = str(x)
                continue
            if all(ok for ok, _ in obs.values()):
                break
        if err and r is None:
            recs.append(Rec("C24", f"decoder of {short}: analysed", False, fn.name, err))
            continue
        covered("C24", fn.name, r.eng)
        recs.append(Rec("C24", f"decoder of {short}: accepts something", some > 0, fn.name, "" if some else "no path returns a value"))
        for n, t in expected(prog, name):
            if (f"{n} within its array", t) not in obs:
                recs.append(Rec("C24", f"decoder of {short}: {n} within its array ({t})", False, fn.name, "no decoded value was seen"))
        for (what, w), (ok, why) in obs.items():
            recs.append(Rec("C24", f"decoder of {short}: {what} ({w.split('::')[-1]})", ok, fn.name, "" if ok else f"in {w}: {why}"))
    return recs


# ---------------------------------------------------------------- C33

prop("C33", "The length decoder is run once per value of the first octet and compared with the DER definition; the certificate check is followed for symbolic bytes once per asymmetric algorithm, with the decoded lengths as "
     "unknowns: on each accepting path the bytes that are known and the sum of the parts are compared with the X.509 layout; the chain loop is followed for up to three certificates without merging and, for panics, with "
     "loop joins. Every index, slice, subtraction and addition on the way is an obligation.", level="proof",
     expect=[("length: ", 3), ("certificate: ", 8), ("chain: ", 3), ("no panic: ", 8)])

X509 = "::x509v3::"
CHAIN = "spdmlib::crypto::x509v3::check_cert_chain_format"
# algorithm bit (DSP0274 BaseAsymAlgo) -> object identifier of the certificate signature
RSA256, RSA384, RSA512 = (42, 134, 72, 134, 247, 13, 1, 1, 11), (42, 134, 72, 134, 247, 13, 1, 1, 12), (42, 134, 72, 134, 247, 13, 1, 1, 13)
EC256, EC384 = (42, 134, 72, 206, 61, 4, 3, 2), (42, 134, 72, 206, 61, 4, 3, 3)
ALGS = {0x1: ("RSASSA_2048", RSA256), 0x2: ("RSAPSS_2048", RSA256), 0x4: ("RSASSA_3072", RSA384), 0x8: ("RSAPSS_3072", RSA384), 0x10: ("ECDSA_P256", EC256),
        0x20: ("RSASSA_4096", RSA512), 0x40: ("RSAPSS_4096", RSA512), 0x80: ("ECDSA_P384", EC384)}


def ret(prog, fn):
    """payload type of the Result a function returns"""
    T_ = prog.tys[fn.crate]
    r = T_[fn.locals[0]]
    if r["k"] == "adt" and r["p"] == RES_ and r["a"]:
        return T_[r["a"][0]]
    return {}


RES_ = "core::result::Result"


def is_usize(t):
    return t.get("k") == "uint" and t.get("b") == 64


def takes(prog, fn, *kinds):
    T_ = prog.tys[fn.crate]
    if fn.argc != len(kinds):
        return False
    for i, k in enumerate(kinds):
        t = T_[fn.locals[i + 1]]
        if k == "bytes":
            e = T_[t["e"]] if t["k"] == "ref" else {}
            if not (e.get("k") == "slice" and T_[e["e"]].get("k") == "uint" and T_[e["e"]].get("b") == 8):
                return False
        elif not (t["k"] == "adt" and t["p"] == k):
            return False
    return True


ASYM = "spdmlib::protocol::algo::SpdmBaseAsymAlgo"


def x509_fns(prog):
    fs = [f for f in prog.fns.values() if X509 in f.name and "closure" not in f.name]
    tup = lambda f: ret(prog, f).get("k") == "tuple" and len(ret(prog, f)["a"]) == 2 and all(is_usize(prog.tys[f.crate][x]) for x in ret(prog, f)["a"])
    length = [f for f in fs if takes(prog, f, "bytes") and tup(f)]
    chain = [f for f in fs if f.name == CHAIN]
    called = {c for f in chain for c in callees(f)}
    cert = [f for f in fs if f.id in called and takes(prog, f, "bytes", ASYM) and is_usize(ret(prog, f))]
    return fs, length, cert, chain


def callees(fn):
    out = set()
    for _, t in fn.bbs:
        if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            out.add(t[1][1].get("r", t[1][1]["fn"]))
    return out


def start_of(ref):
    """offset of a slice reference in the buffer behind it"""
    t = K(0)
    for e in ref.a[1] if ref.op == "ref" else ():
        if e[0] == "sl":
            t = add(t, e[1])
    return t


class CertCheck:
    def __init__(self, prog, pid):
        self.prog, self.pid, self.recs = prog, pid, {}

    def ob(self, key, ok, where, why=""):
        r = self.recs.get(key)
        if r is None:
            self.recs[key] = Rec(self.pid, key, bool(ok), where, "" if ok else why)
        elif r.ok and not ok:
            r.ok, r.why = False, why
        return ok

    def run(self, fn, key, **kw):
        h = raw.Total(wide=True)
        r = raw.run(self.prog, fn, hooks=h, **kw)
        covered(self.pid, fn.name, r.eng)
        for (what, w), (ok, why) in h.obs.items():
            self.ob(f"no panic: {w.split('::')[-1]}: {what}", ok, w, why)
        return r

    def length(self, fn):
        """the DER length: (greatest accepted length, most octets)"""
        top, oct_ = 127, 1
        for v in range(256):
            a = mk("arg", "data")
            r = self.run(fn, "length", args=[a], setup=lambda e, st, args: raw.const_bytes(a, [v])(e, st), unroll=16)
            n = v & 0x7f if v & 0x80 else 0
            oks = 0
            for st, x in r.outs:
                l = Lin(st)
                L = r.eng.length(st, a)
                if x.a[2] == "Ok":
                    oks += 1
                    val, used = x.a[3][0].a[3]
                    if v < 0x80:
                        self.ob("length: one octet", val is K(v) and used is K(1), fn.name, f"first octet {v}: {show(val)[:80]}, {show(used)}")
                    else:
                        want = K(0)
                        for i in range(n):
                            want = add(scale(want, 256), fld(r.eng.content(st, a), ("i", K(1 + i))))
                        ok = 0 < n and used is K(n + 1) and (val is want or l.proves_eq(val, want))
                        self.ob("length: several octets", ok, fn.name, f"first octet {v:#x}: length {show(val)[:150]}, octets {show(used)[:60]}")
                        top, oct_ = max(top, 256 ** n - 1), max(oct_, n + 1)
                    self.ob("length: its octets are there", l.proves_le(used, L), fn.name, f"first octet {v:#x} accepted with {show(used)} octets of {show(L)}")
                elif v < 0x80 or n in (1, 2):
                    self.ob("length: refused only if incomplete", l.unsat([sub(L, K(n + 1))]), fn.name, f"first octet {v:#x} is refused although its octets are there")
            self.ob("length: lengths below 64 KiB are understood", oks > 0 or not (v < 0x80 or n in (1, 2)), fn.name, f"first octet {v:#x} is always refused")
        return top, oct_

    def contract(self, top, octs):
        def m(eng, call, args, st):
            val, used = eng.fresh(call, st, "length", ()), eng.fresh(call, st, "octets", ())
            bad = st.copy()
            for t, lo, hi in ((val, 0, top), (used, 1, octs)):
                st.assume(lt(t, K(lo)), False)
                st.assume(lt(K(hi), t), False)
            st.assume(lt(eng.length(st, args[0]), used), False)
            st.ev["lengths"] = st.ev.get("lengths", ()) + ((start_of(args[0]), val, used),)
            return [(bad, ERR_(mk("hv", ("refused", call.ctx)))), (st, AGG(RES_, 0, "Ok", (AGG("tuple", 0, "tuple", (val, used)),)))]
        return m

    def cert(self, fn, lens):
        def pol(f):
            return lens if f.id == self.len_id else raw.policy(f)
        for bits, (alg, oid) in list(ALGS.items()) + [(0, ("none", None))]:
            a, g = mk("arg", "cert"), mk("arg", "algo")

            def su(eng, st, args):
                st.assume_eq(fld(g, ("f", "bits")), bits)
            r = self.run(fn, "certificate", args=[a, g], setup=su, pol=pol, peel=16)
            n = 0
            for st, x in r.outs:
                if x.a[2] != "Ok":
                    continue
                n += 1
                self.layout(r, st, a, x.a[3][0], alg, oid, fn)
            self.ob(f"certificate: {alg} is accepted" if oid else "certificate: any algorithm is accepted", n > 0, fn.name, "every path refuses")

    def layout(self, r, st, a, c, alg, oid, fn):
        l = Lin(st)
        buf = r.eng.content(st, a)
        total = r.eng.length(st, a)
        eq_ = lambda x, y: x is y or l.proves_eq(x, y)
        byte = lambda at, v: st.val(fld(buf, ("i", at))) == v
        lens = st.ev.get("lengths", ())
        at = lambda off: next(((v, u) for o, v, u in lens if eq_(o, off)), None)
        w = fn.name
        L1 = at(K(1))
        if not self.ob("certificate: a SEQUENCE with its length", L1 is not None and byte(K(0), 0x30), w, "the outer SEQUENCE is not checked"):
            return
        t = add(K(1), L1[1])
        self.ob("certificate: fits what was received", l.proves_le(c, total), w, f"{show(c)[:150]} bytes of {show(total)[:80]}")
        self.ob("certificate: ends where its length says", eq_(c, add(t, L1[0])), w, f"size {show(c)[:200]} for header {show(t)} and body {show(L1[0])}")
        L2 = at(add(t, K(1)))
        if not self.ob("certificate: to-be-signed part is a SEQUENCE", L2 is not None and byte(t, 0x30), w, "the tag after the header is not checked"):
            return
        v = add(add(t, K(1)), L2[1])
        self.ob("certificate: version 3", all(byte(add(v, K(i)), b) for i, b in enumerate((0xa0, 3, 2, 1, 2))), w, "version bytes are not all checked")
        s = add(v, L2[0])
        L3 = at(add(s, K(1)))
        if not self.ob("certificate: signature algorithm follows it", L3 is not None and byte(s, 0x30), w, "no SEQUENCE is required right after the to-be-signed part"):
            return
        o = add(add(s, K(1)), L3[1])
        self.ob("certificate: signature algorithm has an object identifier", byte(o, 6), w, "tag of the identifier is not checked")
        u = add(o, L3[0])
        L4 = at(add(u, K(1)))
        if self.ob("certificate: signature follows", L4 is not None, w, "no value right after the signature algorithm"):
            self.ob("certificate: nothing between or behind its parts", eq_(c, add(add(add(u, K(1)), L4[1]), L4[0])), w, f"size {show(c)[:200]}")
        # identifier inside the to-be-signed part, behind version and serial number
        p = add(v, K(5))
        L5 = at(add(p, K(1)))
        if not self.ob("certificate: serial number follows the version", L5 is not None, w, "no value right after the version"):
            return
        q = add(add(add(p, K(1)), L5[1]), L5[0])
        L6 = at(add(q, K(1)))
        if not self.ob("certificate: inner signature algorithm follows the serial number", L6 is not None and byte(q, 0x30), w, "no SEQUENCE right after the serial number"):
            return
        i = add(add(q, K(1)), L6[1])
        self.ob("certificate: inner signature algorithm has an object identifier", byte(i, 6), w, "tag of the identifier is not checked")
        e = add(i, L6[0])
        for nm in ("issuer", "validity", "subject", "public key"):
            L7 = at(add(e, K(1)))
            if not self.ob(f"certificate: {nm} is a SEQUENCE in its place", L7 is not None and byte(e, 0x30), w, "not checked"):
                return
            e = add(add(add(e, K(1)), L7[1]), L7[0])
        leaf = not l.unsat([sub(c, total)])  # it may be the last one
        if oid and leaf:
            for nm, off in (("inner ", i), ("", o)):
                ok = byte(add(off, K(1)), len(oid)) and all(byte(add(off, K(2 + j)), b) for j, b in enumerate(oid))
                self.ob(f"certificate: the last one is signed with {alg} ({nm}identifier)", ok, w, "a last certificate with another signature algorithm is accepted")

    def chain(self, fn, cert):
        def m(eng, call, args, st):
            size = eng.fresh(call, st, f"size at {start_of(args[0]).id}", ())
            bad = st.copy()
            st.assume(lt(size, K(1)), False)
            st.assume(lt(eng.length(st, args[0]), size), False)
            st.ev["certs"] = st.ev.get("certs", ()) + ((start_of(args[0]), size),)
            return [(bad, ERR_(mk("hv", ("refused", call.ctx)))), (st, AGG(RES_, 0, "Ok", (size,)))]
        pol = lambda f: m if f.id == cert.id else raw.policy(f)
        self.run(fn, "chain", pol=pol, b=12)
        a, g = mk("arg", "chain"), mk("arg", "algo")
        r = self.run(fn, "chain", args=[a, g], pol=pol, peel=3)
        seen = set()
        for st, x in r.outs:
            if x.a[2] != "Ok":
                continue
            cs = st.ev.get("certs", ())
            l = Lin(st)
            pos = K(0)
            for o, size in cs:
                self.ob("chain: each certificate starts where the one before ends", l.proves_eq(o, pos), fn.name, f"starts at {show(o)[:100]}, expected {show(pos)[:100]}")
                pos = add(pos, size)
            self.ob("chain: accepted only if nothing is left over", l.proves_eq(pos, r.eng.length(st, a)), fn.name, f"{show(pos)[:150]} of {show(r.eng.length(st, a))[:80]}")
            self.ob("chain: the number of certificates is returned", x.a[3][0] is K(len(cs)), fn.name, f"{show(x.a[3][0])} for {len(cs)}")
            seen.add(len(cs))
        self.ob("chain: one to three certificates are accepted", {1, 2, 3} <= seen, fn.name, f"accepting paths with {sorted(seen)} certificates")


def ERR_(x):
    return AGG(RES_, 1, "Err", (x,))


@structural("C33")
def c33(prog, pid):
    fs, length, cert, chain = x509_fns(prog)
    if len(length) != 1 or len(cert) != 1 or len(chain) != 1:
        raise Exception(f"length decoders {[f.name for f in length]}, certificate checks {[f.name for f in cert]}, chain checks {[f.name for f in chain]}")
    x = CertCheck(prog, pid)
    top, octs = x.length(length[0])
    x.len_id = length[0].id
    x.cert(cert[0], x.contract(top, octs))
    x.chain(chain[0], cert[0])
    return list(x.recs.values())
