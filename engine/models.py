"""Models of core/alloc functions used by the analysed crates."""
from terms import *
import fill

EXT = {}


def model(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def split(eng, st, t, kind):
    """case split on an Option/Result value: [(state, is_success, payload)]"""
    good, bad = ("Some", "None") if kind == "opt" else ("Ok", "Err")
    gi, bi = (1, 0) if kind == "opt" else (0, 1)
    if t.op == "agg":
        if t.a[2] == good:
            return [(st, True, t.a[3][0])]
        return [(st, False, t.a[3][0] if t.a[3] else None)]
    out = []
    d = discr(t)
    s = st.copy()
    if s.assume_eq(d, gi):
        out.append((s, True, fldp(t, (V(good), F(0)))))
    if st.assume_eq(d, bi):
        out.append((st, False, fldp(t, (V(bad), F(0))) if kind == "res" else None))
    return out


def kind_of(call):
    n = call.rid if "option" in call.rid else call.tname
    return "opt" if "option" in n else "res"


def mkgood(kind, x):
    return SOME(x) if kind == "opt" else OK(x)


def mkbad(kind, e):
    return NONE if kind == "opt" else ERR(e)


def note(eng, call, t):
    eng.note_test(discr(t), call.fr, call.bb)


for _k in ("opt", "res"):
    _p = "core::option::Option" if _k == "opt" else "core::result::Result"
    _m = "core::option" if _k == "opt" else "core::result"

    def mkmodels(k, m):
        def is_good(eng, call, args, st, neg=False):
            v = eng.content(st, args[0])
            g = eq(discr(v), K(1 if k == "opt" else 0))
            return [(st, not_(g) if neg else g)]
        EXT[m + ("::is_some" if k == "opt" else "::is_ok")] = is_good
        EXT[m + ("::is_none" if k == "opt" else "::is_err")] = lambda e, c, a, s: is_good(e, c, a, s, True)

        def unwrap(eng, call, args, st):
            note(eng, call, args[0])
            return [(s, p) for s, g, p in split(eng, st, args[0], k) if g]
        for n in ("unwrap", "expect", "unwrap_unchecked"):
            EXT[f"{m}::{n}"] = unwrap

        def unwrap_err(eng, call, args, st):
            return [(s, p) for s, g, p in split(eng, st, args[0], k) if not g]
        EXT[f"{m}::unwrap_err"] = unwrap_err
        EXT[f"{m}::expect_err"] = unwrap_err

        def unwrap_or(eng, call, args, st):
            return [(s, p if g else args[1]) for s, g, p in split(eng, st, args[0], k)]
        EXT[f"{m}::unwrap_or"] = unwrap_or

        def unwrap_or_default(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                out.append((s, p if g else mk("pure", "default", (mk("ty", call.ctx),))))
            return out
        EXT[f"{m}::unwrap_or_default"] = unwrap_or_default

        def unwrap_or_else(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out.append((s, p))
                else:
                    out += eng.call_closure(call, args[1], [] if k == "opt" else [p], s)
            return out
        EXT[f"{m}::unwrap_or_else"] = unwrap_or_else

        def map_(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out += [(s2, mkgood(k, v)) for s2, v in eng.call_closure(call, args[1], [p], s)]
                else:
                    out.append((s, mkbad(k, p)))
            return out
        EXT[f"{m}::map"] = map_

        def map_err(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out.append((s, OK(p)))
                else:
                    out += [(s2, ERR(v)) for s2, v in eng.call_closure(call, args[1], [p], s)]
            return out
        if k == "res":
            EXT[f"{m}::map_err"] = map_err

        def and_then(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out += eng.call_closure(call, args[1], [p], s)
                else:
                    out.append((s, mkbad(k, p)))
            return out
        EXT[f"{m}::and_then"] = and_then

        def and_(eng, call, args, st):
            return [(s, args[1] if g else mkbad(k, p)) for s, g, p in split(eng, st, args[0], k)]
        EXT[f"{m}::and"] = and_

        def or_(eng, call, args, st):
            return [(s, mkgood(k, p) if g else args[1]) for s, g, p in split(eng, st, args[0], k)]
        EXT[f"{m}::or"] = or_

        def or_else(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out.append((s, mkgood(k, p)))
                else:
                    out += eng.call_closure(call, args[1], [] if k == "opt" else [p], s)
            return out
        EXT[f"{m}::or_else"] = or_else

        def map_or(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out += eng.call_closure(call, args[2], [p], s)
                else:
                    out.append((s, args[1]))
            return out
        EXT[f"{m}::map_or"] = map_or

        def map_or_else(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out += eng.call_closure(call, args[2], [p], s, 1)
                else:
                    out += eng.call_closure(call, args[1], [] if k == "opt" else [p], s, 2)
            return out
        EXT[f"{m}::map_or_else"] = map_or_else

        def is_good_and(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                if g:
                    out += eng.call_closure(call, args[1], [p], s)
                else:
                    out.append((s, FALSE))
            return out
        EXT[f"{m}::" + ("is_some_and" if k == "opt" else "is_ok_and")] = is_good_and

        def ok(eng, call, args, st):
            if args[0].op != "agg":
                pass
            return [(s, SOME(p) if g else NONE) for s, g, p in split(eng, st, args[0], "res")]
        EXT["core::result::ok"] = ok
        EXT["core::result::err"] = lambda eng, call, args, st: [(s, NONE if g else SOME(p)) for s, g, p in split(eng, st, args[0], "res")]
        EXT["core::option::ok_or"] = lambda eng, call, args, st: [(s, OK(p) if g else ERR(args[1])) for s, g, p in split(eng, st, args[0], "opt")]

        def ok_or_else(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], "opt"):
                if g:
                    out.append((s, OK(p)))
                else:
                    out += [(s2, ERR(v)) for s2, v in eng.call_closure(call, args[1], [], s)]
            return out
        EXT["core::option::ok_or_else"] = ok_or_else

        def as_ref(eng, call, args, st):
            r, p = eng.deref(args[0])
            v = eng.rd(st, r, p)
            good, bad = ("Some", "None") if k == "opt" else ("Ok", "Err")
            out = []
            for s, g, _ in split(eng, st, v, k):
                pr = REF(r, p + (V(good if g else bad), F(0)))
                out.append((s, mkgood(k, pr) if g else mkbad(k, pr)))
            return out
        for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            EXT[f"{m}::{n}"] = as_ref

        def copied(eng, call, args, st):
            out = []
            for s, g, p in split(eng, st, args[0], k):
                out.append((s, mkgood(k, eng.content(s, p)) if g else mkbad(k, p)))
            return out
        EXT[f"{m}::copied"] = copied
        EXT[f"{m}::cloned"] = copied
    mkmodels(_k, _m)


@model("core::option::take")
def _take(eng, call, args, st):
    r, p = eng.deref(args[0])
    v = eng.rd(st, r, p)
    eng.wr(st, call.fr, r, p, NONE, call.span)
    return [(st, v)]


@model("core::option::replace")
def _replace(eng, call, args, st):
    r, p = eng.deref(args[0])
    v = eng.rd(st, r, p)
    eng.wr(st, call.fr, r, p, SOME(args[1]), call.span)
    return [(st, v)]


@model("core::option::insert")
def _insert(eng, call, args, st):
    r, p = eng.deref(args[0])
    eng.wr(st, call.fr, r, p, SOME(args[1]), call.span)
    return [(st, REF(r, p + (V("Some"), F(0))))]


@model("core::option::filter")
def _filter(eng, call, args, st):
    out = []
    for s, g, p in split(eng, st, args[0], "opt"):
        if not g:
            out.append((s, NONE))
            continue
        root = ("T", call.ctx)
        s._set(root, (), p)
        for s2, b in eng.call_closure(call, args[1], [REF(root, ())], s):
            s3 = s2.copy()
            if s3.assume(b, True):
                out.append((s3, SOME(p)))
            if s2.assume(b, False):
                out.append((s2, NONE))
    return out


@model("core::mem::take")
def _mtake(eng, call, args, st):
    r, p = eng.deref(args[0])
    v = eng.rd(st, r, p)
    eng.wr(st, call.fr, r, p, mk("pure", "default", (mk("of", v.op),)), call.span)
    return [(st, v)]


@model("core::mem::replace")
def _mreplace(eng, call, args, st):
    r, p = eng.deref(args[0])
    v = eng.rd(st, r, p)
    eng.wr(st, call.fr, r, p, args[1], call.span)
    return [(st, v)]


@model("core::ops::try_trait::Try::branch")
def _branch(eng, call, args, st):
    if call.fn is not None:
        return None
    k = kind_of(call)
    note(eng, call, args[0])
    out = []
    for s, g, p in split(eng, st, args[0], k):
        if g:
            out.append((s, AGG(CF, 0, "Continue", (p,))))
        else:
            out.append((s, AGG(CF, 1, "Break", (mkbad(k, p),))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def _from_residual(eng, call, args, st):
    if call.fn is not None:
        return None
    return [(st, args[0])]


@model("core::ops::try_trait::Try::from_output")
def _from_output(eng, call, args, st):
    if call.fn is not None:
        return None
    return [(st, mkgood(kind_of(call), args[0]))]


@model("core::clone::Clone::clone", "core::borrow::ToOwned::to_owned")
def _clone(eng, call, args, st):
    return [(st, eng.content(st, args[0]))]


def bytes_eq(eng, call, args, st):
    """slices, one of them short: equal byte by byte, or not"""
    t, crate = call.ga[0] if call.ga else {}, eng.prog.tys[call.fr.fn.crate]
    args = list(args)
    while t.get("k") == "ref":
        t = crate[t["e"]]
        args = [eng.rd(st, *eng.deref(x)) for x in args]
    if t.get("k") not in ("slice", "array") or any(x.op != "ref" for x in args):
        return None
    x, y = eng.length(st, args[0]), eng.length(st, args[1])
    n = x if x.op == "k" else y
    if n.op != "k" or n.a[0] > 32:
        return None
    out = [(st.copy(), 0)]
    if x is not y and not st.assume(eq(x, y), True):
        return out
    from interp import norm_idx
    ps = [eng.deref(x) for x in args]
    for i in range(n.a[0]):
        a, b = [eng.rd(st, r, norm_idx(p, K(i))) for r, p in ps]
        if not st.assume(eq(a, b), True):
            return out
    return out + [(st, 1)]


@model("core::cmp::PartialEq::eq")
def _eq(eng, call, args, st):
    r = bytes_eq(eng, call, args, st) if eng.ranges else None
    if r is not None:
        return [(s, K(v)) for s, v in r]
    return [(st, eq(eng.deep(st, args[0]), eng.deep(st, args[1])))]


@model("core::cmp::PartialEq::ne")
def _ne(eng, call, args, st):
    r = bytes_eq(eng, call, args, st) if eng.ranges else None
    if r is not None:
        return [(s, K(1 - v)) for s, v in r]
    return [(st, not_(eq(eng.deep(st, args[0]), eng.deep(st, args[1]))))]


def _islog(call):
    return any(g.get("p", "").startswith("log::") for g in call.ga) or (len(call.span) > 2 and str(call.span[2]) in ("info!", "debug!", "error!", "warn!", "trace!", "log!"))


def _cmp(f):
    def g(eng, call, args, st):
        if _islog(call):
            return [(st, FALSE)]
        x, y = eng.deep(st, args[0]), eng.deep(st, args[1])
        if x.op == "agg" and not x.a[3]:
            x = discr(x)
        if y.op == "agg" and not y.a[3]:
            y = discr(y)
        return [(st, f(x, y))]
    return g


EXT["core::cmp::PartialOrd::lt"] = _cmp(lambda x, y: lt(x, y))
EXT["core::cmp::PartialOrd::le"] = _cmp(lambda x, y: not_(lt(y, x)))
EXT["core::cmp::PartialOrd::gt"] = _cmp(lambda x, y: lt(y, x))
EXT["core::cmp::PartialOrd::ge"] = _cmp(lambda x, y: not_(lt(x, y)))


@model("core::cmp::Ord::cmp")
def _ordcmp(eng, call, args, st):
    if eng.ranges:
        x, y = eng.deep(st, args[0]), eng.deep(st, args[1])
        out = []
        for c, i, n in ((lt(x, y), 0, "Less"), (eq(x, y), 1, "Equal"), (lt(y, x), 2, "Greater")):
            s = st.copy()
            if s.assume(c, True):
                out.append((s, AGG("core::cmp::Ordering", i, n, ())))
        return out
    return [(st, mk("pure", "cmp", (eng.deep(st, args[0]), eng.deep(st, args[1]))))]


@model("core::cmp::Ord::min", "core::cmp::min")
def _min(eng, call, args, st):
    a, b = args
    c = lt(b, a)
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, b))
    if st.assume(c, False):
        out.append((st, a))
    return out


@model("core::cmp::Ord::max", "core::cmp::max")
def _max(eng, call, args, st):
    a, b = args
    c = lt(b, a)
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, a))
    if st.assume(c, False):
        out.append((st, b))
    return out


@model("core::convert::Into::into", "core::convert::From::from")
def _into(eng, call, args, st):
    if call.fn is not None:
        return None
    return [(st, args[0])]


@model("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut")
def _asref(eng, call, args, st):
    if call.fn is not None:
        return None
    # &T -> &U through the blanket / array / slice / box impls
    v = args[0]
    if v.op == "ref":
        inner = eng.rd(st, v.a[0], v.a[1]) if v.a[0][0] != "C" or True else v
        if inner.op == "ref":
            return [(st, inner)]
        if inner.op in ("rep", "bytes") and v.a[2] is None:
            n = inner.a[1] if inner.op == "rep" else len(inner.a[0])
            if isinstance(n, int):
                return [(st, REF(v.a[0], v.a[1], K(n)))]
    return [(st, v)]


@model("alloc::boxed::new")
def _box(eng, call, args, st):
    root = ("BX", call.ctx)
    st._set(root, (), args[0])
    return [(st, REF(root, ()))]


@model("core::slice::len", "core::str::len")
def _len(eng, call, args, st):
    return [(st, eng.length(st, args[0]))]


@model("core::slice::is_empty")
def _isempty(eng, call, args, st):
    return [(st, eq(eng.length(st, args[0]), K(0)))]


def _slice_of(eng, st, base, lo, hi):
    r, p = eng.deref(base)
    if p and p[-1][0] == "sl":
        l0, h0 = p[-1][1], p[-1][2]
        p = p[:-1]
        nlo = add(l0, lo)
        nhi = add(l0, hi) if hi is not None else h0
    else:
        nlo, nhi = lo, hi
    if nhi is None:
        ln = eng.length(st, base)
        nhi = add(nlo, sub(ln, lo))
    if nlo is K(0) and hi is None and not (eng.deref(base)[1] and eng.deref(base)[1][-1][0] == "sl"):
        return REF(r, p, base.a[2] if base.op == "ref" else None) if base.op == "ref" else base
    return REF(r, p + (("sl", nlo, nhi),), sub(nhi, nlo))


def slice_index(eng, call, base, idx, st):
    if idx.op == "agg":
        n = idx.a[0].split("::")[-1]
        fs = idx.a[3]
        if n == "Range":
            return _slice_of(eng, st, base, fs[0], fs[1])
        if n == "RangeTo":
            return _slice_of(eng, st, base, K(0), fs[0])
        if n == "RangeFrom":
            return _slice_of(eng, st, base, fs[0], None)
        if n == "RangeFull":
            return base
        if n == "RangeInclusive":
            return _slice_of(eng, st, base, fs[0], add(fs[1], K(1)))
        if n == "RangeToInclusive":
            return _slice_of(eng, st, base, K(0), add(fs[0], K(1)))
    if idx.op in ("call", "phi", "hv") and False:
        return None
    r, p = eng.deref(base)
    from interp import norm_idx
    return REF(r, norm_idx(p, idx))


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(eng, call, args, st):
    if call.fn is not None:
        return None
    base = args[0]
    # arrays: attach the static length
    t = call.ga[0] if call.ga else None
    if base.op == "ref" and base.a[2] is None and t is not None and t["k"] == "array" and isinstance(t["n"], int):
        base = REF(base.a[0], base.a[1], K(t["n"]))
    elif base.op != "ref" and t is not None and t["k"] == "array" and isinstance(t["n"], int):
        r, p = eng.deref(base)
        base = REF(r, p, K(t["n"]))
    if eng.hooks is not None and hasattr(eng.hooks, "on_index"):
        eng.hooks.on_index(eng, call, base, args[1], st)
    return [(st, slice_index(eng, call, base, args[1], st))]


@model("core::ops::range::new")
def _rinew(eng, call, args, st):
    return [(st, AGG("core::ops::range::RangeInclusive", 0, "RangeInclusive", (args[0], args[1], FALSE)))]


@model("core::slice::get", "core::slice::get_mut")
def _get(eng, call, args, st):
    ln = eng.length(st, args[0])
    ix = args[1]
    if ix.op == "agg":
        n = ix.a[0].split("::")[-1]
        fs = ix.a[3]
        hi = {"Range": lambda: fs[1], "RangeTo": lambda: fs[0], "RangeFrom": lambda: fs[0], "RangeFull": lambda: K(0)}.get(n)
        if hi is None:
            return None
        ok = not_(lt(ln, hi()))
        if n == "Range" and eng.ranges:
            s = st.copy()
            out = [(s, NONE)] if s.assume(lt(fs[1], fs[0]), True) else []
            if not st.assume(lt(fs[1], fs[0]), False):
                return out
            s = st.copy()
            if s.assume(ok, True):
                out.append((s, SOME(slice_index(eng, call, args[0], ix, s))))
            if st.assume(ok, False):
                out.append((st, NONE))
            return out
        if n == "Range":
            ok = band(ok, not_(lt(fs[1], fs[0])))
    else:
        ok = lt(ix, ln)
    out = []
    s = st.copy()
    if s.assume(ok, True):
        out.append((s, SOME(slice_index(eng, call, args[0], ix, s))))
    if st.assume(ok, False):
        out.append((st, NONE))
    return out


@model("core::slice::sort_unstable_by", "alloc::slice::sort_by", "core::slice::sort_by")
def _sort(eng, call, args, st):
    r, p = eng.deref(args[0])
    old = deepcontent(eng, st, eng.rd(st, r, p))
    eng.wr(st, call.fr, r, p, mk("sorted", old, args[1]), call.span)
    return [(st, UNIT)]


def deepcontent(eng, st, v):
    import domain
    return domain.deepall(eng, st, v)


@model("core::slice::contains")
def _contains(eng, call, args, st):
    return [(st, mk("pure", "contains", (deepcontent(eng, st, args[0]), deepcontent(eng, st, args[1]))))]


@model("core::slice::split_at", "core::slice::split_at_mut")
def _split_at(eng, call, args, st):
    if args[0].op != "ref" and not (args[0].op in ("arg", "mem", "call", "fld", "phi")):
        return None
    n = eng.length(st, args[0])
    if eng.hooks is not None and hasattr(eng.hooks, "on_index"):
        eng.hooks.on_index(eng, call, args[0], AGG("core::ops::RangeTo", 0, "RangeTo", (args[1],)), st)
    # returns only if mid <= len
    if not st.assume(lt(n, args[1]), False):
        return []
    return [(st, AGG("tuple", 0, "tuple", (_slice_of(eng, st, args[0], K(0), args[1]), _slice_of(eng, st, args[0], args[1], None))))]


@model("core::slice::first")
def _first(eng, call, args, st):
    return _get(eng, call, [args[0], K(0)], st)


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _cfs(eng, call, args, st):
    if eng.hooks is not None and hasattr(eng.hooks, "on_copy"):
        eng.hooks.on_copy(eng, call, args, st)
    v = eng.content(st, args[1])
    r, p = eng.deref(args[0])
    eng.wr(st, call.fr, r, p, v, call.span)
    return [(st, UNIT)]


@model("core::slice::fill")
def _fill(eng, call, args, st):
    ln = eng.length(st, args[0])
    r, p = eng.deref(args[0])
    eng.wr(st, call.fr, r, p, mk("rep", args[1], ln.a[0] if ln.op == "k" else ln), call.span)
    return [(st, UNIT)]


@model("core::slice::to_vec")
def _tovec(eng, call, args, st):
    return [(st, eng.content(st, args[0]))]


# ---- iterators
@model("core::iter::traits::collect::IntoIterator::into_iter", "core::iter::traits::iterator::Iterator::by_ref")
def _into_iter(eng, call, args, st):
    if call.fn is not None:
        return None
    v = args[0]
    t = call.ga[0] if call.ga else None
    if t is not None and t["k"] == "ref":
        et = eng.prog.tys[call.fr.fn.crate][t["e"]]
        ln = K(et["n"]) if et["k"] == "array" and isinstance(et["n"], int) else eng.length(st, v)
        return [(st, AGG("iter:slice", 0, "slice", (v, ln)))]
    if t is not None and t["k"] == "array":
        return [(st, AGG("iter:array", 0, "array", (v, K(t["n"]) if isinstance(t["n"], int) else K(0))))]
    return [(st, v)]


@model("core::slice::iter", "core::slice::iter_mut", "core::array::iter", "core::array::iter_mut")
def _iter(eng, call, args, st):
    return [(st, AGG("iter:slice", 0, "slice", (args[0], eng.length(st, args[0]))))]


@model("core::iter::traits::iterator::Iterator::enumerate")
def _enumerate(eng, call, args, st):
    return [(st, AGG("iter:enum", 0, "enum", (args[0],)))]


@model("core::iter::traits::iterator::Iterator::take")
def _itake(eng, call, args, st):
    return [(st, AGG("iter:take", 0, "take", (args[0], args[1])))]


@model("core::iter::traits::iterator::Iterator::rev")
def _rev(eng, call, args, st):
    it = args[0]
    if it.op == "agg" and it.a[0] in ("iter:slice", "iter:array", "iter:enum", "iter:copied"):
        return [(st, AGG("iter:rev", 0, "rev", (it,)))]
    return [(st, AGG("iter:other", 0, "other", tuple(args)))]


@model("core::iter::traits::iterator::Iterator::skip")
def _iskip(eng, call, args, st):
    it = args[0]
    if it.op == "agg" and it.a[0] in ("iter:slice", "iter:array", "iter:enum", "iter:rev", "iter:copied"):
        return [(st, AGG("iter:skip", 0, "skip", (it, args[1])))]
    return [(st, AGG("iter:other", 0, "other", tuple(args)))]


@model("core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned")
def _icopied(eng, call, args, st):
    it = args[0]
    if it.op == "agg" and it.a[0].startswith("iter:") and it.a[0] != "iter:other":
        return [(st, AGG("iter:copied", 0, "copied", (it,)))]
    return None


@model("core::iter::traits::iterator::Iterator::fold")
def _fold(eng, call, args, st):
    l = _items(eng, call, args[0], st)
    if l is None or not l[1]:
        return None
    outs = [(st, args[1])]
    for i, x in enumerate(l[0]):
        outs = [r for s, acc in outs for r in eng.call_closure(call, args[2], [acc, x], s, tag=i)]
    return outs


@model("core::array::map")
def _amap(eng, call, args, st):
    n = next((int(x) for x in (call.f[1]["ga"] or []) if isinstance(x, str) and x.isdigit()), None) if call.f and isinstance(call.f[1], dict) else None
    if n is None or n > 16:
        return None
    outs = [(st, ())]
    for i in range(n):
        outs = [(s2, vs + (r,)) for s, vs in outs for s2, r in eng.call_closure(call, args[1], [fld(args[0], ("i", K(i)))], s, tag=i)]
    return [(s, AGG("array", 0, "array", vs)) for s, vs in outs]


@model("core::iter::traits::iterator::Iterator::step_by")
def _irev(eng, call, args, st):
    return [(st, AGG("iter:other", 0, "other", tuple(args)))]


@model("core::iter::traits::iterator::Iterator::zip")
def _zip(eng, call, args, st):
    b = args[1]
    ty = call.ga[-1] if call.ga else None
    if ty is not None and ty["k"] == "array" and isinstance(ty["n"], int):
        b = AGG("iter:array", 0, "array", (b, K(ty["n"])))
    elif b.op == "agg" and b.a[0].endswith("::Range"):
        b = AGG("iter:range", 0, "range", b.a[3])
    elif b.op == "ref" or b.op not in ("agg",):
        b = AGG("iter:slice", 0, "slice", (b, eng.length(st, b)))
    return [(st, AGG("iter:zip", 0, "zip", (args[0], b)))]


@model("core::iter::traits::iterator::Iterator::next")
def _next(eng, call, args, st):
    if call.fn is not None:
        return None
    r, p = eng.deref(args[0])
    it = eng.rd(st, r, p)
    if it.op == "agg" and it.a[0].endswith("::Range"):
        lo, hi = it.a[3]
        if eng.fills and (lo.op != "k" or hi.op != "k" or hi.a[0] - lo.a[0] > eng.unroll):
            it = AGG("iter:range", 0, "range", (lo, hi))
            eng.wr(st, call.fr, r, p, it, call.span)
    if it.op == "agg" and it.a[0].endswith("::Range"):
        c = lt(lo, hi)
        out = []
        s = st.copy()
        if s.assume(c, True):
            eng.wr(s, call.fr, r, p, AGG(it.a[0], 0, it.a[2], (add(lo, K(1)), hi)), call.span)
            out += [(s2, SOME(lo)) for s2 in forall_at(eng, call, s, lo, hi)]
        if st.assume(c, False):
            out.append((st, NONE))
        return out
    if it.op == "agg" and it.a[0].endswith("::RangeInclusive"):
        lo, hi = it.a[3][0], it.a[3][1]
        c = not_(lt(hi, lo))
        out = []
        s = st.copy()
        if s.assume(c, True):
            eng.wr(s, call.fr, r, p, AGG(it.a[0], 0, it.a[2], (add(lo, K(1)), hi, FALSE)), call.span)
            out.append((s, SOME(lo)))
        if st.assume(c, False):
            out.append((st, NONE))
        return out
    if it.op == "agg" and (eng.unroll or it.a[0] == "iter:at" or literal(eng, it, st)):
        at = it if it.a[0] == "iter:at" else AGG("iter:at", 0, "at", (it, K(0)))
        inner, i = at.a[3]
        b = iter_bound(inner)
        if b is not None and b.op == "k" and b.a[0] <= max(eng.unroll, 8):
            if i.a[0] >= b.a[0]:
                return [(st, NONE)]
            item = iter_item(eng, call, inner, i, st)
            if item is not None:
                res = []
                g = iter_guard(inner, i)
                if g is not None:
                    s = st.copy()
                    if s.assume(g, False):
                        res.append((s, NONE))
                    if not st.assume(g, True):
                        return res
                eng.wr(st, call.fr, r, p, AGG("iter:at", 0, "at", (inner, K(i.a[0] + 1))), call.span)
                return res + [(st, SOME(item))]
    started = it.op == "agg" and it.a[0] == "iter:run"
    if started:
        it = it.a[3][0]
    base = eng.fresh(call, st, "next")
    ix = fldp(base, (V("Some"), F("ix")))
    item = iter_item(eng, call, it, ix, st)
    if eng.fills and item is not None:
        return fill.step(eng, call, st, (r, p), it, started, base, ix, item)
    if item is None:
        item = fldp(base, (V("Some"), F(0)))
        if it.op != "agg":
            # unknown iterator state advances
            eng.wr(st, call.fr, r, p, mk("hv", ("iter", call.ctx)), call.span)
    out = []
    d = discr(base)
    s = st.copy()
    if s.assume_eq(d, 1):
        b = iter_bound(it)
        if b is not None:
            s.assume(lt(ix, b), True)
        src = iter_source(it)
        fa = s.ev.get(("forall", src[0], src[1])) if src is not None else None
        if fa is not None and fa[2] is eng.rd(s, src[0], src[1]) and fa[1] is src[2]:
            # every element of this array passed an earlier .all(...) check
            for s2, v in eng.call_closure(call, fa[0], [item], s, tag="forall"):
                if s2.assume(v, True):
                    out.append((s2, SOME(item)))
        else:
            out.append((s, SOME(item)))
    if st.assume_eq(d, 0):
        out.append((st, NONE))
    return out


def forall_at(eng, call, st, i, n):
    """element i < n of arrays all of whose first n elements passed an earlier .all(...) check: [states]"""
    sts = [st]
    for k, fa in list(st.ev.items()):
        if k[0] == "forall" and fa[1] is n and fa[2] is eng.rd(st, k[1], k[2]):
            sts = [s2 for s in sts for s2, v in eng.call_closure(call, fa[0], [REF(k[1], tuple(k[2]) + (("i", i),))], s, tag="forall") if s2.assume(v, True)]
    return sts


def literal(eng, it, st):
    """a plain iterator over an array literal of a few elements: followed element by element"""
    while it.op == "agg" and it.a[0] in ("iter:enum", "iter:copied", "iter:rev"):
        it = it.a[3][0]
    if it.op != "agg" or it.a[0] not in ("iter:slice", "iter:array"):
        return False
    v, n = it.a[3]
    if n.op != "k" or n.a[0] > 8:
        return False
    if it.a[0] == "iter:slice":
        if v.op != "ref" or v.a[0][0] not in ("L", "T", "C"):
            return False
        v = eng.rd(st, v.a[0], v.a[1])
    return v.op == "agg" and v.a[0] == "array" and len(v.a[3]) == n.a[0]


def _items(eng, call, it, st):
    """(elements, complete): the elements of an iterator, one by one when unrolling a short one, else a symbolic one"""
    if it.op == "ref":
        it = eng.rd(st, it.a[0], it.a[1])
    if it.op != "agg" or not it.a[0].startswith("iter:") and not it.a[0].endswith("::Range"):
        return None
    if it.a[0].endswith("::Range"):
        lo, hi = it.a[3]
        if eng.unroll and lo.op == "k" and hi.op == "k" and hi.a[0] - lo.a[0] <= eng.unroll:
            return [K(i) for i in range(lo.a[0], hi.a[0])], True
        return None
    b = iter_bound(it)
    if b is not None and b.op == "k" and (b.a[0] <= eng.unroll or literal(eng, it, st)) and all(g is None or st.truth(g) for g in [iter_guard(it, K(b.a[0] - 1))]):
        l = [iter_item(eng, call, it, K(i), st) for i in range(b.a[0])]
        return (l, True) if all(x is not None for x in l) else None
    ix = fldp(eng.fresh(call, st, "next"), (V("Some"), F("ix")))
    if b is not None:
        st.assume(lt(ix, b), True)
    x = iter_item(eng, call, it, ix, st)
    return ([x], False) if x is not None else None


@model("core::iter::traits::iterator::Iterator::for_each")
def _for_each(eng, call, args, st):
    outs = [st]
    s0 = st.copy()
    l = _items(eng, call, args[0], st)
    if l is None:
        return None
    items, complete = l
    res = []
    if not complete:
        res.append((s0, UNIT))
        items = items * 2
    for i, x in enumerate(items):
        nxt = []
        for s in outs:
            for s2, _ in eng.call_closure(call, args[1], [x], s, tag=i):
                nxt.append(s2)
                if not complete and i == 0:
                    res.append((s2.copy(), UNIT))
        outs = nxt
    return res + [(s, UNIT) for s in outs]


def _search(kind):
    def m(eng, call, args, st):
        """position / find / any / all: an element for which the closure decided, or none"""
        s0 = st.copy()
        l = _items(eng, call, args[0], st)
        if l is None:
            return None
        items, complete = l
        want = kind != "all"
        hit = lambda i, x: {"any": TRUE, "all": FALSE, "find": SOME(x), "find_map": None}.get(kind)
        miss = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE}[kind]
        out, outs = [], [st]
        for i, x in enumerate(items):
            nxt = []
            arg = x
            if kind == "find":
                root = ("T", ("find", call.ctx, i))
                arg = None
            for s in outs:
                if kind == "find":
                    s._set(root, (), x)
                    arg = REF(root, ())
                for s2, v in eng.call_closure(call, args[1], [arg], s, tag=i):
                    s3 = s2.copy()
                    if s3.assume(v, want):
                        if kind == "position":
                            ix = K(i) if complete else fldp(s3.calls.get((call.ctx, "next")) or mk("hv", ("pos", call.ctx)), (V("Some"), F("ix")))
                            out.append((s3, SOME(ix)))
                        else:
                            out.append((s3, hit(i, x)))
                    if complete and s2.assume(v, not want):
                        nxt.append(s2)
            outs = nxt
        if complete:
            out += [(s, miss) for s in outs]
        else:
            if kind == "all":
                k = iter_source(it0(eng, args[0], s0))
                if k is not None and args[1].op == "agg" and not any(x.op == "ref" and x.a[0][0] == "L" and False for x in args[1].a[3]):
                    s0.ev = dict(s0.ev)
                    s0.ev[("forall", k[0], k[1])] = (args[1], k[2], eng.rd(s0, k[0], k[1]))
            out.append((s0, miss))
        return out
    return m


def it0(eng, a, st):
    return eng.rd(st, a.a[0], a.a[1]) if a.op == "ref" else a


def iter_source(it):
    """(root, path, count) of the array a plain iterator runs over"""
    n = None
    while it.op == "agg" and it.a[0] in ("iter:take", "iter:at"):
        if it.a[0] == "iter:take":
            n = it.a[3][1]
        it = it.a[3][0]
    if it.op == "agg" and it.a[0] == "iter:slice" and it.a[3][0].op == "ref":
        return it.a[3][0].a[0], it.a[3][0].a[1], n
    return None


for _k in ("any", "all", "find", "position"):
    EXT["core::iter::traits::iterator::Iterator::" + _k] = _search(_k)


def iter_guard(it, i):
    """condition for element i to exist, beyond the static bound"""
    if it.op != "agg":
        return None
    if it.a[0] == "iter:take" and it.a[3][1].op != "k":
        return lt(i, it.a[3][1])
    if it.a[0] == "iter:zip":
        g = iter_guard(it.a[3][0], i)
        if g is None:
            g = iter_guard(it.a[3][1], i)
        if g is None:
            x, y = iter_bound(it.a[3][0]), iter_bound(it.a[3][1])
            if x is not None and x.op != "k" and y is not None and y.op == "k":
                g = lt(i, x)
            elif y is not None and y.op != "k" and x is not None and x.op == "k":
                g = lt(i, y)
        return g
    if it.a[0] == "iter:skip":
        return iter_guard(it.a[3][0], add(i, it.a[3][1]))
    if it.a[0] in ("iter:enum", "iter:take", "iter:copied"):
        return iter_guard(it.a[3][0], i)
    return None


def iter_bound(it):
    if it.op != "agg":
        return None
    k = it.a[0]
    if k in ("iter:slice", "iter:array", "iter:take"):
        b = it.a[3][1]
        if k == "iter:take":
            c = iter_bound(it.a[3][0])
            if c is not None and c.op == "k" and (b.op != "k" or b.a[0] > c.a[0]):
                return c if b.op == "k" else b
        return b
    if k == "iter:zip":
        x, y = iter_bound(it.a[3][0]), iter_bound(it.a[3][1])
        if y is not None and y.op == "k" and (x is None or x.op != "k" or x.a[0] > y.a[0]):
            return y
        return x
    if k in ("iter:enum", "iter:rev", "iter:copied"):
        return iter_bound(it.a[3][0])
    if k == "iter:skip":
        b, n = iter_bound(it.a[3][0]), it.a[3][1]
        if b is None:
            return None
        if b.op == "k" and n.op == "k":
            return K(max(0, b.a[0] - n.a[0]))
        return sub(b, n)
    if k == "iter:range":
        return sub(it.a[3][1], it.a[3][0])
    return None


def iter_item(eng, call, it, ix, st):
    if it.op != "agg":
        return None
    k = it.a[0]
    if k == "iter:slice":
        r, p = eng.deref(it.a[3][0])
        from interp import norm_idx
        return REF(r, norm_idx(p, ix))
    if k == "iter:array":
        return fld(it.a[3][0], ("i", ix))
    if k == "iter:range":
        return add(it.a[3][0], ix)
    if k == "iter:take":
        return iter_item(eng, call, it.a[3][0], ix, st)
    if k == "iter:copied":
        x = iter_item(eng, call, it.a[3][0], ix, st)
        return eng.rd(st, x.a[0], x.a[1]) if x is not None and x.op == "ref" else None
    if k == "iter:skip":
        return iter_item(eng, call, it.a[3][0], add(ix, it.a[3][1]), st)
    if k == "iter:rev":
        return iter_item(eng, call, it.a[3][0], sub(sub(iter_bound(it), K(1)), ix), st)
    if k == "iter:enum":
        x = iter_item(eng, call, it.a[3][0], ix, st)
        return None if x is None else AGG("tuple", 0, "tuple", (ix, x))
    if k == "iter:zip":
        x, y = iter_item(eng, call, it.a[3][0], ix, st), iter_item(eng, call, it.a[3][1], ix, st)
        return None if x is None or y is None else AGG("tuple", 0, "tuple", (x, y))
    return None


@model("core::default::Default::default")
def _default(eng, call, args, st):
    if call.fn is not None:
        return None
    t = call.ga[0] if call.ga else None
    return [(st, default_of(eng, call.fr.fn.crate, t))]


def default_of(eng, crate, t):
    if t is None:
        return mk("pure", "default", ())
    if t["k"] in ("uint", "int", "bool", "char"):
        return K(0)
    if t["k"] == "array":
        e = eng.prog.tys[crate][t["e"]]
        return mk("rep", default_of(eng, crate, e), t["n"])
    if t["k"] == "adt" and t["p"] == OPT:
        return NONE
    if t["k"] == "tuple":
        return AGG("tuple", 0, "tuple", [default_of(eng, crate, eng.prog.tys[crate][x]) for x in t["a"]]) if t["a"] else UNIT
    return mk("pure", "default", (mk("ty", repr(t)),))


@model("core::num::to_le_bytes", "core::num::to_be_bytes", "core::num::from_le_bytes", "core::num::from_be_bytes",
       "core::num::wrapping_add", "core::num::wrapping_sub", "core::num::saturating_sub", "core::num::saturating_add", "core::num::count_ones", "core::num::leading_zeros", "core::num::trailing_zeros",
       "core::num::pow", "core::num::is_power_of_two", "core::num::swap_bytes", "core::num::rotate_left")
def _num(eng, call, args, st):
    if eng.ranges and call.name.endswith(("from_le_bytes", "from_be_bytes")):
        # the number these bytes make
        t = eng.prog.tys[call.fr.fn.crate]
        d = call.fr.fn.bbs[call.bb][1][3]
        t = t[call.fr.fn.locals[d]] if isinstance(d, int) else {}
        n = t.get("b", 0) // 8
        if n:
            b = [fld(args[0], ("i", K(i))) for i in range(n)]
            v = K(0)
            for i, x in enumerate(b if call.name.endswith("le_bytes") else b[::-1]):
                v = add(v, scale(x, 256 ** i))
            return [(st, v)]
    if call.name.endswith("::count_ones") and args[0].op == "k":
        return [(st, K(bin(args[0].a[0]).count("1")))]
    if call.name.endswith("::saturating_sub"):
        out = []
        s = st.copy()
        if s.assume(lt(args[0], args[1]), True):
            out.append((s, K(0)))
        if st.assume(lt(args[0], args[1]), False):
            out.append((st, sub(args[0], args[1])))
        return out
    return [(st, mk("pure", call.name, tuple(eng.deep(st, a) for a in args)))]


@model("core::ops::range::contains")
def _range_contains(eng, call, args, st):
    r, x = eng.content(st, args[0]), eng.content(st, args[1])
    if r.op != "agg":
        return None
    kind = r.a[0].split("::")[-1]
    if kind in ("RangeTo", "RangeToInclusive"):
        lo, hi = K(0), r.a[3][0]
    elif kind in ("Range", "RangeInclusive"):
        lo, hi = r.a[3][:2]
    elif kind == "RangeFrom":
        return [(st, not_(lt(x, r.a[3][0])))]
    else:
        return None
    past = lt(hi, x) if "Inclusive" in kind else not_(lt(x, hi))
    out = []
    s = st.copy()
    if s.assume(lt(x, lo), True):
        out.append((s, FALSE))
    if st.assume(lt(x, lo), False):
        s = st.copy()
        if s.assume(past, True):
            out.append((s, FALSE))
        if st.assume(past, False):
            out.append((st, TRUE))
    return out


@model("core::num::checked_sub")
def _csub(eng, call, args, st):
    c = lt(args[0], args[1])
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, NONE))
    if st.assume(c, False):
        out.append((st, SOME(sub(args[0], args[1]))))
    return out


@model("core::num::checked_add")
def _cadd(eng, call, args, st):
    c = mk("ovf", args[0], args[1])
    out = []
    s = st.copy()
    if s.assume(c, True):
        out.append((s, NONE))
    if st.assume(c, False):
        out.append((st, SOME(add(args[0], args[1]))))
    return out


@model("core::mem::size_of", "core::mem::size_of_val")
def _sizeof(eng, call, args, st):
    t = call.ga[0] if call.ga else None
    if isinstance(t, dict) and t.get("k") in ("uint", "int") and t.get("b"):
        return [(st, K(t["b"] // 8))]
    return [(st, mk("pure", "size_of", (mk("ty", repr(t)),)))]


@model("log::max_level", "log::__private_api::loc", "log::__private_api::log", "log::__private_api::enabled")
def _log(eng, call, args, st):
    return [(st, UNIT)]


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def _fncall(eng, call, args, st):
    from interp import unpack
    return eng.call_closure(call, args[0], unpack(args[1]) if len(args) > 1 else [], st)


@model("core::option::eq", "core::option::ne")
def _opteq(eng, call, args, st):
    return None


@model("core::mem::drop", "core::mem::forget", "core::hint::black_box")
def _drop(eng, call, args, st):
    return [(st, UNIT)]
