"""Value of a term as a function of given base terms (exact integer semantics of the MIR operations)."""
from terms import *


class Unknown(Exception):
    pass


def code(t, env, memo):
    """Python expression for t; env: base term -> variable name"""
    if t in env:
        return env[t]
    if t in memo:
        return memo[t]
    r = memo[t] = _code(t, env, memo)
    return r


def _code(t, env, memo):
    o, a = t.op, t.a
    c = lambda x: code(x, env, memo)
    if o == "k":
        return repr(int(a[0]))
    if o == "lin":
        return "(" + "+".join([str(a[0])] + [f"{k}*{c(x)}" for x, k in a[1]]) + ")"
    if o == "bin":
        op, x, y = a[0], c(a[1]), c(a[2])
        w = a[3] if len(a) > 3 and isinstance(a[3], int) else 64
        f = {"Div": "//", "Rem": "%", "Shr": ">>", "Shl": "<<", "Mul": "*", "BitAnd": "&", "BitOr": "|", "BitXor": "^"}.get(op)
        if f is None:
            raise Unknown(show(t))
        e = f"({x}{f}{y})"
        return f"({e}&{(1 << w) - 1})" if op in ("Shl", "Mul") else e
    if o == "trunc":
        return f"({c(a[0])}&{(1 << a[1]) - 1})"
    if o in ("and", "or", "xor"):
        return f"({c(a[0])}{ {'and': '&', 'or': '|', 'xor': '^'}[o]}{c(a[1])})"
    if o == "eq":
        return f"({c(a[0])}=={c(a[1])})"
    if o == "lt":
        return f"({c(a[0])}<{c(a[1])})"
    if o == "not":
        return f"(not {c(a[0])})"
    if o == "band":
        return f"({c(a[0])} and {c(a[1])})"
    if o == "bor":
        return f"({c(a[0])} or {c(a[1])})"
    if o in ("zext", "cast", "sext"):
        return c(a[0])
    raise Unknown(show(t))


def compiled(t, bases):
    names = {b: f"v{i}" for i, b in enumerate(bases)}
    return eval("lambda " + ",".join(f"v{i}" for i in range(len(bases))) + ": " + code(t, names, {}))


def condition(st, bases):
    """conjunction of the state's facts that speak about the bases only; raises Unknown never: other facts are left out.
    Returns (function, number of facts left out)"""
    names = {b: f"v{i}" for i, b in enumerate(bases)}
    out, skip = [], 0
    for t, f in st.facts.items():
        try:
            if isinstance(t, tuple):
                e = code(t[1], names, {})
                out.append(f"({e}>={f[1]})" if t[0] == "lo" else f"({e}<={f[1]})")
            elif f[0] == "=":
                e = code(t, names, {})
                out.append(f"({e}=={f[1]!r})")
            else:
                e = code(t, names, {})
                out += [f"({e}!={v!r})" for v in f[1]]
        except Unknown:
            skip += 1
    return eval("lambda " + ",".join(f"v{i}" for i in range(len(bases))) + ": " + (" and ".join(out) or "True")), skip


def bits_unsat(st):
    """the facts about some algorithm selection (a bit set) have no solution: either its value is known,
    or at most one bit is set (x & (x - 1) == 0)"""
    cand = {}
    for t, f in st.facts.items():
        if isinstance(t, tuple):
            continue
        if f == ("=", 0) and t.op == "and":
            for x, y in (t.a, t.a[::-1]):
                if sub(x, K(1)) is y:
                    cand[x] = [0] + [1 << i for i in range(32)]
        elif f == ("=", 1) and t.op == "eq" and t.a[0].op == "and" and t.a[1] is K(0):
            for x, y in (t.a[0].a, t.a[0].a[::-1]):
                if sub(x, K(1)) is y:
                    cand[x] = [0] + [1 << i for i in range(32)]
    for t, f in st.facts.items():
        if not isinstance(t, tuple) and f[0] == "=" and isinstance(f[1], int) and t.op in ("fld", "mem", "call"):
            cand.setdefault(t, [f[1]])
    for x, vs in cand.items():
        c, _ = condition(st, [x])
        if not any(c(v) for v in vs):
            return True
    return False
