"""Which bit of which base term every bit of an integer term is."""
from terms import *


def bits(t, n, leaf):
    """list of n entries 0 / 1 / (base, j), or None. leaf(term) -> (base, first bit, number of bits) or None"""
    x = leaf(t)
    if x is not None:
        base, j0, w = x
        return [(base, j0 + j) if j < w else 0 for j in range(n)]
    o, a = t.op, t.a
    if o == "k":
        return [(int(a[0]) >> j) & 1 for j in range(n)]
    if o == "trunc":
        b = bits(a[0], min(n, a[1]), leaf)
        return None if b is None else b + [0] * (n - len(b))
    if o in ("zext", "cast"):
        return bits(a[0], n, leaf)
    if o == "bin" and a[0] in ("Shl", "Shr") and a[2].op == "k":
        k = a[2].a[0]
        w = a[3] if len(a) > 3 and isinstance(a[3], int) else 128
        if a[0] == "Shl":
            b = bits(a[1], max(min(n, w) - k, 0), leaf)
            return None if b is None else (([0] * k + b)[:min(n, w)] + [0] * n)[:n]
        b = bits(a[1], w, leaf)
        return None if b is None else (b[k:] + [0] * (n + k))[:n]
    if o == "bin" and a[0] in ("Div", "Rem", "Mul") and a[2].op == "k" and a[2].a[0] > 0 and not a[2].a[0] & (a[2].a[0] - 1):
        k = a[2].a[0].bit_length() - 1
        w = a[3] if len(a) > 3 and isinstance(a[3], int) else 128
        if a[0] == "Div":
            b = bits(a[1], w, leaf)
            return None if b is None else (b[k:] + [0] * (n + k))[:n]
        if a[0] == "Rem":
            b = bits(a[1], min(n, k), leaf)
            return None if b is None else (b + [0] * n)[:n]
        b = bits(a[1], max(min(n, w) - k, 0), leaf)
        return None if b is None else (([0] * k + b)[:min(n, w)] + [0] * n)[:n]
    if o in ("and", "or", "xor"):
        x, y = bits(a[0], n, leaf), bits(a[1], n, leaf)
        if x is None or y is None:
            return None
        out = []
        for p, q in zip(x, y):
            if o == "and":
                v = 0 if 0 in (p, q) else q if p == 1 else p if q == 1 or p == q else None
            elif o == "or":
                v = 1 if 1 in (p, q) else q if p == 0 else p if q == 0 or p == q else None
            else:
                v = q if p == 0 else p if q == 0 else 0 if p == q else None
            if v is None:
                return None
            out.append(v)
        return out
    if o == "lin":
        out = [int(a[0]) >> j & 1 for j in range(n)]
        if a[0] < 0:
            return None
        for x, k in a[1]:
            if not isinstance(k, int) or k <= 0 or k & (k - 1):
                return None
            s = k.bit_length() - 1
            b = bits(x, max(n - s, 0), leaf)
            if b is None:
                return None
            for j, v in enumerate(([0] * s + b)[:n]):
                if v != 0:
                    if out[j] != 0:
                        return None
                    out[j] = v
        return out
    return None
