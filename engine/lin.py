"""Linear facts of an abstract state (a small polyhedra domain): is a set of facts contradictory, does it entail a comparison."""
from fractions import Fraction
from terms import *

WIDTH = {"u8": 255, "u16": 65535}


class Lin:
    """linear constraints  sum(c*x) + k >= 0  collected from the facts of one state"""

    def __init__(self, st=None):
        self.cs = []
        self.seen = set()
        self.truncs = []
        self.neqs = []
        if st is not None:
            for t, f in list(st.facts.items()):
                self.fact(t, f)

    def fact(self, t, f):
        if isinstance(t, tuple):
            if t[0] == "lo":
                self.ge(sub(t[1], K(f[1])))
            elif t[0] == "hi":
                self.ge(sub(K(f[1]), t[1]))
            return
        if f[0] == "=" and isinstance(f[1], int):
            if t.op == "lt":
                x, y = t.a
                if f[1]:
                    self.ge(sub(sub(y, x), K(1)))
                else:
                    self.ge(sub(x, y))
            elif t.op == "eq":
                if f[1]:
                    self.ge(sub(t.a[0], t.a[1]))
                    self.ge(sub(t.a[1], t.a[0]))
                else:
                    self.neqs.append(sub(t.a[0], t.a[1]))
            elif t.op not in ("not", "band", "bor", "bxor"):
                self.ge(sub(t, K(f[1])))
                self.ge(sub(K(f[1]), t))
        elif f[0] == "!" and t.op not in BOOLOPS:
            # unsigned and not 0 .. k: at least k + 1
            k = 0
            while k in f[1]:
                k += 1
            if k and self.unsigned(t):
                self.ge(sub(t, K(k)))
            elif not self.unsigned(t):
                self.neqs += [sub(t, K(v)) for v in sorted(f[1]) if isinstance(v, int)]

    @staticmethod
    def unsigned(t):
        return t.op in ("len", "bin", "pure", "trunc", "and", "or", "fld", "arg", "mem", "phi", "call", "hv")

    def ge(self, t):
        """assert t >= 0"""
        c, d = lin_parts(t)
        if any(not isinstance(v, int) for v in d.values()):
            return
        if not d and c >= 0:
            return
        self.cs.append((dict(d), c))
        for x in d:
            self.atom(x)

    def atom(self, x):
        """what is known of an atom by its form"""
        if x in self.seen:
            return
        self.seen.add(x)
        o, a = x.op, x.a
        if o in ("len",):
            self.ge(x)
            self.ge(sub(K((1 << 63) - 1), x))
        elif o == "bin" and len(a) >= 3 and a[0] in ("Div", "Shr") and a[2].op == "k" and a[2].a[0] >= 0:
            c = a[2].a[0] if a[0] == "Div" else 1 << a[2].a[0]
            if a[0] == "Shr" and c > 1:
                q = mk("bin", "Div", a[1], K(c), a[3] if len(a) > 3 else 64)
                self.ge(sub(x, q))
                self.ge(sub(q, x))
            elif c > 0:
                self.ge(x)
                self.ge(sub(a[1], scale(x, c)))
                self.ge(sub(add(scale(x, c), K(c - 1)), a[1]))
        elif o == "bin" and len(a) >= 3 and a[0] == "Rem" and a[2].op == "k" and a[2].a[0] > 0:
            self.ge(x)
            self.ge(sub(K(a[2].a[0] - 1), x))
            self.ge(sub(a[1], x))
        elif o == "bin" and a[0] == "Shl" and a[2].op == "k" and len(a) > 3 and isinstance(a[3], int):
            y = sub(x, scale(a[1], 1 << a[2].a[0]))
            self.ge(x)
            self.ge(sub(K(0), y))
            if self.width(a[1]) + a[2].a[0] <= a[3]:
                self.ge(y)          # no bit is lost
        elif o == "or":
            self.ge(x)
            self.ge(sub(add(a[0], a[1]), x))
            for y, z in ((a[0], a[1]), (a[1], a[0])):
                if y.op == "bin" and y.a[0] == "Shl" and y.a[2].op == "k" and self.width(z) <= y.a[2].a[0]:
                    self.ge(sub(x, add(y, z)))      # no bit in common
                    break
            self.ge(sub(x, a[0]))
            self.ge(sub(x, a[1]))
        elif o == "and":
            self.ge(x)
            for m in a:
                if m.op == "k":
                    self.ge(sub(K(m.a[0]), x))
                    b = ~m.a[0] & ((1 << 64) - 1)
                    if m.a[0] > (1 << 32) and b < 4096:
                        # clears low bits
                        y = a[0] if a[1] is m else a[1]
                        k = (b + 1).bit_length() - 1
                        if b == (1 << k) - 1:
                            q = scale(mk("bin", "Div", y, K(1 << k), 64), 1 << k)
                            self.ge(sub(x, q))
                            self.ge(sub(q, x))
                        else:
                            self.ge(sub(y, x))
                            self.ge(sub(add(x, K(b)), y))
        elif o == "trunc":
            self.ge(x)
            self.ge(sub(K((1 << a[1]) - 1), x))
            self.truncs.append(x)
        elif o == "fld" and a[1][0] == "i" or o == "mem" and a[1] and a[1][-1][0] == "i":
            self.ge(x)
            self.ge(sub(K(255), x))
        elif o == "arg":
            pass

    @staticmethod
    def width(t):
        if t.op == "k" and isinstance(t.a[0], int):
            return t.a[0].bit_length()
        if t.op == "fld" and t.a[1][0] == "i" or t.op == "mem" and t.a[1] and t.a[1][-1][0] == "i":
            return 8
        if t.op == "trunc":
            return t.a[1]
        if t.op == "or":
            return max(Lin.width(x) for x in t.a)
        if t.op == "bin" and t.a[0] == "Shl" and t.a[2].op == "k":
            return min(64, Lin.width(t.a[1]) + t.a[2].a[0])
        if t.op == "and":
            return min(Lin.width(x) for x in t.a)
        return 64

    def unsat(self, extra=()):
        """no solution (over the rationals, integer-tightened)"""
        for x in extra:
            for y in lin_parts(x)[1]:
                self.atom(y)
        self.resolve()
        save = len(self.cs), set(self.seen)
        for t in extra:
            self.ge(t)
        cs = [(dict(d), c) for d, c in self.cs]
        if extra:
            # only what is connected with the question
            vs = {x for d, _ in cs[save[0]:] for x in d}
            n = -1
            while n != len(vs):
                n = len(vs)
                for d, _ in cs:
                    if not vs.isdisjoint(d):
                        vs.update(d)
            cs = [(d, c) for d, c in cs if not d or not vs.isdisjoint(d)]
        r = box(cs) or fm(cs)
        todo = [t for t in self.neqs if any(x.op == "len" for x in lin_parts(t)[1])] if not r else ()
        while todo:
            # different from zero: above it, if it cannot be below, and the other way round
            for t in todo:
                d, c = self.row(t)
                up, down = ({x: v for x, v in d.items()}, c - 1), ({x: -v for x, v in d.items()}, -c - 1)
                if any(not isinstance(v, int) for v in d.values()):
                    continue
                if fm(cs + [down]):
                    cs.append(up)
                elif fm(cs + [up]):
                    cs.append(down)
                else:
                    continue
                todo.remove(t)
                r = fm(cs)
                break
            else:
                break
            if r:
                break
        del self.cs[save[0]:]
        self.seen = save[1]
        return r

    def resolve(self):
        """truncations that lose nothing"""
        while self.truncs:
            x = self.truncs.pop()
            inner, w = x.a
            for y in lin_parts(inner)[1]:
                self.atom(y)
            if fm([(dict(d), c) for d, c in self.cs + [self.row(sub(inner, K(1 << w)))]]) and fm([(dict(d), c) for d, c in self.cs + [self.row(sub(K(-1), inner))]]):
                self.ge(sub(inner, x))
                self.ge(sub(x, inner))

    @staticmethod
    def row(t):
        c, d = lin_parts(t)
        return dict(d), c

    def proves_lt(self, x, y):
        """x < y in every concrete state"""
        return self.unsat([sub(x, y)])

    def proves_le(self, x, y):
        return self.unsat([sub(sub(x, y), K(1))])

    def proves_neq(self, x, y):
        return self.proves_lt(x, y) or self.proves_lt(y, x) or self.unsat([sub(x, y), sub(y, x)])

    def proves_eq(self, x, y):
        return x is y or (self.proves_le(x, y) and self.proves_le(y, x))


def box(cs):
    """infeasible by the bounds of the single variables alone"""
    lo, hi = {}, {}
    for d, c in cs:
        if len(d) == 1:
            (x, v), = d.items()
            if v > 0:
                b = -(c // v)
                if x not in lo or lo[x] < b:
                    lo[x] = b
            else:
                b = c // -v
                if x not in hi or hi[x] > b:
                    hi[x] = b
    for d, c in cs:
        m = c
        for x, v in d.items():
            b = (hi if v > 0 else lo).get(x)
            if b is None:
                break
            m += v * b
        else:
            if m < 0:
                return True
    return False


def fm(cs):
    """Fourier-Motzkin; True if infeasible"""
    from math import gcd, floor

    def norm(d, c):
        d = {x: v for x, v in d.items() if v}
        if not d:
            return d, c
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {x: v // g for x, v in d.items()}
            c = c // g  # integer tightening (floor)
        return d, c
    work = set()
    for d, c in cs:
        d, c = norm(d, c)
        if not d:
            if c < 0:
                return True
            continue
        work.add((frozenset(d.items()), c))
    while work:
        occ = {}
        best = {}
        for d, c in work:
            if d not in best or c < best[d]:
                best[d] = c
        work = set(best.items())
        for d, c in work:
            for x, v in d:
                p = occ.setdefault(x, [0, 0])
                p[v > 0] += 1
        x = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x.id))
        pos, neg, rest = [], [], set()
        for d, c in work:
            m = dict(d)
            v = m.get(x, 0)
            if v > 0:
                pos.append((m, c))
            elif v < 0:
                neg.append((m, c))
            else:
                rest.add((d, c))
        if len(pos) * len(neg) > 4000:
            return False
        for dp, cp in pos:
            for dn, cn in neg:
                a, b = -dn[x], dp[x]
                m = {}
                for y, v in dp.items():
                    m[y] = m.get(y, 0) + a * v
                for y, v in dn.items():
                    m[y] = m.get(y, 0) + b * v
                m, c = norm(m, a * cp + b * cn)
                if not m:
                    if c < 0:
                        return True
                    continue
                rest.add((frozenset(m.items()), c))
        work = rest
        if not work:
            return False
    return False
