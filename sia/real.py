"""Normal forms of float terms read as real numbers (rounding noise left out)."""
from fractions import Fraction
import math

from . import terms as T

FOPS = ("fadd", "fsub", "fmul", "fdiv", "fneg", "flt", "i2f")
INTFN = ("round", "floor", "ceil", "trunc")


class Real:
    """pos: float terms known to be positive"""

    def __init__(self, pos=(), bound=None):
        self.pos = set(pos)
        self.bound = bound or (lambda x: None)      # open interval around an atom's value
        self.memo = {}

    # polynomials: {((atom, exponent), ...): coefficient}
    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._poly(t)
        return r

    def _poly(self, t):
        op = t.op
        if op == "flt":
            v = t.args[0]
            if not math.isfinite(v):
                return {((t, 1),): Fraction(1)}
            # decimal literals mean what they say
            f = Fraction(v).limit_denominator(10 ** 9)
            f = f if float(f) == v else Fraction(v)
            return {(): f} if f else {}
        if op == "fadd":
            return self.add(self.poly(t.args[0]), self.poly(t.args[1]))
        if op == "fsub":
            return self.add(self.poly(t.args[0]), self.poly(t.args[1]), -1)
        if op == "fneg":
            return self.add({}, self.poly(t.args[0]), -1)
        if op == "fmul":
            return self.mul(self.poly(t.args[0]), self.poly(t.args[1]))
        if op == "fdiv":
            a, b = self.poly(t.args[0]), self.poly(t.args[1])
            if len(b) == 1:
                (m, c), = b.items()
                return self.mul(a, {tuple((x, -e) for x, e in m): 1 / c})
            return self.mul(a, {((self.build(b), -1),): Fraction(1)})
        if op == "i2f":
            r = {}
            for m, c in T._poly(t.args[0]).items():
                k = {}
                for x in m:
                    y = x if x.op == "int" else T.i2f(x)
                    k[y] = k.get(y, 0) + 1
                k = tuple(sorted(k.items(), key=lambda z: z[0].id))
                r[k] = r.get(k, 0) + Fraction(c)
            return {m: c for m, c in r.items() if c}
        if op == "fn" and t.args[0] in INTFN:
            p = self.poly(t.args[1][0])
            whole = {m: c for m, c in p.items() if self.integral(m, c)}
            rest = {m: c for m, c in p.items() if m not in whole}
            c0 = whole.pop((), 0)
            name = t.args[0]
            if not rest:
                return p
            r = self.range(rest)
            if name == "round" and r is not None and r[0] >= -Fraction(1, 2) and r[1] <= Fraction(1, 2) and any(m != () for m in rest):
                # strictly within half a unit of a whole number
                return self.add(whole, {(): c0} if c0 else {})
            if set(rest) == {()} and (whole or c0 == 0):
                v = rest[()]
                f = math.floor(v)
                if name == "floor" or name == "ceil":
                    n = f if name == "floor" else f + 1
                elif name == "round" and v - f != Fraction(1, 2):
                    n = f if v - f < Fraction(1, 2) else f + 1
                elif name == "trunc" and not whole:
                    n = math.trunc(v)
                else:
                    n = None
                if n is not None:
                    return self.add(whole, {(): Fraction(n) + c0} if n + c0 else {})
            if name in ("floor", "ceil"):
                inner = T.mk("fn", name, (self.build(rest),))
                return self.add(self.add(whole, {(): c0} if c0 else {}), {((inner, 1),): Fraction(1)})
            inner = T.mk("fn", name, (self.build(p),))
            return {((inner, 1),): Fraction(1)}
        if op == "ite":
            t = T.ite(self.norm(t.args[0]), self.norm(t.args[1]), self.norm(t.args[2]))
            return {((t, 1),): Fraction(1)}
        return {((self.norm(t), 1),): Fraction(1)}

    def integral(self, m, c):
        return c.denominator == 1 and all(e > 0 and (x.op == "i2f" or x.op == "fn" and x.args[0] in INTFN) for x, e in m)

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = dict(m)
                for x, e in n:
                    k[x] = k.get(x, 0) + e
                k = tuple(sorted(((x, e) for x, e in k.items() if e), key=lambda z: z[0].id))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def build(self, p):
        """canonical term of a polynomial"""
        if not p:
            return T.F(0.0)
        out = None
        for m, c in sorted(p.items(), key=lambda z: tuple((x.id, e) for x, e in z[0])):
            t = T.mk("flt", float(c)) if not m else None
            if m:
                for x, e in m:
                    for _ in range(abs(e)):
                        y = x if e > 0 else T.mk("fdiv", T.F(1.0), x)
                        t = y if t is None else T.mk("fmul", t, y)
                if c != 1:
                    t = T.mk("fmul", T.F(float(c)), t)
            out = t if out is None else T.mk("fadd", out, t)
        return out

    def range(self, p):
        """open interval of values, or None"""
        lo = hi = Fraction(0)
        strict = False
        for m, c in p.items():
            if m == ():
                lo, hi = lo + c, hi + c
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            b = self.bound(m[0][0])
            if b is None:
                return None
            strict = True
            x, y = sorted((c * b[0], c * b[1]))
            lo, hi = lo + x, hi + y
        return (lo, hi) if strict else None

    def sign(self, p):
        """1, 0, -1 or None"""
        if not p:
            return 0
        s = None
        r = self.range(self.strip(p))
        if r is not None:
            return 1 if r[0] >= 0 else -1 if r[1] <= 0 else None
        for m, c in p.items():
            if any(x not in self.pos and e % 2 for x, e in m):
                return None
            if any(x not in self.pos for x, e in m):
                return None
            v = 1 if c > 0 else -1
            if s not in (None, v):
                return None
            s = v
        return s

    def strip(self, p):
        """positive factors common to all monomials divided out, leading coefficient to size one"""
        ms = list(p)
        for x in self.pos:
            e = min(dict(m).get(x, 0) for m in ms)
            if e:
                p = self.mul(p, {((x, -e),): Fraction(1)})
                ms = list(p)
        c = abs(min(p.items(), key=lambda z: tuple((x.id, e) for x, e in z[0]))[1])
        return {m: v / c for m, v in p.items()}

    def cmp(self, op, a, b):
        p = self.add(self.poly(b), self.poly(a), -1)
        s = self.sign(p)
        if s is not None:
            return T.B({"flec": s >= 0, "fltc": s > 0, "feqc": s == 0}[op])
        p = self.strip(p)
        if op == "feqc":
            q = self.add({}, p, -1)
            x, y = self.build(p), self.build(q)
            return T.mk("feqc", T.F(0.0), x if x.id < y.id else y)
        if op == "fltc":
            # 0 < p  ==  not (0 <= -p)
            return T.bnot(T.mk("flec", T.F(0.0), self.build(self.add({}, p, -1))))
        return T.mk("flec", T.F(0.0), self.build(p))

    def norm(self, t):
        def fn(x):
            if x.op in ("flec", "fltc", "feqc"):
                return self.cmp(x.op, x.args[0], x.args[1])
            if x.op in FOPS or x.op == "fn" and x.args[0] in INTFN:
                return self.build(self.poly(x))
            return None
        return T.rewrite(t, fn)
