"""Constant folding of value graphs: the value a term takes at given constants for its symbols.

Used only to confirm that two different normal forms really denote different functions: a
violation needs constants for the inputs at which the graph extracted from the source and the
graph the property asks for fold to different constants.  Functions that the graph leaves
uninterpreted are folded as one fixed but arbitrary function of their arguments.
"""
import hashlib
import math
import struct
import sys

from . import terms as T

sys.setrecursionlimit(200000)


class Undef(Exception):
    """no value at these constants (a path that panics, an index outside its sequence)"""


class Stuck(Exception):
    """the folder has no rule for this construct"""


class Seq:
    __slots__ = ("n", "f", "c")

    def __init__(self, n, f):
        self.n, self.f, self.c = n, f, {}

    @staticmethod
    def of(xs):
        s = Seq(len(xs), None)
        s.c = dict(enumerate(xs))
        return s

    def get(self, i):
        if not isinstance(i, int):
            raise Stuck("index")
        if i < 0 or i >= self.n:
            raise Undef("index")
        try:
            return self.c[i]
        except KeyError:
            v = self.c[i] = self.f(i)
            return v

    def all(self):
        if self.n > 300000:
            raise Stuck("long sequence")
        return [self.get(i) for i in range(self.n)]


class Mat:
    __slots__ = ("r", "c", "f", "m")

    def __init__(self, r, c, f):
        self.r, self.c, self.f, self.m = r, c, f, {}

    def get(self, i, j):
        if i < 0 or j < 0 or i >= self.r or j >= self.c:
            raise Undef("cell")
        k = (i, j)
        try:
            return self.m[k]
        except KeyError:
            v = self.m[k] = self.f(i, j)
            return v


class Ctor:
    __slots__ = ("name", "fs", "vidx")

    def __init__(self, name, fs, vidx):
        self.name, self.fs, self.vidx = name, list(fs), vidx


class Tok:
    """an arbitrary value of an unmodelled type"""
    __slots__ = ("h", "sort")

    def __init__(self, h, sort):
        self.h, self.sort = h, sort


def ser(v, out):
    if isinstance(v, bool):
        out.append(b"b1" if v else b"b0")
    elif isinstance(v, int):
        out.append(b"i%d" % v)
    elif isinstance(v, float):
        # insensitive to rounding noise
        out.append(b"f" + (b"%.9e" % v if math.isfinite(v) else repr(v).encode()))
    elif isinstance(v, Seq):
        out.append(b"s%d(" % v.n)
        for x in v.all():
            ser(x, out)
        out.append(b")")
    elif isinstance(v, Mat):
        out.append(b"m%d,%d(" % (v.r, v.c))
        if v.r * v.c > 100000:
            raise Stuck("large matrix")
        for i in range(v.r):
            for j in range(v.c):
                ser(v.get(i, j), out)
        out.append(b")")
    elif isinstance(v, Ctor):
        out.append(b"c" + v.name.encode() + b"(")
        for x in v.fs:
            ser(x, out)
        out.append(b")")
    elif isinstance(v, Tok):
        out.append(b"t" + v.h)
    elif isinstance(v, str):
        out.append(b"'" + v.encode())
    elif v is None:
        out.append(b"u")
    else:
        raise Stuck("value")


def digest(*vs):
    out = []
    for v in vs:
        if isinstance(v, bytes):
            out.append(v)
        else:
            ser(v, out)
        out.append(b"|")
    return hashlib.blake2b(b"".join(out), digest_size=16).digest()


def made(h, sort):
    """an arbitrary value of a sort, determined by h"""
    n = int.from_bytes(h[:8], "little")
    if sort in T.INTR:
        lo, hi = T.INTR[sort]
        if n % 3 == 0:
            return lo + (n >> 8) % (hi - lo + 1)
        return max(lo, -4) + (n >> 8) % 60
    if sort in ("nat", "int"):
        return (n >> 8) % 7
    if sort == "bool":
        return bool(n & 1)
    if sort in ("f64", "f32"):
        return ((n % 20001) - 10000) / 64.0
    if isinstance(sort, str) and sort.startswith("seq:"):
        m = (n >> 3) % 6
        return Seq(m, lambda i: made(digest(h, b"el", i), sort[4:]))
    if isinstance(sort, str) and sort.startswith("mat:"):
        return Mat(2 + n % 3, 2 + (n >> 5) % 3, lambda i, j: made(digest(h, b"el", i, j), sort[4:]))
    return Tok(h, sort)


INTERP = {}
BAD = set()         # functions without a meaning: folding stops where a value depends on one


def interp(*names):
    def d(f):
        for n in names:
            INTERP[n] = f
        return f
    return d


def _nn(f, x, y):
    """the number, where only one is one"""
    return y if x != x else x if y != y else f(x, y)


MATH = {
    "floor": lambda x: float(math.floor(x)) if math.isfinite(x) else x,
    "ceil": lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
    "trunc": lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
    "round": lambda x: (float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)) if math.isfinite(x) else x,
    "abs": abs, "exp": math.exp, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan2": math.atan2,
    "hypot": math.hypot, "atan": math.atan, "asin": math.asin, "acos": math.acos, "ln": math.log, "log10": math.log10,
    "log2": math.log2, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "powi": lambda x, n: x ** n if x or n >= 0 else math.inf, "powf": lambda x, y: x ** y, "pow": lambda x, y: x ** y,
    "min": lambda x, y: _nn(min, x, y), "max": lambda x, y: _nn(max, x, y),
    "fmin": lambda x, y: _nn(min, x, y), "fmax": lambda x, y: _nn(max, x, y),
    "signum": lambda x: math.copysign(1.0, x), "mod": math.fmod, "clamp": lambda x, a, b: min(max(x, a), b) if x == x else x,
    "copysign": math.copysign, "round_ties_even": lambda x: float(round(x)) if math.isfinite(x) else x,
    "rem_euclid": lambda x, y: math.fmod(x, y) + (abs(y) if math.fmod(x, y) < 0 else 0.0),
    "div_euclid": lambda x, y: float(math.trunc(x / y)) - ((1.0 if y > 0 else -1.0) if math.fmod(x, y) < 0 else 0.0),
    "log": lambda x, b: math.log(x) / math.log(b), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
    "fract": lambda x: x - math.trunc(x), "mul_add": lambda a, b, c: a * b + c, "recip": lambda a: 1 / a if a else math.copysign(math.inf, a),
}


@interp("f32")
def _f32(x):
    return T._round32(x)


INTERP["f64::is_nan"] = lambda x: x != x
INTERP["f64::is_finite"] = math.isfinite
INTERP["f64::is_infinite"] = math.isinf
INTERP["f64::is_sign_negative"] = lambda x: math.copysign(1.0, x) < 0
INTERP["f64::is_sign_positive"] = lambda x: math.copysign(1.0, x) > 0


def seqof(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, Tok):
        n = int.from_bytes(v.h[:4], "little") % 6
        return Seq(n, lambda i: made(digest(v.h, b"el", i), "?"))
    raise Stuck("sequence")


def matof(v):
    if isinstance(v, Mat):
        return v
    if isinstance(v, Tok):
        n = int.from_bytes(v.h[:4], "little")
        return Mat(2 + n % 3, 2 + (n >> 4) % 3, lambda i, j: made(digest(v.h, b"el", i, j), "?"))
    raise Stuck("matrix")


# what statics hold at the start: symbol -> function of the folding that yields it
STATE = {}


LIMIT0 = 4000000
LIMIT = [LIMIT0]


class Fold:
    """one valuation"""

    def __init__(self, val, limit=None):
        self.val = dict(val)
        self.memo = {}
        self.folds = {}
        self.steps = limit or LIMIT[0]

    def ev(self, t, env=()):
        k = None
        if t.args and t.op not in ("int", "flt", "bool", "bv"):
            k = (t, env[:t.fv]) if t.fv else t
            r = self.memo.get(k, self)
            if r is not self:
                return r
        self.steps -= 1
        if self.steps < 0:
            raise Stuck("too long")
        h = getattr(self, "op_" + t.op, None)
        if h is None:
            raise Stuck("no rule for " + t.op)
        r = h(t.args, env)
        if k is not None:
            self.memo[k] = r
        return r

    def lam(self, l, env):
        if l.op != "lam":
            raise Stuck("lambda")
        b = l.args[0]
        return lambda x: self.ev(b, (x,) + env)

    def op_lam(self, a, e):
        return lambda x: self.ev(a[0], (x,) + e)

    # leaves
    def op_int(self, a, e):
        return a[0]

    op_bool = op_int

    def op_flt(self, a, e):
        return a[0]

    def op_str(self, a, e):
        return Seq.of(list(a[0].encode()))

    def op_unit(self, a, e):
        return None

    def op_sym(self, a, e):
        if a[0] in self.val:
            return self.val[a[0]]
        if a[0] in STATE:
            return STATE[a[0]](self)
        raise Stuck("free symbol " + a[0])

    def op_bv(self, a, e):
        return e[a[0]]

    def op_undef(self, a, e):
        raise Undef("undefined")

    def op_fnv(self, a, e):
        if "fn value" in BAD:
            raise Stuck("function value")
        return Tok(digest(str(a[0]).encode()), "fn")

    def op_clo(self, a, e):
        if "fn value" in BAD:
            raise Stuck("function value")
        return Tok(digest(a[0].encode(), *[self.ev(x, e) for x in a[1]]), "fn")

    # integers
    def num(self, t, e):
        v = self.ev(t, e)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Stuck("integer expected")
        return v

    def flo(self, t, e):
        v = self.ev(t, e)
        if not isinstance(v, float):
            raise Stuck("float expected")
        return v

    def boo(self, t, e):
        v = self.ev(t, e)
        if not isinstance(v, bool):
            raise Stuck("bool expected")
        return v

    def op_poly(self, a, e):
        s = 0
        for m, c in a[0]:
            p = c
            for x in m:
                p *= self.num(x, e)
            s += p
        return s

    def op_min(self, a, e):
        return min(self.num(x, e) for x in a[0])

    def op_max(self, a, e):
        return max(self.num(x, e) for x in a[0])

    def _div(self, a, e):
        x, y = self.num(a[0], e), self.num(a[1], e)
        if y == 0:
            raise Undef("division by zero")
        return x, y

    def op_idiv(self, a, e):
        x, y = self._div(a, e)
        return x // y

    def op_imod(self, a, e):
        x, y = self._div(a, e)
        return x % y

    def op_tdiv(self, a, e):
        x, y = self._div(a, e)
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def op_trem(self, a, e):
        x, y = self._div(a, e)
        r = abs(x) % abs(y)
        return -r if x < 0 else r

    def op_emod(self, a, e):
        x, y = self._div(a, e)
        return x % abs(y)

    def op_ediv(self, a, e):
        x, y = self._div(a, e)
        return (x - x % abs(y)) // y

    def op_pow2(self, a, e):
        n = self.num(a[0], e)
        if n < 0 or n > 4096:
            raise Undef("shift")
        return 2 ** n

    def op_ipow(self, a, e):
        n = self.num(a[1], e)
        if n < 0 or n > 4096:
            raise Undef("power")
        return self.num(a[0], e) ** n

    def op_icast(self, a, e):
        lo, hi = T.INTR[a[0]]
        return (self.num(a[1], e) - lo) % (hi - lo + 1) + lo

    def op_band(self, a, e):
        return self.num(a[0], e) & self.num(a[1], e)

    def op_bor(self, a, e):
        return self.num(a[0], e) | self.num(a[1], e)

    def op_bxor(self, a, e):
        return self.num(a[0], e) ^ self.num(a[1], e)

    def op_shr(self, a, e):
        n = self.num(a[1], e)
        if n < 0:
            raise Undef("shift")
        return self.num(a[0], e) >> n

    def op_b2i(self, a, e):
        return int(self.boo(a[0], e))

    # booleans
    def op_not(self, a, e):
        return not self.boo(a[0], e)

    def op_and(self, a, e):
        # some conjuncts may be undefined where another one fails
        bad = None
        for x in a[0]:
            try:
                if not self.boo(x, e):
                    return False
            except (Undef, Stuck) as u:
                bad = u
        if bad:
            raise bad
        return True

    def op_or(self, a, e):
        bad = None
        for x in a[0]:
            try:
                if self.boo(x, e):
                    return True
            except (Undef, Stuck) as u:
                bad = u
        if bad:
            raise bad
        return False

    def op_ge0(self, a, e):
        return self.num(a[0], e) >= 0

    def op_eq0(self, a, e):
        return self.num(a[0], e) == 0

    def op_eq(self, a, e):
        return digest(self.ev(a[0], e)) == digest(self.ev(a[1], e))

    def op_ite(self, a, e):
        return self.ev(a[1] if self.boo(a[0], e) else a[2], e)

    # floats
    def op_fadd(self, a, e):
        return self.flo(a[0], e) + self.flo(a[1], e)

    def op_fsub(self, a, e):
        return self.flo(a[0], e) - self.flo(a[1], e)

    def op_fmul(self, a, e):
        return self.flo(a[0], e) * self.flo(a[1], e)

    def op_fdiv(self, a, e):
        x, y = self.flo(a[0], e), self.flo(a[1], e)
        if y == 0.0:
            return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1.0, y)
        return x / y

    def op_frem(self, a, e):
        return math.fmod(self.flo(a[0], e), self.flo(a[1], e))

    def op_fneg(self, a, e):
        return -self.flo(a[0], e)

    def op_i2f(self, a, e):
        return float(self.num(a[0], e))

    def op_f2i(self, a, e):
        x = self.flo(a[1], e)
        lo, hi = T.INTR[a[0]]
        if x != x:
            return 0
        if x <= lo:
            return lo
        if x >= hi:
            return hi
        return int(x)

    def op_fn(self, a, e):
        f = MATH.get(a[0])
        if f is None:
            raise Stuck("function " + a[0])
        try:
            return float(f(*[self.ev(x, e) for x in a[1]]))
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan

    def op_fltc(self, a, e):
        return self.flo(a[0], e) < self.flo(a[1], e)

    def op_flec(self, a, e):
        return self.flo(a[0], e) <= self.flo(a[1], e)

    def op_feqc(self, a, e):
        return self.flo(a[0], e) == self.flo(a[1], e)

    # sequences
    def seq(self, t, e):
        return seqof(self.ev(t, e))

    def op_list(self, a, e):
        xs = a[0]
        return Seq(len(xs), lambda i: self.ev(xs[i], e))

    def op_tab(self, a, e):
        return Seq(max(0, self.num(a[0], e)), self.lam(a[1], e))

    def op_len(self, a, e):
        return self.seq(a[0], e).n

    def op_at(self, a, e):
        s = self.ev(a[0], e)
        i = self.num(a[1], e)
        if isinstance(s, Tok):
            return made(digest(s.h, b"el", i), a[2] or "?")
        v = seqof(s).get(i)
        if isinstance(v, Tok) and v.sort == "?" and a[2] and a[2] != "?":
            return made(v.h, a[2])
        return v

    def op_cat(self, a, e):
        ps = [self.seq(x, e) for x in a[0]]

        def get(i):
            for p in ps:
                if i < p.n:
                    return p.get(i)
                i -= p.n
            raise Undef("index")
        return Seq(sum(p.n for p in ps), get)

    def op_slice(self, a, e):
        s, lo, hi = self.seq(a[0], e), self.num(a[1], e), self.num(a[2], e)
        if lo < 0 or hi < lo or hi > s.n:
            raise Undef("slice")
        return Seq(hi - lo, lambda i: s.get(lo + i))

    def op_flat(self, a, e):
        s = self.seq(a[0], e)
        ps = [seqof(x) for x in s.all()]
        off = [0]
        for p in ps:
            off.append(off[-1] + p.n)
        import bisect

        def get(i):
            k = bisect.bisect_right(off, i) - 1
            return ps[k].get(i - off[k])
        return Seq(off[-1], get)

    def op_store(self, a, e):
        s, i, v = self.seq(a[0], e), self.num(a[1], e), a[2]
        if i < 0 or i >= s.n:
            raise Undef("store")
        v = self.ev(v, e)
        return Seq(s.n, lambda k: v if k == i else s.get(k))

    def op_rev(self, a, e):
        s = self.seq(a[0], e)
        return Seq(s.n, lambda k: s.get(s.n - 1 - k))

    @staticmethod
    def _pos(j, w, order):
        return j if order == "Lsb0" else w - 1 - j

    def op_unpack(self, a, e):
        s = self.seq(a[0], e)
        return Seq(8 * s.n, lambda i: bool(s.get(i // 8) >> self._pos(i % 8, 8, a[1]) & 1))

    def op_unpackw(self, a, e):
        s, w = self.seq(a[0], e), a[1]
        return Seq(w * s.n, lambda i: bool(s.get(i // w) >> self._pos(i % w, w, a[2]) & 1))

    def _packw(self, s, w, order):
        return Seq((s.n + w - 1) // w, lambda i: sum(1 << self._pos(j, w, order) for j in range(w)
                                                     if w * i + j < s.n and s.get(w * i + j)))

    def op_pack(self, a, e):
        return self._packw(self.seq(a[0], e), 8, a[1])

    def op_packw(self, a, e):
        return self._packw(self.seq(a[0], e), a[1], a[2])

    def op_word(self, a, e):
        s = self.seq(a[0], e)
        if s.n > 128:
            raise Stuck("word")
        if a[1] != "Lsb0":
            raise Stuck("word order")
        return sum(1 << j for j in range(s.n) if s.get(j))

    def op_bit(self, a, e):
        n = self.num(a[1], e)
        if n < 0:
            raise Undef("bit")
        return bool(self.num(a[0], e) >> n & 1)

    # matrices
    def mat(self, t, e):
        return matof(self.ev(t, e))

    def op_mat(self, a, e):
        f = self.lam(a[2], e)
        b = a[2].args[0]
        if b.op != "lam":
            raise Stuck("matrix")
        bb = b.args[0]
        return Mat(self.num(a[0], e), self.num(a[1], e), lambda i, j: self.ev(bb, (j, i) + e))

    def op_rows(self, a, e):
        return self.mat(a[0], e).r

    def op_cols(self, a, e):
        return self.mat(a[0], e).c

    def op_at2(self, a, e):
        return self.mat(a[0], e).get(self.num(a[1], e), self.num(a[2], e))

    def op_store2(self, a, e):
        m, r, c = self.mat(a[0], e), self.num(a[1], e), self.num(a[2], e)
        if not (0 <= r < m.r and 0 <= c < m.c):
            raise Undef("cell")
        v = self.ev(a[3], e)
        return Mat(m.r, m.c, lambda i, j: v if (i, j) == (r, c) else m.get(i, j))

    def op_submat(self, a, e):
        m = self.mat(a[0], e)
        r0, c0, nr, nc = [self.num(x, e) for x in a[1:]]
        if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > m.r or c0 + nc > m.c:
            raise Undef("window")
        return Mat(nr, nc, lambda i, j: m.get(r0 + i, c0 + j))

    def op_paste(self, a, e):
        m, r0, c0, s = self.mat(a[0], e), self.num(a[1], e), self.num(a[2], e), self.mat(a[3], e)
        if r0 < 0 or c0 < 0 or r0 + s.r > m.r or c0 + s.c > m.c:
            raise Undef("window")
        return Mat(m.r, m.c, lambda i, j: s.get(i - r0, j - c0) if r0 <= i < r0 + s.r and c0 <= j < c0 + s.c else m.get(i, j))

    def op_shape(self, a, e):
        r, c, s = self.num(a[0], e), self.num(a[1], e), self.seq(a[2], e)
        if s.n != r * c:
            raise Undef("shape")
        return Mat(r, c, lambda i, j: s.get(i * c + j))

    def op_matseq(self, a, e):
        m = self.mat(a[0], e)
        return Seq(m.r * m.c, lambda k: m.get(k // m.c, k % m.c))

    def op_grey(self, a, e):
        r, c, s = self.num(a[0], e), self.num(a[1], e), self.seq(a[2], e)
        return Mat(r, c, lambda i, j: Ctor(T.LUMA, [Seq.of([s.get(i * c + j)])], 0))

    # structures
    def op_ctor(self, a, e):
        return Ctor(a[0], [self.ev(x, e) for x in a[1]], a[2])

    def op_tup(self, a, e):
        return Ctor("()", [self.ev(x, e) for x in a[0]], 0)

    def op_discr(self, a, e):
        v = self.ev(a[0], e)
        if isinstance(v, Ctor):
            return v.vidx
        if isinstance(v, Tok):
            return int.from_bytes(digest(v.h, b"discr")[:2], "little") % 2
        raise Stuck("discriminant")

    def op_fld(self, a, e):
        v = self.ev(a[0], e)
        if isinstance(v, Ctor):
            if a[1] is not None and not v.name.endswith("::" + a[1]):
                raise Undef("variant")
            if a[2] >= len(v.fs):
                raise Undef("field")
            return v.fs[a[2]]
        if isinstance(v, Tok):
            return made(digest(v.h, b"fld", str(a[1]), a[2]), a[3] or "?")
        raise Stuck("field")

    def op_setfld(self, a, e):
        v = self.ev(a[0], e)
        if isinstance(v, Ctor):
            fs = list(v.fs)
            fs[a[2]] = self.ev(a[3], e)
            return Ctor(v.name, fs, v.vidx)
        raise Stuck("field update")

    def op_app(self, a, e):
        xs = []
        for x in a[2]:
            xs.append(self.ev(x, e) if isinstance(x, T.T) else str(x))
        f = INTERP.get(a[0])
        if f is not None:
            return f(*xs)
        if a[0] in BAD:
            raise Stuck("uninterpreted " + a[0])
        h = digest(a[0].encode(), *xs)
        d = T.MATDIM.get(a[0])
        t = T.mk("app", *a)
        if d is not None and isinstance(a[1], str) and a[1].startswith("mat"):
            r, c = T.rows(t), T.cols(t)
            if r.op not in ("rows", "cols"):
                return Mat(self.num(r, e), self.num(c, e), lambda i, j: made(digest(h, i, j), a[1][4:] or "f64"))
        d = T.SEQLEN.get(a[0])
        if d is not None:
            n = T.length(t)
            if n.op != "len":
                n = self.num(n, e)
                es = a[1][4:] if isinstance(a[1], str) and a[1].startswith("seq:") else "u8"
                return Seq(n, lambda i: made(digest(h, i), es))
        return made(h, a[1])

    # iteration
    def op_fold(self, a, e):
        n = self.num(a[0], e)
        if n > 200000:
            raise Stuck("long fold")
        l1 = a[2]
        if l1.op != "lam" or l1.args[0].op != "lam":
            raise Stuck("fold body")
        b = l1.args[0].args[0]
        # the rounds of one fold are shared between its uses with different counts
        key = (a[1], a[2], e[:max(a[1].fv, a[2].fv)])
        done, acc = self.folds.get(key, (0, None))
        if acc is None or done > n:
            done, acc = 0, self.ev(a[1], e)
        for k in range(done, max(0, n)):
            acc = self.strict(self.ev(b, (acc, k) + e))
        self.folds[key] = (max(0, n), acc)
        return acc

    @staticmethod
    def strict(v):
        """flatten chains of lazy updates"""
        if isinstance(v, Seq):
            if len(v.c) < v.n and v.n <= 20000:
                v.all()
            v.f = None if len(v.c) == v.n else v.f
        elif isinstance(v, Mat) and v.r * v.c <= 20000:
            for i in range(v.r):
                for j in range(v.c):
                    v.get(i, j)
            v.f = None
        elif isinstance(v, Ctor):
            for x in v.fs:
                Fold.strict(x)
        return v

    def op_first(self, a, e):
        n, f = self.num(a[0], e), self.lam(a[1], e)
        for k in range(max(0, n)):
            if f(k):
                return k
        return max(n, 0) if n >= 0 else n

    def op_trip(self, a, e):
        f = self.lam(a[0], e)
        for k in range(200000):
            if not f(k):
                return k
        raise Stuck("long loop")


def same(a, b, tol=1e-7):
    """equality of folded values, floats up to rounding noise"""
    if isinstance(a, float) and isinstance(b, float):
        if not (math.isfinite(a) and math.isfinite(b)):
            return not (math.isfinite(a) or math.isfinite(b)) and (a != a or b != b or a == b)
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, Seq) or isinstance(b, Seq):
        a, b = seqof(a), seqof(b)
        return a.n == b.n and all(same(a.get(i), b.get(i), tol) for i in range(a.n))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return a.r == b.r and a.c == b.c and all(same(a.get(i, j), b.get(i, j), tol) for i in range(a.r) for j in range(a.c))
    if isinstance(a, Ctor) and isinstance(b, Ctor):
        return a.name == b.name and len(a.fs) == len(b.fs) and all(same(x, y, tol) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a.h == b.h
    if type(a) is not type(b):
        raise Stuck("values of different kinds")
    return a == b


def brief(v, n=12):
    if isinstance(v, Seq):
        xs = [brief(v.get(i), 4) for i in range(min(v.n, n))]
        return "[" + ", ".join(xs) + (", .. %d in all" % v.n if v.n > n else "") + "]"
    if isinstance(v, Mat):
        return "%dx%d matrix [%s%s]" % (v.r, v.c, ", ".join(brief(v.get(i, j), 4) for i in range(min(v.r, 3)) for j in range(min(v.c, 4))),
                                        ".." if v.r * v.c > 12 else "")
    if isinstance(v, Ctor):
        return v.name.split("::")[-1].replace("()", "") + "(" + ", ".join(brief(x, 6) for x in v.fs) + ")"
    if isinstance(v, Tok):
        return "<%s %s>" % (v.sort, v.h.hex()[:6])
    return str(v)


def opaques(t, memo=None):
    """names of uninterpreted functions in a term"""
    memo = set() if memo is None else memo
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in memo:
            continue
        memo.add(x)
        if x.op == "app":
            out.add(x.args[0])
        elif x.op == "clo":
            out.add("fn value")
        elif x.op == "fnv":
            out.add("fn value")
        st.extend(T.subterms(x))
    return out


def symbols(t, memo=None):
    memo = set() if memo is None else memo
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in memo:
            continue
        memo.add(x)
        if x.op == "sym":
            out.add(x)
        st.extend(T.subterms(x))
    return out
