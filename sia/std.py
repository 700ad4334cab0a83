"""More of the standard library: orderings, bit counting, searching, sorting, small collections.

Where a function has no useful normal form, it stays a named function of its arguments and is only
given its meaning for constant folding (`I[...]`).
"""
import functools
import math
import struct

from . import interp as N
from . import terms as T
from .exec import Unsup, sort_of
from .models import (INTS, _ints, adapter, branch2, drain, early, flat_items, isok, isopt, it, mapped, partarg,
                     prim, psort, rx, seqarg, short, to_iter, ty_name)

I = N.INTERP
INTY = "|".join(INTS)
ORD = "core::cmp::Ordering::"
LESS, EQUAL, GREATER = (T.ctor(ORD + n, []) for n in ("Less", "Equal", "Greater"))
FLOATY = ("fadd", "fmul", "fdiv", "fsub", "fneg", "i2f", "fn", "flt", "frem")


def bits(t):
    lo, hi = T.INTR[t]
    return (hi - lo + 1).bit_length() - 1


# ---------------------------------------------------------------- orderings

def floaty(t):
    if t.op == "ite":
        return floaty(t.args[1]) or floaty(t.args[2])
    if t.op in FLOATY:
        return True
    if t.op == "app":
        return t.args[1] in ("f64", "f32")
    if t.op in ("at", "fld", "at2", "fold"):
        return t.args[-1] in ("f64", "f32")
    return t.op == "sym" and t.args[1] in ("f64", "f32")


def booly(t):
    return t.op in T.BOOLOPS or t.op == "sym" and t.args[1] == "bool" or t.op in ("app",) and t.args[1] == "bool"


def ordv(lt, eq):
    return T.ite(lt, LESS, T.ite(eq, EQUAL, GREATER))


def partial(a, b):
    lt, gt = T.fcmp("fltc", a, b), T.fcmp("fltc", b, a)
    return T.ite(lt, T.some(LESS), T.ite(T.fcmp("feqc", a, b), T.some(EQUAL), T.ite(gt, T.some(GREATER), T.none)))


def compare(c, a, b):
    """the Ordering of two values"""
    a, b = c.E.val(c.st, a), c.E.val(c.st, b)
    if _ints(a) and _ints(b):
        return ordv(T.lt(a, b), T.eq(a, b))
    if booly(a) and booly(b):
        return compare(c, T.ite(a, T.I(1), T.I(0)), T.ite(b, T.I(1), T.I(0)))
    for x, y in ((a, b), (b, a)):
        if x.op == "tup" and (y.op == "tup" or y.op in ("at", "fld", "sym")):
            r = None
            for k in reversed(range(len(x.args[0]))):
                o = compare(c, T.fld(a, None, k), T.fld(b, None, k))
                r = o if r is None else T.ite(T.eq(T.discr(o), T.I(0)), r, o)
            return r if r is not None else EQUAL
        if x.op == "ctor" and short(x.args[0]) == "Reverse" and y.op == "ctor":
            return compare(c, b.args[1][0], a.args[1][0])
    if floaty(a) or floaty(b):
        raise Unsup("total order of floats")
    raise Unsup("ordering of %s and %s" % (a.op, b.op))


@rx(r"<.* as core::cmp::Ord>::cmp", r"core::cmp::Ord::cmp", r"core::cmp::impls::.*::cmp")
def _cmp(c):
    return compare(c, c.args[0], c.args[1])


@rx(r"<.* as core::cmp::PartialOrd.*>::partial_cmp", r"core::cmp::PartialOrd::partial_cmp")
def _pcmp(c):
    p = prim(c.ty[0]) if c.ty else None
    a, b = c.v(0), c.v(1)
    if p is not None and p["k"] == "float" or p is None and (floaty(a) or floaty(b)):
        return partial(a, b)
    return T.some(compare(c, a, b))


@rx(r"(?:f64|f32)::total_cmp")
def _total(c):
    x = T.app("f64::total_cmp", "i8", c.v(0), c.v(1))
    return ordv(T.lt(x, T.I(0)), T.eq(x, T.I(0)))


def _tkey(x):
    k, = struct.unpack("<q", struct.pack("<d", x))
    return k ^ ((1 << 63) - 1 if k < 0 else 0)


I["f64::total_cmp"] = lambda a, b: (_tkey(a) > _tkey(b)) - (_tkey(a) < _tkey(b))


@rx(r"core::cmp::Ordering::(\w+)")
def _ordering(c, w):
    o = c.v(0)
    d = T.discr(o)
    if w in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
        z = T.I(0)
        return {"is_lt": T.lt(d, z), "is_le": T.le(d, z), "is_gt": T.lt(z, d), "is_ge": T.le(z, d), "is_eq": T.eq(d, z),
                "is_ne": T.bnot(T.eq(d, z))}[w]
    if w == "reverse":
        return ordv(T.lt(T.I(0), d), T.eq(d, T.I(0)))
    if w == "then":
        return T.ite(T.eq(d, T.I(0)), c.v(1), o)
    if w == "then_with":
        return branch2(c, T.eq(d, T.I(0)), lambda: c.call(c.args[1]), lambda: o)
    raise Unsup("Ordering::" + w)


def pairwise(c, s, key, what):
    """lam i. lam j. the Ordering of the items i < j of a sequence: key(state, a, b) -> (term, state)"""
    i, j = T.fresh("i", "nat"), T.fresh("j", "nat")
    st0 = c.st
    st1 = st0.with_facts(T.band(T.lt(i, j), T.lt(j, T.length(s))))
    with T.under(st1.facts):
        v, s2 = key(st1, T.at(s, i), T.at(s, j))
    if v is None:
        raise Unsup(what + " with a comparison that always panics")
    if any(s2.cells.get(k) is not x for k, x in st0.cells.items()):
        raise Unsup(what + " with a comparison that has effects")
    c.st = st0
    return T.lam(i, T.lam(j, T.discr(v)))


def natural(c):
    def key(st, a, b):
        return compare(c, a, b), st
    return key


def by(c, clo):
    return lambda st, a, b: c.E.call_closure(st, clo, [a, b])


def by_key(c, clo):
    def key(st, a, b):
        x, st = c.E.call_closure(st, clo, [a])
        if x is None:
            return None, None
        y, st = c.E.call_closure(st, clo, [b])
        return (compare(c, x, y), st) if y is not None else (None, None)
    return key


def _order(f):
    def cmp(i, j):
        return 0 if i == j else f(i)(j) if i < j else -f(j)(i)
    return cmp


I["std:argsort"] = lambda n, f: N.Seq.of(sorted(range(n), key=functools.cmp_to_key(_order(f))))
T.SEQLEN["std:argsort"] = lambda t: t.args[2][0]


def _argmax(n, f):
    o, b = _order(f), 0
    for k in range(1, n):
        if o(b, k) <= 0:
            b = k
    return b


def _argmin(n, f):
    o, b = _order(f), 0
    for k in range(1, n):
        if o(b, k) > 0:
            b = k
    return b


I["std:argmax"], I["std:argmin"] = _argmax, _argmin


def sorted_seq(c, s, key, what):
    n = T.length(s)
    if T.is_int(n) and n.args[0] <= 1:
        return s
    p = T.app("std:argsort", "seq:nat", n, pairwise(c, s, key, what))
    k = T.fresh("k", "nat")
    return T.tab(n, T.lam(k, T.at(s, T.at(p, k, "nat"))))


@rx(r"(?:alloc::)?(?:slice|vec::Vec)::sort(?:_unstable)?(_by|_by_key|_by_cached_key)?")
def _sort(c, w):
    key = natural(c) if not w else by(c, c.args[1]) if w == "_by" else by_key(c, c.args[1])
    c.set(0, sorted_seq(c, c.v(0), key, "sort"))
    return T.UNIT


@adapter("(max|min)(_by|_by_key)?")
def _extreme(c, *g):
    w = c.path.split("::")[-1]
    s = seqarg(c, c.args[0])
    n = T.length(s)
    ok = T.lt(T.I(0), n)
    if ok is T.FALSE:
        return T.none
    if w in ("max", "min"):
        k = T.fresh("k", "nat")
        with T.under(T.cur().plus(T.lt(k, n))):
            x = T.at(s, k)
        if _ints(x):
            acc = T.fresh("acc", "int" if T.rng(x)[0] is None or T.rng(x)[0] < 0 else "nat")
            f = T.mx if w == "max" else T.mn
            with T.under(T.cur().plus(ok)):
                body = T.lam(k, T.lam(acc, f(acc, T.at(s, T.add(k, T.I(1))))))
                v = T.fold(T.sub(n, T.I(1)), T.at(s, T.I(0)), body, acc.args[1])
            return T.ite(ok, T.some(v), T.none)
    key = natural(c) if w in ("max", "min") else by(c, c.args[1]) if w.endswith("_by") else by_key(c, c.args[1])
    l = pairwise(c, s, key, w)
    with T.under(T.cur().plus(ok)):
        v = T.at(s, T.app("std:argmax" if w.startswith("max") else "std:argmin", "nat", n, l))
    return T.ite(ok, T.some(v), T.none)


@adapter("(is_sorted|is_sorted_by_key)")
def _is_sorted(c, *g):
    s = seqarg(c, c.args[0])
    n = T.length(s)
    w = c.path.split("::")[-1]
    l = pairwise(c, s, natural(c) if w == "is_sorted" else by_key(c, c.args[1]), w)
    m = T.mx(T.I(0), T.sub(n, T.I(1)))
    k = T.fresh("k", "nat")
    bad = T.lam(k, T.lt(T.I(0), T.inst(T.inst(l, k), T.add(k, T.I(1)))))
    return T.eq(T.first(m, bad), m)


rx(r"slice::is_sorted")(_is_sorted)


@adapter("(eq|ne)")
def _it_eq(c, *g):
    e = T.eq(seqarg(c, c.args[0]), seqarg(c, c.args[1]))
    return e if c.path.endswith("::eq") else T.bnot(e)


# ---------------------------------------------------------------- integers

def _wr(t, v):
    lo, hi = T.INTR[t]
    return (v - lo) % (hi - lo + 1) + lo


def _u(t, v):
    return v % (1 << bits(t))


def _lz(t, v):
    return bits(t) - _u(t, v).bit_length()


def _tz(t, v):
    v = _u(t, v)
    return (v & -v).bit_length() - 1 if v else bits(t)


def _swap(t, v):
    return _wr(t, int.from_bytes(_u(t, v).to_bytes(bits(t) // 8, "little"), "big"))


ONE = {
    "count_ones": lambda t, v: bin(_u(t, v)).count("1"),
    "count_zeros": lambda t, v: bits(t) - bin(_u(t, v)).count("1"),
    "leading_zeros": _lz, "trailing_zeros": _tz,
    "leading_ones": lambda t, v: _lz(t, ~v), "trailing_ones": lambda t, v: _tz(t, ~v),
    "reverse_bits": lambda t, v: _wr(t, int(bin(_u(t, v))[2:].zfill(bits(t))[::-1], 2)),
    "swap_bytes": _swap, "isqrt": lambda t, v: math.isqrt(v),
    "next_power_of_two": lambda t, v: 1 << (max(v, 1) - 1).bit_length(),
    "ilog2": lambda t, v: v.bit_length() - 1, "ilog10": lambda t, v: len(str(v)) - 1,
}
COUNTS = ("count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones", "ilog2", "ilog10")


def _rot(left):
    def f(t, v, n):
        w = bits(t)
        n = (n if left else -n) % w
        v = _u(t, v)
        return _wr(t, (v << n | v >> (w - n)) & ((1 << w) - 1))
    return f


TWO = {"rotate_left": _rot(True), "rotate_right": _rot(False)}


def _ilog(v, b):
    k = 0
    while v >= b:
        v //= b
        k += 1
    return k


def _power(a, n):
    if n < 0 or n > 100000:
        raise N.Undef("power")
    return a ** n


for _t in INTS:
    for _k, _f in ONE.items():
        I["int:%s:%s" % (_k, _t)] = functools.partial(_f, _t)
    for _k, _f in TWO.items():
        I["int:%s:%s" % (_k, _t)] = functools.partial(_f, _t)
    I["fmt:display:%s:None:None:None" % _t] = lambda x: N.Seq.of(list(str(x).encode()))
    I["fmt:lower_hex:%s:None:None:None" % _t] = functools.partial(lambda t, x: N.Seq.of(list(("%x" % _u(t, x)).encode())), _t)
    I["fmt:upper_hex:%s:None:None:None" % _t] = functools.partial(lambda t, x: N.Seq.of(list(("%X" % _u(t, x)).encode())), _t)
I["int:ilog"] = _ilog


def named(c, w, t, *xs):
    """a function of constants; folded right away where the arguments are constants"""
    name = "int:%s:%s" % (w, t)
    if all(T.is_int(x) for x in xs):
        return T.I(I[name](*[x.args[0] for x in xs]))
    so = "nat" if w in COUNTS else t
    return T.app(name, so, *xs)


@rx(r"(%s)::(count_ones|count_zeros|leading_zeros|trailing_zeros|leading_ones|trailing_ones|reverse_bits|swap_bytes)" % INTY)
def _one(c, t, w):
    return named(c, w, t, c.v(0))


@rx(r"(%s)::(rotate_left|rotate_right)" % INTY)
def _rotate(c, t, w):
    return named(c, w, t, c.v(0), c.v(1))


@rx(r"(%s)::(to|from)_(be|le)" % INTY)
def _endian(c, t, w, e):
    return c.v(0) if e == "le" else named(c, "swap_bytes", t, c.v(0))


@rx(r"(%s)::(?:abs_diff)" % INTY)
def _abs_diff(c, t):
    a, b = c.v(0), c.v(1)
    return T.ite(T.le(a, b), T.sub(b, a), T.sub(a, b))


@rx(r"(%s)::signum" % INTY)
def _signum(c, t):
    a = c.v(0)
    return T.ite(T.lt(T.I(0), a), T.I(1), T.ite(T.eq(a, T.I(0)), T.I(0), T.I(-1)))


@rx(r"(%s)::(is_positive|is_negative)" % INTY)
def _sign(c, t, w):
    return T.lt(T.I(0), c.v(0)) if w == "is_positive" else T.lt(c.v(0), T.I(0))


@rx(r"(%s)::is_power_of_two" % INTY)
def _ispow(c, t):
    return T.eq(named(c, "count_ones", t, c.v(0)), T.I(1))


@rx(r"(%s)::(?:checked_)?next_power_of_two" % INTY)
def _nextpow(c, t):
    a = c.v(0)
    ok = T.le(a, T.I((T.INTR[t][1] + 1) // 2))
    if "checked" in c.path:
        return T.ite(ok, T.some(named(c, "next_power_of_two", t, a)), T.none)
    if not c.require(ok, "next_power_of_two"):
        return None
    return named(c, "next_power_of_two", t, a)


@rx(r"(%s)::(?:isqrt)" % INTY)
def _isqrt(c, t):
    if not c.require(T.le(T.I(0), c.v(0)), "isqrt of a negative number"):
        return None
    return named(c, "isqrt", t, c.v(0))


@rx(r"(%s)::(checked_)?(ilog2|ilog10)" % INTY)
def _ilogs(c, t, ch, w):
    a = c.v(0)
    ok = T.lt(T.I(0), a)
    if ch:
        return T.ite(ok, T.some(named(c, w, t, a)), T.none)
    if not c.require(ok, w):
        return None
    return named(c, w, t, a)


@rx(r"(%s)::ilog" % INTY)
def _ilogb(c, t):
    if not c.require(T.band(T.lt(T.I(0), c.v(0)), T.lt(T.I(1), c.v(1))), "ilog"):
        return None
    return T.app("int:ilog", "nat", c.v(0), c.v(1))


@rx(r"(%s)::(checked_|wrapping_|saturating_)pow" % INTY)
def _pows(c, t, w):
    lo, hi = T.INTR[t]
    r = T.mk("ipow", c.v(0), c.v(1))
    if w == "checked_":
        return T.ite(T.band(T.le(T.I(lo), r), T.le(r, T.I(hi))), T.some(r), T.none)
    return T.icast(t, r) if w == "wrapping_" else T.mn(T.mx(r, T.I(lo)), T.I(hi))


@rx(r"(%s)::next_multiple_of" % INTY)
def _nextmul(c, t):
    a, b = c.v(0), c.v(1)
    if not c.require(T.bnot(T.eq(b, T.I(0))), "next_multiple_of zero"):
        return None
    return T.mul(T.ceildiv(a, b), b)


@rx(r"(%s)::is_multiple_of" % INTY)
def _ismul(c, t):
    a, b = c.v(0), c.v(1)
    z = T.eq(b, T.I(0))
    with T.under(T.cur().plus(T.bnot(z))):
        m = T.eq(T.imod(a, b), T.I(0))
    return T.ite(z, T.eq(a, T.I(0)), m)


@rx(r"(%s)::(checked|wrapping|saturating)_(div|rem)(_euclid)?" % INTY)
def _checked_div(c, t, how, w, eu):
    a, b = c.v(0), c.v(1)
    lo, hi = T.INTR[t]
    z = T.eq(b, T.I(0))
    bad = z if lo == 0 else T.bor(z, T.band(T.eq(a, T.I(lo)), T.eq(b, T.I(-1))))
    if how != "checked":
        if not c.require(T.bnot(z), "division by zero"):
            return None
    with T.under(T.cur().plus(T.bnot(bad))):
        if lo == 0:
            r = T.idiv(a, b) if w == "div" else T.imod(a, b)
        elif eu:
            r = T.mk("ediv" if w == "div" else "emod", a, b)
        else:
            r = T.mk("tdiv" if w == "div" else "trem", a, b)
    if how == "checked":
        return T.ite(bad, T.none, T.some(r))
    if lo == 0:
        return r
    over = T.I(0) if w == "rem" else T.I(lo if how == "wrapping" else hi)
    return T.ite(T.band(T.eq(a, T.I(lo)), T.eq(b, T.I(-1))), over, r)


@rx(r"(%s)::(checked|wrapping)_(shl|shr)" % INTY)
def _shifts(c, t, how, w):
    a, n = c.v(0), c.v(1)
    k = T.I(bits(t))
    ok = T.lt(n, k)
    if how == "wrapping":
        n = T.imod(n, k)
        return T.shl(t, a, n) if w == "shl" else T.shr(a, n)
    with T.under(T.cur().plus(ok)):
        r = T.shl(t, a, n) if w == "shl" else T.shr(a, n)
    return T.ite(ok, T.some(r), T.none)


@rx(r"(%s)::(checked|wrapping|saturating)_abs" % INTY)
def _abses(c, t, how):
    a = c.v(0)
    lo, hi = T.INTR[t]
    m = T.eq(a, T.I(lo))
    r = T.ite(T.le(T.I(0), a), a, T.neg(a))
    return T.ite(m, T.none, T.some(r)) if how == "checked" else T.ite(m, T.I(lo if how == "wrapping" else hi), r)


# ---------------------------------------------------------------- floats

for _n, _f in {"exp2": lambda x: 2.0 ** x, "exp_m1": math.expm1, "ln_1p": math.log1p, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh}.items():
    N.MATH[_n] = _f


@rx(r"(f64|f32)::(log2|log10|exp2|exp_m1|ln_1p|sinh|cosh|tanh|asinh|acosh|atanh)")
def _f1(c, t, w):
    r = T.ffun(w, c.v(0))
    return T.f32(r) if t == "f32" else r


@rx(r"f64::(to_radians|to_degrees)")
def _angle(c, w):
    return T.fop("fmul", c.v(0), T.F(math.pi / 180 if w == "to_radians" else 180 / math.pi))


@rx(r"(f64|f32)::sin_cos")
def _sincos(c, t):
    r = [T.ffun(w, c.v(0)) for w in ("sin", "cos")]
    return T.tup(*[T.f32(x) if t == "f32" else x for x in r])


@rx(r"(?:f64)::(to_bits|from_bits)")
def _fbits(c, w):
    return T.app("f64::" + w, "u64" if w == "to_bits" else "f64", c.v(0))


I["f64::to_bits"] = lambda x: struct.unpack("<Q", struct.pack("<d", x))[0]
I["f64::from_bits"] = lambda x: struct.unpack("<d", struct.pack("<Q", x))[0]


# ---------------------------------------------------------------- options

@rx(r"core::option::Option::(filter|xor|zip|is_none_or|replace|insert|get_or_insert_with|unzip|flatten|inspect|take_if)")
def _opt(c, w):
    x = c.v(0)
    k = isopt(x)
    p = T.fld(T.assume(x, k, True), "Some", 0, psort(c))
    if w == "filter":
        t = branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.FALSE)
        return None if t is None else T.ite(T.band(k, t), x, T.none)
    if w == "is_none_or":
        return branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.TRUE)
    if w == "xor":
        y = c.v(1)
        j = isopt(y)
        return T.ite(k, T.ite(j, T.none, x), y)
    if w == "zip":
        y = c.v(1)
        j = isopt(y)
        return T.ite(T.band(k, j), T.some(T.tup(p, T.fld(T.assume(y, j, True), "Some", 0))), T.none)
    if w == "flatten":
        return T.ite(k, p, T.none)
    if w == "replace":
        c.set(0, T.some(c.args[1]))
        return x
    raise Unsup("Option::" + w)


@rx(r"core::mem::swap")
def _mswap(c):
    a, b = c.v(0), c.v(1)
    c.set(0, b)
    c.set(1, a)
    return T.UNIT


# ---------------------------------------------------------------- iterators

def fold_step(c, n, init, f, what):
    """f(accumulator, round) run n times on the state"""
    acc = c.E.new_cell(c.st, init)

    def step(st, i):
        old = c.st
        c.st = st
        try:
            r = f(c.E.load(st, acc), i)
            s2 = c.st
        finally:
            c.st = old
        if r is None:
            return None, None
        s2 = s2.copy()
        s2.cells[acc.args[0]] = r
        return T.UNIT, s2
    st, _, _ = c.E.iterate(c.st, n, step, what)
    c.st = st
    return c.E.load(st, acc)


@adapter("reduce")
def _reduce(c):
    s = seqarg(c, c.args[0])
    n = T.length(s)
    return branch2(c, T.lt(T.I(0), n), lambda: T.some(fold_step(
        c, T.sub(n, T.I(1)), T.at(s, T.I(0)), lambda a, i: c.call(c.args[1], a, T.at(s, T.add(i, T.I(1)))), "reduce")), lambda: T.none)


@adapter("(try_fold)")
def _try_fold(c, *g):
    s = seqarg(c, c.args[0])
    ty = ty_name(c.ty[-1]) if c.ty else "?"
    if ty not in ("Option", "Result"):
        raise Unsup("try_fold of " + ty)
    wrap, ok, v = (T.some, isopt, "Some") if ty == "Option" else (T.ok, isok, "Ok")

    def f(a, i):
        k = ok(a)
        p = T.fld(T.assume(a, k, True), v, 0)
        return branch2(c, k, lambda: c.call(c.args[2], p, T.at(s, i)), lambda: a)
    return fold_step(c, T.length(s), wrap(c.args[1]), f, "try_fold")


@adapter("scan")
def _scan(c):
    s = seqarg(c, c.args[0])
    acc = c.E.new_cell(c.st, c.args[1])
    clo = c.args[2]
    before = len(c.E.panics)
    st, _, l = c.E.iterate(c.st, T.length(s), lambda st, i: c.E.call_closure(st, clo, [acc, T.at(s, i)]), "scan")
    if len(c.E.panics) > before:
        raise Unsup("scan with a step that may panic")
    c.st = st
    n = T.length(s)
    if l is None:
        return it(T.EMPTY)
    return it(until_none(n, l))


def until_none(n, l):
    k = T.fresh("k", "nat")
    v = T.inst(l, k)
    stop = T.first(n, T.lam(k, T.bnot(isopt(v))))
    with T.under(T.cur().plus(T.lt(k, stop))):
        return T.tab(stop, T.lam(k, T.fld(T.renorm(v), "Some", 0)))


@adapter("map_while")
def _map_while(c):
    s = partarg(c, c.args[0])
    l = early(c, s, c.args[1], "map_while")
    return it(until_none(T.length(s), l) if l is not None else T.EMPTY)


@adapter("find_map")
def _find_map(c):
    s = partarg(c, c.v(0))
    l = early(c, s, c.args[1], "find_map")
    n = T.length(s)
    if l is None:
        return T.none
    k = T.fresh("k", "nat")
    f = T.first(n, T.lam(k, isopt(T.inst(l, k))))
    c.used = T.add(f, T.I(1))
    ok = T.lt(f, n)
    with T.under(T.cur().plus(ok)):
        v = T.inst(l, f)
    return T.ite(ok, v, T.none)


@adapter("rposition")
def _rposition(c):
    s = partarg(c, c.v(0))
    l = early(c, s, c.args[1], "rposition")
    n = T.length(s)
    if l is None:
        return T.none
    k = T.fresh("k", "nat")
    f = T.first(n, T.lam(k, T.inst(l, T.sub(T.sub(n, T.I(1)), k))))
    return T.ite(T.lt(f, n), T.some(T.sub(T.sub(n, T.I(1)), f)), T.none)


@adapter("rfind")
def _rfind(c):
    s = T.rev(partarg(c, c.v(0)))
    l = early(c, s, c.args[1], "rfind")
    n = T.length(s)
    if l is None:
        return T.none
    f = T.first(n, l)
    return T.ite(T.lt(f, n), T.some(T.at(s, f)), T.none)


@adapter("rfold")
def _rfold(c):
    s = T.rev(seqarg(c, c.args[0]))
    return fold_step(c, T.length(s), c.args[1], lambda a, i: c.call(c.args[2], a, T.at(s, i)), "rfold")


def picked(s, l, want):
    k = T.fresh("k", "nat")
    t = T.inst(l, k)
    return T.flat(T.tab(T.length(s), T.lam(k, T.ite(t if want else T.bnot(t), T.lst(T.at(s, k)), T.EMPTY))))


def test_items(c, s, clo, what):
    st, _, l = c.E.iterate(c.st, T.length(s), lambda st, i: c.E.call_closure(st, clo, [T.at(s, i)]), what)
    c.st = st
    return l


@adapter("partition")
def _partition(c):
    s = seqarg(c, c.args[0])
    l = test_items(c, s, c.args[1], "partition")
    if l is None:
        return T.tup(T.EMPTY, T.EMPTY)
    return T.tup(picked(s, l, True), picked(s, l, False))


@adapter("nth_back")
def _nth_back(c):
    s = seqarg(c, c.v(0))
    n = T.length(s)
    k = T.sub(T.sub(n, T.I(1)), c.v(1))
    ok = T.le(T.I(0), k)
    c.set(0, it(T.slc(s, T.I(0), T.mx(T.I(0), k))))
    with T.under(T.cur().plus(ok)):
        x = T.at(s, k)
    return T.ite(ok, T.some(x), T.none)


@adapter("next_back")
def _next_back(c):
    x = c.v(0)
    if x.op != "ctor" or x.args[0] not in ("It",):
        raise Unsup("next_back")
    s = seqarg(c, x)
    n = T.length(s)
    ok = T.lt(T.I(0), n)
    m = T.mx(T.I(0), T.sub(n, T.I(1)))
    c.set(0, it(T.slc(s, T.I(0), m)))
    with T.under(T.cur().plus(ok)):
        x = T.at(s, T.sub(n, T.I(1)))
    return T.ite(ok, T.some(x), T.none)


@rx(r"core::iter::adapters::peekable::Peekable::peek")
def _peek(c):
    x = c.v(0)
    if x.op != "ctor" or x.args[0] != "It":
        raise Unsup("peek")
    s, p = x.args[1]
    ok = T.lt(p, T.length(s))
    with T.under(T.cur().plus(ok)):
        x = T.at(s, p)
    return T.ite(ok, T.some(x), T.none)


@rx(r"core::iter::sources::once::once")
def _once(c):
    return it(T.lst(c.args[0]))


@rx(r"core::iter::sources::empty::empty")
def _empty(c):
    return it(T.EMPTY)


@rx(r"core::iter::sources::repeat::repeat")
def _repeat(c):
    return it(T.tab(T.I(T.LENMAX), T.mk("lam", T._shift(c.v(0), 1))))


@rx(r"core::iter::sources::repeat_n::repeat_n", r"core::iter::sources::repeat_n::RepeatN::new")
def _repeat_n(c):
    return it(T.tab(c.v(1), T.mk("lam", T._shift(c.v(0), 1))))


# ---------------------------------------------------------------- slices and vectors

@rx(r"(?:core::)?slice::contains", r"alloc::vec::Vec::contains")
def _contains(c):
    s, x = c.v(0), c.v(1)
    n = T.length(s)
    return T.bnot(T.eq(T.first(n, _is(s, x)), n))


def _is(s, x):
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, T.length(s)))):
        y = T.at(s, k)
        e = T.fcmp("feqc", y, x) if floaty(y) or floaty(x) else T.ite(x, y, T.bnot(y)) if booly(x) and booly(y) else T.eq(y, x)
    return T.lam(k, e)


@rx(r"alloc::vec::Vec::dedup")
def _dedup(c):
    s = c.v(0)
    k = T.fresh("k", "nat")
    n = T.length(s)
    with T.under(T.cur().plus(T.lt(k, n))):
        first = T.eq(k, T.I(0))
        with T.under(T.cur().plus(T.bnot(first))):
            x, y = T.at(s, k), T.at(s, T.sub(k, T.I(1)))
            if floaty(x) or booly(x):
                raise Unsup("dedup")
            new = T.bnot(T.eq(x, y))
        c.set(0, T.flat(T.tab(n, T.lam(k, T.ite(T.bor(first, new), T.lst(T.at(s, k)), T.EMPTY)))))
    return T.UNIT


@rx(r"alloc::vec::Vec::retain(?:_mut)?")
def _retain(c):
    if c.path.endswith("_mut"):
        raise Unsup("retain_mut")
    s = c.v(0)
    l = test_items(c, s, c.args[1], "retain")
    c.set(0, picked(s, l, True) if l is not None else T.EMPTY)
    return T.UNIT


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec|alloc::string::String)::(remove|swap_remove)")
def _remove(c, w):
    if "String" in c.path:
        raise Unsup("String::remove")
    s, i = c.v(0), c.v(1)
    n = T.length(s)
    if not c.require(T.lt(i, n), "remove index"):
        return None
    x = T.at(s, i)
    if w == "remove":
        c.set(0, T.cat(T.slc(s, T.I(0), i), T.slc(s, T.add(i, T.I(1)), n)))
    else:
        m = T.sub(n, T.I(1))
        c.set(0, T.slc(T.store(s, i, T.at(s, m)), T.I(0), m))
    return x


@rx(r"slice::repeat", r"str::repeat")
def _srepeat(c):
    s, m = c.v(0), c.v(1)
    n = T.length(s)
    ok = T.lt(T.I(0), n)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(ok)):
        t = T.tab(T.mul(n, m), T.lam(k, T.at(s, T.imod(k, n))))
    return T.ite(ok, t, T.EMPTY)


@rx(r"slice::(rotate_left|rotate_right)")
def _srotate(c, w):
    s, m = c.v(0), c.v(1)
    n = T.length(s)
    if not c.require(T.le(m, n), "rotation"):
        return None
    if w == "rotate_right":
        m = T.sub(n, m)
    c.set(0, T.cat(T.slc(s, m, n), T.slc(s, T.I(0), m)))
    return T.UNIT


@rx(r"slice::rchunks")
def _rchunks(c):
    s, n = c.v(0), c.v(1)
    if not c.require(T.lt(T.I(0), n), "rchunks(0)"):
        return None
    L = T.length(s)
    cnt = T.ceildiv(L, n)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, cnt))):
        hi = T.sub(L, T.mul(k, n))
        return it(T.tab(cnt, T.lam(k, T.slc(s, T.mx(T.I(0), T.sub(hi, n)), hi))))


@rx(r"slice::(split_first|split_last)")
def _split1(c, w):
    s = c.v(0)
    n = T.length(s)
    ok = T.lt(T.I(0), n)
    with T.under(T.cur().plus(ok)):
        v = T.tup(T.at(s, T.I(0)), T.slc(s, T.I(1), n)) if w == "split_first" else T.tup(T.at(s, T.sub(n, T.I(1))), T.slc(s, T.I(0), T.sub(n, T.I(1))))
    return T.ite(ok, T.some(v), T.none)


@rx(r"(?:alloc::vec::Vec|slice)::(first_mut|last_mut)")
def _first_mut(c, w):
    r = c.E.target(c.st, c.args[0])
    n = T.length(c.v(0))
    i = T.I(0) if w == "first_mut" else T.sub(n, T.I(1))
    return T.ite(T.lt(T.I(0), n), T.some(c.E.through(r, [("i", i)])), T.none)


@rx(r"array::map", r"core::array::.*::map")
def _amap(c):
    s = c.v(0)
    l = test_items(c, s, c.args[1], "array::map")
    return T.tab(T.length(s), l) if l is not None else T.EMPTY


@rx(r"core::array::from_fn")
def _from_fn(c):
    n = next((a.get("v", a.get("n")) for a in c.ty if a.get("k") == "const"), None)
    if n is None:
        raise Unsup("array::from_fn")
    n = T.I(int(n))
    st, _, l = c.E.iterate(c.st, n, lambda st, i: c.E.call_closure(st, c.args[0], [i]), "array::from_fn")
    c.st = st
    return T.tab(n, l) if l is not None else T.EMPTY


@rx(r"alloc::vec::Vec::resize_with")
def _resize_with(c):
    v, n = c.v(0), c.v(1)
    l = T.length(v)
    st, _, e = c.E.iterate(c.st, T.mx(T.I(0), T.sub(n, l)), lambda st, i: c.E.call_closure(st, c.args[2], []), "resize_with")
    c.st = st
    k = T.le(l, n)
    with T.under(T.cur().plus(k)):
        more = T.cat(v, T.tab(T.mx(T.I(0), T.sub(n, l)), e)) if e is not None else v
    c.set(0, T.ite(k, more, T.slc(v, T.I(0), n)))
    return T.UNIT


@rx(r"slice::join", r".*::Join>::join")
def _join(c):
    s, p = c.v(0), c.v(1)
    if s.op == "list":
        out = []
        for k, x in enumerate(s.args[0]):
            out += ([p] if k else []) + [c.E.val(c.st, x)]
        return T.cat(*out)
    k = T.fresh("k", "nat")
    n = T.length(s)
    with T.under(T.cur().plus(T.lt(k, n))):
        return T.flat(T.tab(n, T.lam(k, T.cat(T.ite(T.eq(k, T.I(0)), T.EMPTY, p), T.at(s, k)))))


@rx(r"str::bytes")
def _sbytes(c):
    return it(c.v(0))


# ---------------------------------------------------------------- double-ended queues and sets, as sequences

@rx(r"alloc::collections::vec_deque::VecDeque::(\w+)", r"<alloc::collections::vec_deque::VecDeque as core::iter::traits::collect::IntoIterator>::(into_iter)")
def _deque(c, *g):
    w = next(x for x in g if x)
    if w in ("new", "with_capacity"):
        return T.EMPTY
    v = c.v(0)
    n = T.length(v)
    ok = T.lt(T.I(0), n)
    if w == "len":
        return n
    if w == "is_empty":
        return T.eq(n, T.I(0))
    if w == "push_back":
        c.set(0, T.cat(v, T.lst(c.v(1))))
        return T.UNIT
    if w == "push_front":
        c.set(0, T.cat(T.lst(c.v(1)), v))
        return T.UNIT
    if w in ("iter", "into_iter"):
        return it(v)
    if w in ("front", "back", "pop_front", "pop_back"):
        with T.under(T.cur().plus(ok)):
            front = w.endswith("front")
            x = T.at(v, T.I(0) if front else T.sub(n, T.I(1)))
            rest = T.slc(v, T.I(1), n) if front else T.slc(v, T.I(0), T.sub(n, T.I(1)))
        if w.startswith("pop"):
            c.set(0, T.ite(ok, rest, v))
        return T.ite(ok, T.some(x), T.none)
    if w == "clear":
        c.set(0, T.EMPTY)
        return T.UNIT
    raise Unsup("VecDeque::" + w)


def distinct(c, s):
    """the first occurrences in a sequence"""
    def f(acc, i):
        x = T.at(s, i)
        has = T.lt(T.first(T.length(acc), _is(acc, x)), T.length(acc))
        return T.ite(has, acc, T.cat(acc, T.lst(x)))
    return fold_step(c, T.length(s), T.EMPTY, f, "set")


@rx(r"(std::collections::hash::set::HashSet|alloc::collections::btree::set::BTreeSet)::(\w+)")
def _set(c, ty, w):
    if w in ("new", "with_capacity"):
        return T.EMPTY
    v = c.v(0)
    if w == "len":
        return T.length(v)
    if w == "is_empty":
        return T.eq(T.length(v), T.I(0))
    if w in ("insert", "contains", "remove"):
        x = c.v(1)
        n = T.length(v)
        f = T.first(n, _is(v, x))
        has = T.lt(f, n)
        if w == "contains":
            return has
        if w == "insert":
            c.set(0, T.ite(has, v, T.cat(v, T.lst(x))))
            return T.bnot(has)
        with T.under(T.cur().plus(has)):
            rest = T.cat(T.slc(v, T.I(0), f), T.slc(v, T.add(f, T.I(1)), n))
        c.set(0, T.ite(has, rest, v))
        return has
    if w == "clear":
        c.set(0, T.EMPTY)
        return T.UNIT
    if w in ("iter", "first", "last") and "BTree" in ty:
        s = sorted_seq(c, v, natural(c), "BTreeSet")
        if w == "iter":
            return it(s)
        n = T.length(s)
        return T.ite(T.lt(T.I(0), n), T.some(T.at(s, T.I(0) if w == "first" else T.sub(n, T.I(1)))), T.none)
    raise Unsup(short(ty) + "::" + w)


@rx(r"(?:std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap)::(new|with_capacity|len|is_empty|insert|get|contains_key|remove|clear)")
def _map(c, w):
    if w in ("new", "with_capacity"):
        return T.EMPTY
    v = c.v(0)
    n = T.length(v)
    if w == "len":
        return n
    if w == "is_empty":
        return T.eq(n, T.I(0))
    if w == "clear":
        c.set(0, T.EMPTY)
        return T.UNIT
    x = c.v(1)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, n))):
        e = T.eq(T.fld(T.at(v, k), None, 0), x)
    f = T.first(n, T.lam(k, e))
    has = T.lt(f, n)
    if w == "contains_key":
        return has
    with T.under(T.cur().plus(has)):
        old = T.some(T.fld(T.at(v, f), None, 1))
        rest = T.cat(T.slc(v, T.I(0), f), T.slc(v, T.add(f, T.I(1)), n))
        upd = T.store(v, f, T.tup(x, c.v(2))) if w == "insert" else None
    if w == "insert":
        c.set(0, T.ite(has, upd, T.cat(v, T.lst(T.tup(x, c.v(2))))))
    elif w == "remove":
        c.set(0, T.ite(has, rest, v))
    return T.ite(has, old, T.none)


@rx(r"core::cmp::Reverse")
def _reverse(c):
    return T.ctor("core::cmp::Reverse", [c.args[0]])


@rx(r"str::parse")
def _parse(c):
    t = c.ty[0]["n"] if c.ty and c.ty[0]["k"] == "int" else None
    if t is None:
        return c.E.unknown(c.path, c.args, "Result", c.st)
    x = T.app("str::parse:" + t, "?", c.v(0))
    ok = T.eq(T.discr(x), T.I(1))
    return T.ite(ok, T.ok(T.fld(x, "Some", 0, t)), T.err(T.app("ParseIntError", "?", c.v(0))))


def _num(t):
    def f(s):
        b = bytes(s.all())
        body = b[1:] if b[:1] in (b"+", b"-") and (b[:1] == b"+" or T.INTR[t][0] < 0) else b
        if body and all(48 <= x <= 57 for x in body):
            v = int(body) * (-1 if b[:1] == b"-" else 1)
            if T.INTR[t][0] <= v <= T.INTR[t][1]:
                return N.Ctor(T.SOME, [v], 1)
        return N.Ctor("core::option::Option::None", [], 0)
    return f


for _t in INTS:
    I["str::parse:" + _t] = _num(_t)
