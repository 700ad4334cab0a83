"""Models of library functions for the value graph: what the call returns, stores and requires."""
import functools
import re

from . import terms as T
from .exec import (Call, Engine, FnRef, Unsup, binop, is_mref, mref, sort_of)

M = {}
RX = []

INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
RANGE = "core::ops::range::Range"


def model(*paths):
    def d(f):
        for p in paths:
            M[p] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile("^(?:" + p + ")$"), f))
        return f
    return d


_cache = {}


def lookup(path, fj, args):
    h = M.get(path)
    if h is not None:
        return h
    if path in _cache:
        return _cache[path]
    h = None
    for r, f in RX:
        m = r.match(path)
        if m:
            h = (lambda f, m: lambda c: f(c, *m.groups()))(f, m) if m.groups() else f
            break
    _cache[path] = h
    return h


# ---------------------------------------------------------------- helpers

def short(name):
    return name.split("::")[-1]


def ctor_is(t, name):
    return t.op == "ctor" and short(t.args[0]) == name


def ty_name(t):
    """last path segment of an adt type"""
    while t is not None and t["k"] in ("ref", "ptr"):
        t = t["to"]
    if t is None:
        return "?"
    if t["k"] == "adt":
        return t["path"].split("::")[-1]
    if t["k"] in ("int", "float"):
        return t["n"]
    return t["k"]


def in_range(i, n):
    return T.band(T.le(T.I(0), i), T.lt(i, n))


def bounds(c, r, n):
    """(lo, hi) of a range-like term over length n, checked"""
    nm = short(r.args[0]) if r.op == "ctor" else None
    f = r.args[1] if r.op == "ctor" else ()
    if nm in ("Range",):
        lo, hi = c.E.val(c.st, f[0]), c.E.val(c.st, f[1])
    elif nm == "RangeTo":
        lo, hi = T.I(0), c.E.val(c.st, f[0])
    elif nm == "RangeFrom":
        lo, hi = c.E.val(c.st, f[0]), n
    elif nm == "RangeFull":
        return T.I(0), n
    elif nm == "RangeInclusive":
        lo, hi = c.E.val(c.st, f[0]), T.add(c.E.val(c.st, f[1]), T.I(1))
    elif nm == "RangeToInclusive":
        lo, hi = T.I(0), T.add(c.E.val(c.st, f[0]), T.I(1))
    else:
        return None
    if not c.require(T.band(T.le(lo, hi), T.le(hi, n)), "slice range"):
        return False
    return lo, hi


def isopt(t):
    return T.eq(T.discr(t), T.I(1))


def some_of(t, sort=None):
    return T.fld(t, "Some", 0, sort)


def isok(t):
    return T.eq(T.discr(t), T.I(0))


def idx2(c, t):
    t = c.E.val(c.st, t)
    if t.op == "ctor" and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == "tup" and len(t.args[0]) == 2:
        return t.args[0]
    if t.op == "list" and len(t.args[0]) == 2:
        return t.args[0]
    return T.at(t, T.I(0), "usize"), T.at(t, T.I(1), "usize")


# ---------------------------------------------------------------- iterators

def it(seq):
    return T.ctor("It", [seq, T.I(0)])


def items(s):
    """remaining items of a materialised iterator"""
    return T.slc(s.args[1][0], s.args[1][1], T.length(s.args[1][0]))


def has_mref(t):
    """does a closure (or a value) carry a mutable reference?"""
    if t.op == "mref":
        return True
    if t.op == "lam":
        return has_mref(t.args[0])
    return any(has_mref(x) for x in T.subterms(t))


def to_iter(c, x):
    """an iterator term for any iterable value (mutable references give mutable items)"""
    E, st = c.E, c.st
    if is_mref(x):
        v = E.val(st, x)
        if is_walk(v):
            i = to_iter(c, v)
            E.store(st, E.target(st, x), walked(v, None))
            return i
        return iter_mut(c, x)
    if x.op == "ctor":
        n = short(x.args[0])
        if x.args[0] in LAZY:
            return x
        if n == "Range":
            a, b = (E.val(st, y) for y in x.args[1])
            k = T.fresh("k", "nat")
            return it(T.tab(T.mx(T.I(0), T.sub(b, a)), T.lam(k, T.add(a, k))))
        if n == "RangeInclusive":
            a, b = (E.val(st, y) for y in x.args[1][:2])
            k = T.fresh("k", "nat")
            return it(T.tab(T.mx(T.I(0), T.add(b, T.neg(a), T.I(1))), T.lam(k, T.add(a, k))))
        if n == "RangeFrom":
            a = E.val(st, x.args[1][0])
            k = T.fresh("k", "nat")
            return it(T.tab(T.I(T.LENMAX), T.lam(k, T.add(a, k))))
        if n == "Some":
            return it(T.lst(x.args[1][0]))
        if n == "None":
            return it(T.EMPTY)
        return None
    if x.op == "ite":
        a, b = to_iter(c, x.args[1]), to_iter(c, x.args[2])
        if a is None or b is None:
            return None
        return T.ite(x.args[0], a, b)
    if x.op in ("clo", "fnv", "unit"):
        return None
    return it(x)


LAZY = ("It", "ItMap", "ItEnum")


def is_walk(v):
    """is this an iterator (that someone may hold a mutable reference to)?"""
    return v.op == "ctor" and (v.args[0] in LAZY or short(v.args[0]) in ("Range", "RangeInclusive", "RangeFrom"))


def left(v):
    """the number of items an iterator still has, None when it has no end"""
    if short(v.args[0]) == "RangeInclusive":
        a, b = v.args[1][:2]
        return T.mx(T.I(0), T.add(b, T.neg(a), T.I(1)))
    if short(v.args[0]) == "Range":
        a, b = v.args[1][:2]
        return T.mx(T.I(0), T.sub(b, a))
    if short(v.args[0]) == "RangeFrom":
        return None
    while v.args[0] != "It":
        v = v.args[1][0]
    s, p = v.args[1]
    return T.mx(T.I(0), T.sub(T.length(s), p))


def walked(v, m):
    """the iterator after m of its items were taken (None: all)"""
    n = left(v)
    if m is None:
        m = n
    elif n is not None:
        m = T.mn(m, n)
    k = short(v.args[0])
    if m is None or k == "RangeInclusive":
        return T.ctor("It", [T.app("an iterator walked for a while", "seq"), T.I(0)])
    if k in ("Range", "RangeFrom"):
        return T.ctor(v.args[0], [T.add(v.args[1][0], m)] + list(v.args[1][1:]))
    if k == "It":
        return T.ctor("It", [v.args[1][0], T.add(v.args[1][1], m)])
    if k == "ItEnum":
        return T.ctor("ItEnum", [walked(v.args[1][0], m), T.add(v.args[1][1], m)])
    return T.ctor(v.args[0], [walked(v.args[1][0], m)] + list(v.args[1][1:]))


STEPS = ("next", "nth", "next_back", "nth_back", "by_ref", "len", "size_hint", "peek", "is_empty", "into_iter")
ALL = ("sum", "product", "fold", "for_each", "count", "last", "collect", "max", "min", "max_by", "min_by", "max_by_key",
       "min_by_key", "reduce", "rfold", "partition", "unzip")
LATER = ("map", "enumerate", "rev", "skip", "step_by", "chain", "copied", "cloned", "flatten", "flat_map", "filter_map",
         "filter", "skip_while", "inspect", "fuse", "peekable")


def by_reference(c, f, g):
    """run the model of an adapter; what is left of an iterator it was given by mutable reference"""
    name = c.path.split("::")[-1]
    lent = []
    for k, x in enumerate(c.args[:2]):
        if is_mref(x) and (k == 0 or name in ("zip", "chain")):
            v = c.E.val(c.st, x)
            if is_walk(v):
                lent.append((k, c.E.target(c.st, x), v))
    if not lent or name in STEPS:
        return f(c, *g)
    c.used = None
    lens = [left(c.E.val(c.st, x)) if is_walk(c.E.val(c.st, x)) else None for x in c.args[:2]] if name == "zip" else None
    cnt = c.v(1) if name == "take" else None
    r = f(c, *g)
    if r is None:
        return None
    for k, t, v in lent:
        n = left(v)
        late = True
        if name in ALL:
            m, late = n, False
        elif name in LATER:
            m = n
        elif name == "take":
            m = cnt
        elif name == "zip" and lens[1 - k] is not None:
            # from the first of two, one item more is taken or not, depending on how the pairs are walked
            m = lens[0] if k else n if T.le(n, lens[1]) is T.TRUE else None
        else:
            m, late = c.used, name in ("take_while", "map_while")
        if m is None:
            c.E.store(c.st, t, T.ctor("It", [T.app("an iterator walked for a while", "seq"), T.I(0)]))
            continue
        c.E.store(c.st, t, walked(v, m))
        if late and isinstance(r, T.T) and r.op == "ctor" and r.args[0] == "It":
            if r.args[1][0] is T.EMPTY:
                continue
            # the items are only taken when the result is walked: it has to be walked to its end
            c.E.lazies.add(r.args[1][0])
            c.E.lent.add(r.args[1][0])
        elif late and isinstance(r, T.T) and r.op == "ctor" and r.args[0] in LAZY:
            raise Unsup("effects in an iterator on loan")
    return r


def iter_mut(c, r):
    E = c.E
    t = E.target(c.st, r)
    v = E.val(c.st, t)
    i = T.fresh("k", "nat")
    if t.op != "mref":
        raise Unsup("mutable iteration over a choice of targets")
    return it(T.mk("tab", T.length(v), T.lam(i, E.through(t, [("i", i)]))))


def raw_at(s, i):
    return T.at(s, i)


def pull(c, x):
    """(n, step(state, i) -> (item, state)) of an iterator term"""
    E = c.E
    if x.args[0] == "It":
        s, p = x.args[1]
        return T.sub(T.length(s), p), lambda st, i: (T.at(s, T.add(p, i)), st)
    if x.args[0] == "ItMap":
        n, g = pull(c, x.args[1][0])
        clo = x.args[1][1]

        def step(st, i):
            v, s = g(st, i)
            if v is None:
                return None, None
            return E.call_closure(s, clo, [v])
        return n, step
    if x.args[0] == "ItEnum":
        n, g = pull(c, x.args[1][0])
        k0 = x.args[1][1]

        def step(st, i):
            v, s = g(st, i)
            if v is None:
                return None, None
            return T.tup(T.add(k0, i), v), s
        return n, step
    raise Unsup("iterator " + str(x.args[0]))


def drain(c, x):
    """run the iterator to its end: sequence of its items (state updated), or None"""
    if x.op == "ite":
        raise Unsup("choice of iterators")
    if x.args[0] == "It":
        return items(x)
    n, g = pull(c, x)
    st, _, l = c.E.iterate(c.st, n, g, "iterator")
    c.st = st
    if l is None:
        return T.EMPTY
    return T.tab(n, l)


def seqarg(c, x):
    i = to_iter(c, x)
    if i is None:
        raise Unsup("not an iterable value: %s" % x.op)
    return drain(c, i)


def partarg(c, x):
    """the sequence of an iterator that may be left before its end: nothing may happen in the part not walked"""
    i = to_iter(c, x)
    if i is None:
        raise Unsup("not an iterable value: %s" % x.op)
    partial(c, i)
    return drain(c, i)


def partial(c, i):
    b = i
    while b.op == "ctor" and b.args[0] in LAZY and b.args[0] != "It":
        if b.args[0] == "ItMap":
            raise Unsup("a lazy map with effects, not walked to its end")
        b = b.args[1][0]
    if c.E.lazies and any(T.has(i, l) for l in c.E.lazies):
        raise Unsup("a lazy map that may panic, not walked to its end")


def early(c, s, clo, what):
    """the lambda of a test run over items until it stops; the test itself may have no effect and must not panic"""
    before, st0 = len(c.E.panics), c.st
    st, _, l = c.E.iterate(c.st, T.length(s), lambda st, i: c.E.call_closure(st, clo, [T.at(s, i)]), what)
    if len(c.E.panics) > before:
        raise Unsup(what + " with a test that may panic")
    if any(st.cells.get(k) is not v for k, v in st0.cells.items()):
        raise Unsup(what + " with a test that has effects")
    c.st = st
    return l


def mapped(c, x, clo):
    if x is None:
        raise Unsup("not an iterable value")
    clo = c.E.val(c.st, clo)
    if x.args[0] == "It" and not has_mref(clo) and not has_mref(x):
        n, g = pull(c, x)
        before = len(c.E.panics)
        st, _, l = c.E.iterate(c.st, n, lambda st, i: c.E.call_closure(st, clo, [g(st, i)[0]]), "map")
        c.st = st
        if len(c.E.panics) > before and l is not None:
            c.E.lazies.add(l)
        return it(T.tab(n, l) if l is not None else T.EMPTY)
    return T.ctor("ItMap", [x, clo])


@rx(r"<.* as core::iter::traits::collect::IntoIterator>::into_iter", r"(?:slice|alloc::vec::Vec|bitvec::slice::BitSlice|bitvec::vec::BitVec|array)::(?:iter|into_iter)",
    r"slice::iter", r"core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(c):
    x = c.args[0]
    if is_mref(x) and is_walk(c.v(0)):
        return x
    i = to_iter(c, x)
    if i is None:
        return c.E.unknown(c.path, c.args, "?", c.st)
    return i


@rx(r"(?:slice|alloc::vec::Vec)::iter_mut")
def _iter_mut(c):
    return iter_mut(c, c.args[0])


@rx(r"(?:<.* as )?core::ops::function::Fn(?:Mut|Once)?(?:>)?::call(?:_mut|_once)?")
def _call(c):
    """a call through a function value: the arguments come as one tuple"""
    t = c.args[1]
    if t.op != "tup":
        return c.E.unknown(c.path, c.args, "?", c.st)
    return c.E.call_value(c.st, c.args[0], list(t.args[0]))


@rx(r".*::Iterator>::next", r"core::iter::traits::iterator::Iterator::next")
def nxt(c):
    r = c.args[0]
    x = c.v(0)
    if ctor_is(x, "Range"):
        a, b = (c.E.val(c.st, y) for y in x.args[1])
        k = T.lt(a, b)
        c.set(0, T.ctor(x.args[0], [T.ite(k, T.add(a, T.I(1)), a), b]))
        return T.ite(k, T.some(a), T.none)
    if x.op != "ctor" or x.args[0] not in LAZY:
        return c.E.unknown(c.path, c.args, "Option", c.st)
    base = x
    while base.args[0] != "It":
        base = base.args[1][0]
    s, p = base.args[1]
    if c.E.lent and any(T.has(s, l) for l in c.E.lent):
        raise Unsup("an iterator on loan, walked step by step")
    if c.E.lazies and not (c.fr is not None and c.fr.active) and any(T.has(s, l) for l in c.E.lazies):
        raise Unsup("a lazy map that may panic, not walked to its end")
    k = T.lt(p, T.length(s))

    def advance(y):
        if y.args[0] == "It":
            return T.ctor("It", [s, T.mn(T.add(p, T.I(1)), T.mx(T.length(s), p))])
        if y.args[0] == "ItEnum":
            return T.ctor("ItEnum", [advance(y.args[1][0]), T.ite(k, T.add(y.args[1][1], T.I(1)), y.args[1][1])])
        return T.ctor(y.args[0], [advance(y.args[1][0])] + list(y.args[1][1:]))

    if k is T.FALSE:
        return T.none
    c.set(0, advance(x))
    if x.args[0] == "It":
        with T.under(T.cur().plus(k)):
            v = T.at(s, p)
        return T.ite(k, T.some(v), T.none)
    n, g = pull(c, x)
    if k is not T.TRUE:
        # effects only when an item is produced
        st1 = c.st.with_facts(k)
        v, s1 = g(st1, T.I(0))
        if v is None:
            return T.none
        cells = dict(c.st.cells)
        for key, val in s1.cells.items():
            old = c.st.cells.get(key)
            cells[key] = val if old is None or old is val else T.ite(k, val, old)
        c.st.cells = cells
        return T.ite(k, T.some(v), T.none)
    v, s1 = g(c.st, T.I(0))
    if v is None:
        return None
    c.st = s1
    return T.some(v)


def adapter(name):
    def d(f0):
        def f(c, *g):
            return by_reference(c, f0, g)
        rx(r"core::iter::traits::iterator::Iterator::" + name, r"<.* as core::iter::traits::iterator::Iterator>::" + name,
           r".*::Iterator>::" + name, r"core::iter::traits::double_ended::DoubleEndedIterator::" + name,
           r".*::DoubleEndedIterator>::" + name)(f)
        return f0
    return d


@adapter("map")
def _map(c):
    return mapped(c, to_iter(c, c.args[0]), c.args[1])


@adapter("enumerate")
def _enum(c):
    x = to_iter(c, c.args[0])
    if x.args[0] == "It" and not has_mref(x):
        k = T.fresh("k", "nat")
        s = items(x)
        return it(T.tab(T.length(s), T.lam(k, T.tup(k, T.at(s, k)))))
    return T.ctor("ItEnum", [x, T.I(0)])


@adapter("zip")
def _zip(c):
    its = [to_iter(c, x) for x in c.args[:2]]
    if None in its:
        raise Unsup("not an iterable value: %s" % [x.op for x in c.args[:2]])
    a, b = [drain(c, i) for i in its]
    if T.length(a) is not T.length(b):
        for i in its:
            partial(c, i)
    k = T.fresh("k", "nat")
    return it(T.tab(T.mn(T.length(a), T.length(b)), T.lam(k, T.tup(T.at(a, k), T.at(b, k)))))


@adapter("rev")
def _rev(c):
    return it(T.rev(seqarg(c, c.args[0])))


@adapter("skip")
def _skip(c):
    s = seqarg(c, c.args[0])
    return it(T.slc(s, T.mn(c.v(1), T.length(s)), T.length(s)))


@adapter("take")
def _take(c):
    s = partarg(c, c.args[0])
    return it(T.slc(s, T.I(0), T.mn(c.v(1), T.length(s))))


@adapter("step_by")
def _step(c):
    s = seqarg(c, c.args[0])
    n = c.v(1)
    if not c.require(T.lt(T.I(0), n), "step_by(0)"):
        return None
    k = T.fresh("k", "nat")
    cnt = T.ceildiv(T.length(s), n)
    with T.under(T.cur().plus(T.lt(k, cnt))):
        return it(T.tab(cnt, T.lam(k, T.at(s, T.mul(k, n)))))


@adapter("chain")
def _chain(c):
    return it(T.cat(seqarg(c, c.args[0]), seqarg(c, c.args[1])))


@adapter("(?:copied|cloned|by_ref|peekable|fuse|into_iter)")
def _same(c):
    return to_iter(c, c.args[0]) if not (c.path.endswith("by_ref")) and not (c.path.endswith("::into_iter") and is_mref(c.args[0]) and is_walk(c.v(0))) else c.args[0]


def _opt_items(v):
    """sequence of the payload of an Option value, or None when v is no Option"""
    if v.op == "ctor":
        if short(v.args[0]) == "Some":
            return T.lst(v.args[1][0])
        if short(v.args[0]) == "None":
            return T.EMPTY
        return None
    if v.op == "ite":
        a, b = _opt_items(v.args[1]), _opt_items(v.args[2])
        return None if a is None or b is None else T.ite(v.args[0], a, b)
    return None


def flat_items(s):
    k = T.fresh("k", "nat")
    n = T.length(s)
    with T.under(T.cur().plus(T.lt(k, n))):
        v = T.at(s, k)
        o = _opt_items(v)
        if o is None:
            o = items(v) if v.op == "ctor" and v.args[0] == "It" else v
    return T.flat(T.tab(n, T.lam(k, o)))


@adapter("flatten")
def _flatten(c):
    return it(flat_items(seqarg(c, c.args[0])))


@adapter("(?:flat_map|filter_map)")
def _flat_map(c):
    return it(flat_items(drain(c, mapped(c, to_iter(c, c.args[0]), c.args[1]))))


@adapter("filter")
def _filter(c):
    s = seqarg(c, c.args[0])
    st, _, l = c.E.iterate(c.st, T.length(s), lambda st, i: c.E.call_closure(st, c.args[1], [T.at(s, i)]), "filter")
    c.st = st
    if l is None:
        return it(T.EMPTY)
    k = T.fresh("k", "nat")
    return it(T.flat(T.tab(T.length(s), T.lam(k, T.ite(T.inst(l, k), T.lst(T.at(s, k)), T.EMPTY)))))


@adapter("for_each")
def _for_each(c):
    x = to_iter(c, c.args[0])
    n, g = pull(c, x)
    clo = c.args[1]

    def step(st, i):
        v, s = g(st, i)
        if v is None:
            return None, None
        return c.E.call_closure(s, clo, [v])
    st, _, _ = c.E.iterate(c.st, n, step, "for_each")
    c.st = st
    return T.UNIT


@adapter("fold")
def _fold(c):
    x = to_iter(c, c.args[0])
    n, g = pull(c, x)
    acc = c.E.new_cell(c.st, c.args[1])

    def step(st, i):
        v, s = g(st, i)
        if v is None:
            return None, None
        r, s2 = c.E.call_closure(s, c.args[2], [c.E.load(s, acc), v])
        if r is None:
            return None, None
        s2 = s2.copy()
        s2.cells[acc.args[0]] = r
        return T.UNIT, s2
    st, _, _ = c.E.iterate(c.st, n, step, "fold")
    c.st = st
    return c.E.load(st, acc)


@adapter("(sum|product)")
def _sum(c, *g):
    s = seqarg(c, c.args[0])
    e = T.at(s, T.fresh("k", "nat"))
    op = "Add" if c.path.endswith("sum") else "Mul"
    ty = (c.ty[1] if len(c.ty) > 1 else None) or {"k": "int", "n": "usize"}
    z = T.I(0) if op == "Add" else T.I(1)
    if ty["k"] == "float":
        z = T.F(-0.0) if op == "Add" else T.F(1.0)
    elif ty["k"] != "int":
        return c.E.unknown(c.path, [s], "?", c.st)
    acc = c.E.new_cell(c.st, z)

    def step(st, i):
        st = st.copy()
        st.cells[acc.args[0]] = binop(op, st.cells[acc.args[0]], c.E.val(st, T.at(s, i)), ty)
        return T.UNIT, st
    st, _, _ = c.E.iterate(c.st, T.length(s), step, "sum")
    c.st = st
    return c.E.load(st, acc)


@adapter("(?:all|any)")
def _all(c):
    s = partarg(c, c.v(0))
    l = early(c, s, c.args[1], "all/any")
    if l is None:
        return T.B(c.path.endswith("all"))
    k = T.fresh("k", "nat")
    b = T.inst(l, k)
    n = T.length(s)
    f = T.first(n, T.lam(k, T.bnot(b)) if c.path.endswith("all") else l)
    c.used = T.add(f, T.I(1))
    return T.eq(f, n) if c.path.endswith("all") else T.bnot(T.eq(f, n))


@adapter("position")
def _position(c):
    s = partarg(c, c.v(0))
    l = early(c, s, c.args[1], "position")
    n = T.length(s)
    if l is None:
        return T.none
    f = T.first(n, l)
    c.used = T.add(f, T.I(1))
    return T.ite(T.lt(f, n), T.some(f), T.none)


@adapter("find")
def _find(c):
    s = partarg(c, c.v(0))
    l = early(c, s, c.args[1], "find")
    n = T.length(s)
    if l is None:
        return T.none
    f = T.first(n, l)
    c.used = T.add(f, T.I(1))
    return T.ite(T.lt(f, n), T.some(T.at(s, f)), T.none)


@adapter("(take_while|skip_while)")
def _while(c, w=None):
    s = partarg(c, c.args[0])
    l = early(c, s, c.args[1], "take_while")
    n = T.length(s)
    if l is None:
        return it(T.EMPTY)
    k = T.fresh("k", "nat")
    f = T.first(n, T.lam(k, T.bnot(T.inst(l, k))))
    c.used = T.add(f, T.I(1))
    return it(T.slc(s, T.I(0), f) if c.path.endswith("take_while") else T.slc(s, f, n))


@adapter("cycle")
def _cycle(c):
    s = seqarg(c, c.args[0])
    n = T.length(s)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(T.I(0), n))):
        t = T.tab(T.I(T.LENMAX), T.lam(k, T.at(s, T.imod(k, n))))
    return it(T.ite(T.lt(T.I(0), n), t, T.EMPTY))


@adapter("inspect")
def _inspect(c):
    x = to_iter(c, c.args[0])
    if x.args[0] != "It" or has_mref(c.E.val(c.st, c.args[1])):
        raise Unsup("inspect with effects")
    s = items(x)
    before = len(c.E.panics)
    st, _, l = c.E.iterate(c.st, T.length(s), lambda st, i: c.E.call_closure(st, c.args[1], [T.at(s, i)]), "inspect")
    if len(c.E.panics) > before:
        raise Unsup("inspect that may panic")
    c.st = st
    return x


@adapter("unzip")
def _unzip(c):
    s = seqarg(c, c.args[0])
    n = T.length(s)
    out = []
    for w in (0, 1):
        k = T.fresh("k", "nat")
        with T.under(T.cur().plus(T.lt(k, n))):
            out.append(T.tab(n, T.lam(k, T.fld(T.at(s, k), None, w))))
    return T.tup(*out)


@adapter("(?:count|len)")
def _count(c):
    return T.length(seqarg(c, c.v(0)))


rx(r"core::iter::traits::exact_size::ExactSizeIterator::len", r".*::ExactSizeIterator>::len")(lambda c: T.length(seqarg(c, c.v(0))))


@adapter("last")
def _last(c):
    s = seqarg(c, c.args[0])
    n = T.length(s)
    return T.ite(T.lt(T.I(0), n), T.some(T.at(s, T.sub(n, T.I(1)))), T.none)


@adapter("nth")
def _nth(c):
    x = c.v(0)
    if x.op != "ctor" or x.args[0] != "It":
        raise Unsup("nth")
    s, p = x.args[1]
    k = T.add(p, c.v(1))
    n = T.length(s)
    c.set(0, T.ctor("It", [s, T.mn(T.add(k, T.I(1)), n)]))
    return T.ite(T.lt(k, n), T.some(T.at(s, k)), T.none)


def is_seq(x):
    if x.op in ("tab", "cat", "list", "slice", "str", "flat", "rev", "store", "unpack", "unpackw", "matseq"):
        return True
    if x.op == "ite":
        return is_seq(x.args[1]) or is_seq(x.args[2])
    if x.op in ("app", "sym", "at"):
        so = {"app": 1, "sym": 1, "at": 2}[x.op]
        return isinstance(x.args[so], str) and x.args[so].startswith("seq")
    return False


def to_string(s):
    """the text made of a sequence of characters or strings"""
    from . import text
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, T.length(s)))):
        x = T.at(s, k)
    if is_seq(x):
        return T.flat(s)
    return text.of_chars(s)


@adapter("collect")
def _collect(c):
    ty = c.ty[1] if len(c.ty) > 1 else None
    n = ty_name(ty)
    # nothing is taken after the first failure
    i = to_iter(c, c.args[0])
    if i is None:
        raise Unsup("not an iterable value")
    if n in ("Result", "Option") and i.op == "ctor" and i.args[0] == "ItMap":
        raise Unsup("a lazy map with effects, not walked to its end")
    s = drain(c, i)
    if n == "String":
        return to_string(s)
    if n in ("Vec", "BitVec", "Box", "VecDeque"):
        return s
    if n in ("BTreeSet", "HashSet"):
        from . import std
        return std.distinct(c, s)
    if n in ("Result", "Option"):
        k = T.fresh("k", "nat")
        v = T.at(s, k)
        ok = isok if n == "Result" else isopt
        bad = T.first(T.length(s), T.lam(k, T.bnot(ok(v))))
        vals = T.tab(T.length(s), T.lam(k, T.fld(v, "Ok" if n == "Result" else "Some", 0)))
        good = T.eq(bad, T.length(s))
        if n == "Result":
            return T.ite(good, T.ok(vals), T.err(T.fld(T.at(s, bad), "Err", 0)))
        return T.ite(good, T.some(vals), T.none)
    return c.E.unknown(c.path, [s], sort_of(ty), c.st)


@rx(r"core::ops::range::RangeInclusive::new")
def _ri(c):
    return T.ctor("core::ops::range::RangeInclusive", [c.args[0], c.args[1]])


@rx(r"core::ops::range::RangeInclusive::(start|end)")
def _ris(c, w):
    return c.v(0).args[1][0 if w == "start" else 1]


@rx(r"core::ops::range::(Range\w*)::contains")
def _rcontains(c, w):
    r, x = c.v(0), c.v(1)
    f = [c.E.val(c.st, y) for y in r.args[1]]
    nm = short(r.args[0])
    if any(not T._intish(y) and y.op != "int" for y in f):
        raise Unsup("float range")
    if nm == "Range":
        return T.band(T.le(f[0], x), T.lt(x, f[1]))
    if nm == "RangeInclusive":
        return T.band(T.le(f[0], x), T.le(x, f[1]))
    if nm == "RangeFrom":
        return T.le(f[0], x)
    if nm == "RangeTo":
        return T.lt(x, f[0])
    raise Unsup(nm)


# ---------------------------------------------------------------- vectors, slices, strings

@rx(r".* as core::clone::Clone>::clone", r"core::clone::Clone::clone", r".* as alloc::borrow::ToOwned>::to_owned", r"slice::to_vec", r"slice::into_vec",
    r".* as core::convert::AsRef>::as_ref", r".* as core::borrow::Borrow>::borrow", r"alloc::vec::Vec::as_slice", r"alloc::string::String::as_str",
    r"alloc::string::String::as_bytes", r"str::as_bytes", r"alloc::string::String::into_bytes", r"alloc::vec::Vec::into_boxed_slice",
    r"core::hint::must_use", r"core::hint::black_box", r"str::to_string", r"str::to_owned", r"alloc::boxed::Box::new",
    r"(?:alloc::vec::Vec|alloc::string::String|bitvec::vec::BitVec|bitvec::ptr::proxy::BitRef|alloc::boxed::Box) as core::ops::deref::Deref>::deref",
    r"<(?:alloc::vec::Vec|alloc::string::String|bitvec::vec::BitVec|bitvec::ptr::proxy::BitRef|alloc::boxed::Box|bitvec::array::BitArray) as core::ops::deref::Deref>::deref",
    r"bitvec::vec::BitVec::as_bitslice", r"core::mem::drop", r"<alloc::vec::Vec as core::convert::From>::from", r"<alloc::string::String as core::convert::From>::from",
    r"core::convert::identity", r"alloc::borrow::Cow::into_owned", r"slice::as_slice", r"array::as_slice", r"core::ops::deref::Deref::deref",
    r"bitvec::vec::BitVec::to_bitvec", r"bitvec::slice::BitSlice::to_bitvec", r"bitvec::vec::BitVec::from_bitslice", r"bitvec::ptr::proxy::BitRef::commit",
    r"core::option::Option::(?:as_ref|as_deref|copied|cloned)", r"core::result::Result::as_ref", r"str::as_ref", r"core::array::.*::as_slice")
def _ident(c):
    if c.args[0].op == "mref" and not c.path.endswith("as_mut"):
        return c.v(0)
    return c.args[0] if c.args[0].op in ("clo", "fnv") or c.path.endswith("as_mut") else c.v(0)


@rx(r"core::option::Option::as_mut")
def _as_mut(c):
    if c.args[0].op != "mref":
        return c.args[0]
    return T.ite(isopt(c.v(0)), T.some(c.E.through(c.E.target(c.st, c.args[0]), [("f", "Some", 0, None)])), T.none)


@rx(r".* as core::ops::deref::DerefMut>::deref_mut", r"alloc::vec::Vec::as_mut_slice", r".* as core::convert::AsMut>::as_mut", r".* as core::borrow::BorrowMut>::borrow_mut")
def _mutident(c):
    return c.args[0]


@rx(r"<param:T as core::convert::(?:Into|From)>::(?:into|from)", r"<.* as core::convert::From>::from", r"core::convert::(?:Into::into|From::from)")
def _into(c):
    x = c.v(0)
    a = c.ty
    if c.path == "<param:T as core::convert::From>::from":
        # the reflexive implementation
        return x
    if c.path.startswith("<ndarray::slice::"):
        return T.ctor("nd:elem", [x])
    src, dst = None, None
    if len(a) >= 2:
        src, dst = (a[0], a[1]) if "Into" in c.path else (a[1], a[0])
        ns, nd = ty_name(src), ty_name(dst)
        if ns in INTS and nd in INTS or ns == nd:
            return x
        if ns in INTS + ("f32",) and nd == "f64":
            return T.i2f(x) if ns in INTS else x
        if ns == "bool" and nd in INTS:
            return T.ite(x, T.I(1), T.I(0))
        if nd in ("Vec", "String", "Box") and ns in ("slice", "str", "array", "String", "Vec"):
            return x
    elif c.path.startswith(("<f64 as", "<f32 as")):
        if _ints(x) or _floats(x):
            return T.i2f(x) if _ints(x) else x
        return c.E.unknown(c.path, c.args, "f64", c.st)
    elif T._intish(x):
        return x
    elif re.match(r"<[iu](?:8|16|32|64|128|size) as ", c.path):
        if _bools(x):
            return T.ite(x, T.I(1), T.I(0))
        if _ints(x):
            return x
    if c.path.startswith("<ndarray::ArrayBase"):
        return x
    if c.path.startswith("<image::dynimage::DynamicImage"):
        return T.app("DynamicImage::from<%s>" % (src and src.get("s", "?")), "DynamicImage", x)
    b = dst and dst.get("k") == "adt" and own_from(c, src, dst)
    if b:
        return c.E.call_body(b, c.args[:1], c.st, {})
    return c.E.unknown(c.path, c.args, sort_of(dst) if dst else "?", c.st)


def own_from(c, src, dst):
    """the conversion written in the sources themselves"""
    for b in c.E.implementations("core::convert::From::from"):
        t = b.locals[0]
        if t.get("k") == "adt" and t.get("path") == dst.get("path") and not t.get("args") and b.argc == 1 and b.locals[1] == src:
            return b
    return None


@rx(r"<param:T as core::convert::TryInto>::try_into", r"<.* as core::convert::TryFrom>::try_from", r"core::convert::Try(?:Into::try_into|From::try_from)")
def _try_into(c):
    x = c.v(0)
    a = c.ty
    src, dst = (a[0], a[1]) if "TryInto" in c.path else (a[1], a[0]) if len(a) > 1 else (None, None)
    e = T.err(T.app("conversion error", "?"))
    m = re.match(r"<(\w+) as core::convert::TryFrom>", c.path)
    if m and m.group(1) in INTS and _ints(x):
        dst = {"k": "int", "n": m.group(1)}
    if dst and dst["k"] == "int":
        lo, hi = T.INTR[dst["n"]]
        return T.ite(T.band(T.le(T.I(lo), x), T.le(x, T.I(hi))), T.ok(x), e)
    while dst and dst["k"] == "ref":
        dst = dst["to"]
    if dst and dst["k"] == "array" and dst["n"] is not None:
        return T.ite(T.eq(T.length(x), T.I(int(dst["n"]))), T.ok(x), e)
    return c.E.unknown(c.path, c.args, "Result", c.st)


@rx(r"(?:alloc::vec::Vec|slice|str|alloc::string::String|bitvec::vec::BitVec|bitvec::slice::BitSlice|array)::len")
def _len(c):
    return T.length(c.v(0))


@rx(r"(?:alloc::vec::Vec|slice|str|alloc::string::String|bitvec::vec::BitVec|bitvec::slice::BitSlice)::is_empty")
def _is_empty(c):
    return T.eq(T.length(c.v(0)), T.I(0))


@rx(r"(?:alloc::vec::Vec|alloc::string::String|bitvec::vec::BitVec)::(?:new|with_capacity)", r"<alloc::(?:vec::Vec|string::String) as core::default::Default>::default")
def _new(c):
    return T.EMPTY


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec|alloc::string::String)::push")
def _push(c):
    x = c.args[1]
    if "String" in c.path:
        c.set(0, T.cat(c.v(0), to_string(T.lst(c.v(1)))))
        return T.UNIT
    if x.op == "mref":
        x = x if has_mref(x) and False else x
    c.set(0, T.cat(c.v(0), T.lst(c.E.val(c.st, x) if x.op != "mref" else x)))
    return T.UNIT


@rx(r"alloc::vec::Vec::append", r"bitvec::vec::BitVec::append")
def _append(c):
    b = c.v(1)
    c.set(0, T.cat(c.v(0), b))
    if c.args[1].op == "mref":
        c.set(1, T.EMPTY)
    return T.UNIT


@rx(r"alloc::vec::Vec::extend_from_slice", r"alloc::string::String::push_str", r"bitvec::vec::BitVec::extend_from_bitslice", r"bitvec::vec::BitVec::extend_from_raw_slice")
def _extend(c):
    c.set(0, T.cat(c.v(0), c.v(1)))
    return T.UNIT


@rx(r".* as core::iter::traits::collect::Extend>::extend", r"core::iter::traits::collect::Extend::extend")
def _extend2(c):
    s = seqarg(c, c.args[1])
    if c.ty and ty_name(c.ty[0]) == "String" or "String as" in c.path:
        s = to_string(s)
    c.set(0, T.cat(c.v(0), s))
    return T.UNIT


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec)::(?:truncate)")
def _truncate(c):
    v = c.v(0)
    c.set(0, T.slc(v, T.I(0), T.mn(c.v(1), T.length(v))))
    return T.UNIT


@rx(r"alloc::vec::Vec::(?:clear)", r"bitvec::vec::BitVec::clear")
def _clear(c):
    c.set(0, T.EMPTY)
    return T.UNIT


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec)::resize")
def _resize(c):
    v, n, x = c.v(0), c.v(1), c.v(2)
    l = T.length(v)
    k = T.mk("lam", T._shift(x, 1))
    k2 = T.le(l, n)
    with T.under(T.cur().plus(k2)):
        more = T.cat(v, T.tab(T.sub(n, l), k))
    c.set(0, T.ite(k2, more, T.slc(v, T.I(0), n)))
    return T.UNIT


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec)::insert")
def _insert(c):
    v, i = c.v(0), c.v(1)
    if not c.require(T.le(i, T.length(v)), "insert index"):
        return None
    c.set(0, T.cat(T.slc(v, T.I(0), i), T.lst(c.v(2)), T.slc(v, i, T.length(v))))
    return T.UNIT


@rx(r"(?:alloc::vec::Vec|bitvec::vec::BitVec)::pop")
def _pop(c):
    v = c.v(0)
    n = T.length(v)
    k = T.lt(T.I(0), n)
    c.set(0, T.ite(k, T.slc(v, T.I(0), T.sub(n, T.I(1))), v))
    return T.ite(k, T.some(T.at(v, T.sub(n, T.I(1)))), T.none)


@rx(r"alloc::vec::Vec::drain")
def _drain(c):
    v = c.v(0)
    b = bounds(c, c.v(1), T.length(v))
    if not b:
        return None
    c.set(0, T.cat(T.slc(v, T.I(0), b[0]), T.slc(v, b[1], T.length(v))))
    return it(T.slc(v, b[0], b[1]))


@rx(r"alloc::vec::Vec::split_off")
def _split_off(c):
    v, n = c.v(0), c.v(1)
    if not c.require(T.le(n, T.length(v)), "split_off"):
        return None
    c.set(0, T.slc(v, T.I(0), n))
    return T.slc(v, n, T.length(v))


@rx(r"slice::reverse", r"bitvec::slice::BitSlice::reverse")
def _reverse(c):
    c.set(0, T.rev(c.v(0)))
    return T.UNIT


@rx(r"(?:slice|array)::swap")
def _swap(c):
    v, i, j = c.v(0), c.v(1), c.v(2)
    n = T.length(v)
    if not c.require(T.band(T.lt(i, n), T.lt(j, n)), "swap index"):
        return None
    c.set(0, T.store(T.store(v, i, T.at(v, j)), j, T.at(v, i)))
    return T.UNIT


@rx(r"slice::fill", r"bitvec::slice::BitSlice::fill")
def _fill(c):
    v = c.v(0)
    c.set(0, T.tab(T.length(v), T.mk("lam", T._shift(c.v(1), 1))))
    return T.UNIT


@rx(r"slice::(?:copy_from_slice|clone_from_slice)", r"bitvec::slice::BitSlice::(?:copy_from_bitslice|clone_from_bitslice)")
def _copy_from(c):
    a, b = c.v(0), c.v(1)
    if not c.require(T.eq(T.length(a), T.length(b)), "copy_from_slice length"):
        return None
    c.set(0, b)
    return T.UNIT


@rx(r"alloc::vec::from_elem")
def _from_elem(c):
    x = c.v(0)
    return T.tab(c.v(1), T.mk("lam", T._shift(x, 1)))


@rx(r"alloc::boxed::Box::new_uninit")
def _new_uninit(c):
    return c.E.new_cell(c.st, T.mk("undef"), "heap")


@rx(r"alloc::boxed::box_assume_init_into_vec_unsafe")
def _assume(c):
    v = c.v(0)
    # MaybeUninit wrappers around the array are transparent
    while v.op == "part" and len(v.args[0]) == 1:
        v = v.args[0][0][1]
    while v.op == "ctor" and len(v.args[1]) == 1 and short(v.args[0]) in ("MaybeUninit", "ManuallyDrop"):
        v = v.args[1][0]
    return v


@rx(r"(?:alloc::vec::Vec|slice|bitvec::slice::BitSlice|bitvec::vec::BitVec|array|str)::get")
def _get(c):
    v, i = c.v(0), c.v(1)
    if i.op == "ctor":
        n = T.length(v)
        nm = short(i.args[0])
        f = [c.E.val(c.st, y) for y in i.args[1]]
        lo, hi = {"Range": lambda: (f[0], f[1]), "RangeTo": lambda: (T.I(0), f[0]), "RangeFrom": lambda: (f[0], n),
                  "RangeFull": lambda: (T.I(0), n), "RangeInclusive": lambda: (f[0], T.add(f[1], T.I(1))),
                  "RangeToInclusive": lambda: (T.I(0), T.add(f[0], T.I(1)))}[nm]()
        k = T.band(T.le(lo, hi), T.le(hi, n))
        with T.under(T.cur().plus(k)):
            x = T.slc(v, lo, hi)
        return T.ite(k, T.some(x), T.none)
    k = in_range(i, T.length(v))
    if k is T.FALSE:
        return T.none
    with T.under(T.cur().plus(k)):
        x = T.at(v, i)
    return T.ite(k, T.some(x), T.none)


@rx(r"(?:alloc::vec::Vec|slice)::get_mut")
def _get_mut(c):
    r = c.E.target(c.st, c.args[0])
    v, i = c.v(0), c.v(1)
    k = in_range(i, T.length(v))
    return T.ite(k, T.some(c.E.through(r, [("i", i)])), T.none)


@rx(r"(?:alloc::vec::Vec|slice|bitvec::slice::BitSlice)::(first|last)")
def _first(c, w):
    v = c.v(0)
    n = T.length(v)
    k = T.lt(T.I(0), n)
    return T.ite(k, T.some(T.at(v, T.I(0) if w == "first" else T.sub(n, T.I(1)))), T.none)


@rx(r".*::index::Index>::index", r"core::ops::index::Index::index")
def _index(c):
    v, i = c.v(0), c.v(1)
    if c.path.startswith("<ndarray"):
        r, k = idx2(c, i)
        if not c.require(T.band(in_range(r, T.rows(v)), in_range(k, T.cols(v))), "matrix index"):
            return None
        return T.at2(v, r, k)
    if v.op == "ctor" and len(v.args[1]) == 1:
        v = v.args[1][0]        # Luma / Rgba wrap an array
    elif "image::color" in c.path:
        v = T.fld(v, None, 0, "seq:u8")
        if not T.is_int(i):
            raise Unsup("pixel component")
        return T.at(v, i, "u8")
    b = bounds(c, i, T.length(v))
    if b is False:
        return None
    if b is not None:
        return T.slc(v, b[0], b[1])
    if not T._intish(i) and i.op != "int" and not (len(c.ty) > 1 and c.ty[1].get("k") == "int"):
        return c.E.unknown(c.path, c.args, "?", c.st)
    if not c.require(in_range(i, T.length(v)), "index"):
        return None
    return T.at(v, i)


@rx(r".*::index::IndexMut>::index_mut", r"core::ops::index::IndexMut::index_mut")
def _index_mut(c):
    r = c.E.target(c.st, c.args[0])
    v, i = c.v(0), c.v(1)
    if c.path.startswith("<ndarray"):
        a, k = idx2(c, i)
        if not c.require(T.band(in_range(a, T.rows(v)), in_range(k, T.cols(v))), "matrix index"):
            return None
        return c.E.through(r, [("el", a, k)])
    if v.op == "ctor" and len(v.args[1]) == 1 and short(v.args[0]) in ("Luma", "Rgba", "Rgb", "LumaA"):
        return c.E.through(r, [("f", None, 0, None), ("i", i)])
    b = bounds(c, i, T.length(v))
    if b is False:
        return None
    if b is not None:
        return c.E.through(r, [("seqsl", b[0], b[1])])
    if not c.require(in_range(i, T.length(v)), "index"):
        return None
    return c.E.through(r, [("i", i)])


@rx(r"(?:slice|bitvec::slice::BitSlice)::chunks")
def _chunks(c):
    s, n = c.v(0), c.v(1)
    if not c.require(T.lt(T.I(0), n), "chunks(0)"):
        return None
    L = T.length(s)
    cnt = T.ceildiv(L, n)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, cnt))):
        lo = T.mul(k, n)
        return it(T.tab(cnt, T.lam(k, T.slc(s, lo, T.mn(T.add(lo, n), L)))))


@rx(r"(?:slice|bitvec::slice::BitSlice)::chunks_exact")
def _chunks_exact(c):
    s, n = c.v(0), c.v(1)
    if not c.require(T.lt(T.I(0), n), "chunks_exact(0)"):
        return None
    cnt = T.idiv(T.length(s), n)
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, cnt))):
        lo = T.mul(k, n)
        return it(T.tab(cnt, T.lam(k, T.slc(s, lo, T.add(lo, n)))))


@rx(r"slice::windows")
def _windows(c):
    s, n = c.v(0), c.v(1)
    cnt = T.mx(T.I(0), T.add(T.length(s), T.neg(n), T.I(1)))
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, cnt))):
        return it(T.tab(cnt, T.lam(k, T.slc(s, k, T.add(k, n)))))


@rx(r"(?:slice|bitvec::slice::BitSlice)::split_at(?:_mut)?")
def _split_at(c):
    s, n = c.v(0), c.v(1)
    if not c.require(T.le(n, T.length(s)), "split_at"):
        return None
    if c.path.endswith("_mut"):
        r = c.E.target(c.st, c.args[0])
        return T.tup(c.E.through(r, [("seqsl", T.I(0), n)]), c.E.through(r, [("seqsl", n, T.length(s))]))
    return T.tup(T.slc(s, T.I(0), n), T.slc(s, n, T.length(s)))


@rx(r"slice::concat", r".*::Concat>::concat")
def _concat(c):
    s = c.v(0)
    if s.op == "list":
        return T.cat(*[c.E.val(c.st, x) for x in s.args[0]])
    return T.flat(s)


@rx(r"core::(?:mem::(?:replace))", r"std::mem::replace")
def _replace(c):
    v = c.v(0)
    c.set(0, c.args[1])
    return v


@rx(r"core::mem::take", r"alloc::vec::Vec::take")
def _take_mem(c):
    v = c.v(0)
    ty = c.ty[0] if c.ty and c.path == "core::mem::take" else {"k": "?"}
    while ty.get("k") == "ref":
        ty = ty["to"]
    empty = {"int": T.I(0), "bool": T.FALSE, "float": T.F(0.0)}.get(ty.get("k"))
    if empty is None and ty.get("k") == "adt":
        empty = {"Vec": T.EMPTY, "String": T.EMPTY, "Option": T.none}.get(ty_name(ty))
    if empty is None and v.op in ("list", "cat", "tab", "flat", "slice", "unpack", "pack"):
        empty = T.EMPTY
    if empty is None:
        raise Unsup("mem::take")
    c.set(0, empty)
    return v


@rx(r"alloc::string::String::from_utf8")
def _from_utf8(c):
    x = c.v(0)
    return T.ite(T.app("utf8ok", "bool", x), T.ok(x), T.err(T.app("FromUtf8Error", "?", x)))


@rx(r"alloc::string::String::from_utf8_lossy")
def _from_utf8_lossy(c):
    x = c.v(0)
    return T.ite(T.app("utf8ok", "bool", x), x, T.app("utf8_lossy", "seq:u8", x))


# ---------------------------------------------------------------- Option / Result / ?

def psort(c, k=0):
    return sort_of(c.ty[k]) if len(c.ty) > k else None


@rx(r"core::option::Option::(?:unwrap|expect)")
def _o_unwrap(c):
    x = c.args[0]
    if x.op == "mref":
        x = c.v(0)
    if not c.require(isopt(x), "unwrap of None"):
        return None
    with T.under(T.cur().plus(isopt(x))):
        return T.fld(T.assume(x, isopt(x), True), "Some", 0, psort(c))


@rx(r"core::result::Result::(?:unwrap|expect)")
def _r_unwrap(c):
    x = c.v(0)
    if not c.require(isok(x), "unwrap of Err"):
        return None
    with T.under(T.cur().plus(isok(x))):
        return T.fld(T.assume(x, isok(x), True), "Ok", 0, psort(c))


@rx(r"core::option::Option::(is_some|is_none)")
def _is_some(c, w):
    k = isopt(c.v(0))
    return k if w == "is_some" else T.bnot(k)


@rx(r"core::result::Result::(is_ok|is_err)")
def _is_ok(c, w):
    k = isok(c.v(0))
    return k if w == "is_ok" else T.bnot(k)


def branch2(c, k, f, g):
    """value of k ? f() : g() where both may run closures on the state"""
    if k is T.TRUE:
        return f()
    if k is T.FALSE:
        return g()
    st0 = c.st
    c.st = st0.with_facts(k)
    with T.under(c.st.facts):
        a = f()
    s1 = c.st
    c.st = st0.with_facts(T.bnot(k))
    with T.under(c.st.facts):
        b = g()
    s2 = c.st
    if a is None and b is None:
        return None
    if a is None or b is None:
        c.st = s1 if b is None else s2
        return a if b is None else b
    _, _, c.st = c.E.merge([("x", k, s1), ("x", T.bnot(k), s2)])
    return T.ite(k, a, b)


@rx(r"core::option::Option::(map|and_then|unwrap_or|unwrap_or_else|unwrap_or_default|map_or|map_or_else|ok_or|ok_or_else|or|or_else|is_some_and|take)")
def _o_misc(c, w):
    x = c.v(0)
    k = isopt(x)
    p = T.fld(T.assume(x, k, True), "Some", 0, psort(c))
    if w == "map":
        return branch2(c, k, lambda: _some(c.call(c.args[1], p)), lambda: T.none)
    if w == "and_then":
        return branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.none)
    if w == "unwrap_or":
        return T.ite(k, p, c.args[1])
    if w == "unwrap_or_else":
        return branch2(c, k, lambda: p, lambda: c.call(c.args[1]))
    if w == "unwrap_or_default":
        return T.ite(k, p, default_of(c.ty[0]))
    if w == "map_or":
        return branch2(c, k, lambda: c.call(c.args[2], p), lambda: c.args[1])
    if w == "map_or_else":
        return branch2(c, k, lambda: c.call(c.args[2], p), lambda: c.call(c.args[1]))
    if w == "ok_or":
        return T.ite(k, T.ok(p), T.err(c.args[1]))
    if w == "ok_or_else":
        return branch2(c, k, lambda: T.ok(p), lambda: _err(c.call(c.args[1])))
    if w == "or":
        return T.ite(k, x, c.v(1))
    if w == "or_else":
        return branch2(c, k, lambda: x, lambda: c.call(c.args[1]))
    if w == "is_some_and":
        return branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.FALSE)
    if w == "take":
        c.set(0, T.none)
        return x
    raise Unsup("Option::" + w)


def _some(x):
    return None if x is None else T.some(x)


def _ok(x):
    return None if x is None else T.ok(x)


def _err(x):
    return None if x is None else T.err(x)


def default_of(ty):
    k = ty["k"]
    if k == "int":
        return T.I(0)
    if k == "bool":
        return T.FALSE
    if k == "float":
        return T.F(0.0)
    if ty_name(ty) in ("Vec", "String", "BitVec", "str"):
        return T.EMPTY
    raise Unsup("default value")


@rx(r"core::result::Result::(map|map_err|and_then|unwrap_or|unwrap_or_else|unwrap_or_default|ok|err|or_else|map_or|is_ok_and)")
def _r_misc(c, w):
    x = c.v(0)
    k = isok(x)
    p = T.fld(T.assume(x, k, True), "Ok", 0, psort(c))
    e = T.fld(T.assume(x, k, False), "Err", 0, psort(c, 1))
    if w == "map":
        return branch2(c, k, lambda: _ok(c.call(c.args[1], p)), lambda: T.err(e))
    if w == "map_err":
        return branch2(c, k, lambda: T.ok(p), lambda: _err(c.call(c.args[1], e)))
    if w == "and_then":
        return branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.err(e))
    if w == "unwrap_or":
        return T.ite(k, p, c.args[1])
    if w == "unwrap_or_else":
        return branch2(c, k, lambda: p, lambda: c.call(c.args[1], e))
    if w == "unwrap_or_default":
        return T.ite(k, p, default_of(c.ty[0]))
    if w == "ok":
        return T.ite(k, T.some(p), T.none)
    if w == "err":
        return T.ite(k, T.none, T.some(e))
    if w == "or_else":
        return branch2(c, k, lambda: T.ok(p), lambda: c.call(c.args[1], e))
    if w == "map_or":
        return branch2(c, k, lambda: c.call(c.args[2], p), lambda: c.args[1])
    if w == "is_ok_and":
        return branch2(c, k, lambda: c.call(c.args[1], p), lambda: T.FALSE)
    raise Unsup("Result::" + w)


CF = "core::ops::control_flow::ControlFlow::"


@rx(r".*core::ops::try_trait::Try>::branch", r"core::ops::try_trait::Try::branch")
def _branch(c):
    x = c.v(0)
    if "Option" in c.path or (len(c.ty) and ty_name(c.ty[0]) == "Option"):
        k = isopt(x)
        return T.ite(k, T.ctor(CF + "Continue", [T.fld(T.assume(x, k, True), "Some", 0)], 0), T.ctor(CF + "Break", [T.none], 1))
    k = isok(x)
    return T.ite(k, T.ctor(CF + "Continue", [T.fld(T.assume(x, k, True), "Ok", 0)], 0),
                 T.ctor(CF + "Break", [T.err(T.fld(T.assume(x, k, False), "Err", 0))], 1))


@rx(r".*core::ops::try_trait::FromResidual.*>::from_residual", r"core::ops::try_trait::FromResidual::from_residual")
def _from_residual(c):
    return c.v(0)


# ---------------------------------------------------------------- comparisons and arithmetic traits

OPS = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Rem": "Rem", "BitAnd": "BitAnd", "BitOr": "BitOr", "BitXor": "BitXor",
       "Shl": "Shl", "Shr": "Shr"}


def prim(ty):
    while ty and ty["k"] in ("ref", "ptr"):
        ty = ty["to"]
    return ty if ty and ty["k"] in ("int", "float", "bool", "char") else None


@rx(r"<&?(?:mut )?(\w+) as core::ops::(?:arith|bit)::(\w+?)(Assign)?>::\w+")
def _arith(c, t, op, assign):
    if op in ("Neg", "Not"):
        v = c.v(0)
        if op == "Not":
            return T.bnot(v) if t == "bool" else T.sub(T.I(T.INTR[t][1]), v)
        return T.fneg(v) if t in ("f64", "f32") else T.neg(v)
    ty = {"k": "float", "n": t} if t in ("f64", "f32") else {"k": "bool"} if t == "bool" else {"k": "int", "n": t}
    a, b = c.v(0), c.v(1)
    if b.op == "ctor" and short(b.args[0]) == "Complex" or b.op in ("app", "fld", "at2", "sym", "at") and _is_cplx(b) or \
            any(ty_name(x) == "Complex" for x in c.ty[1:]):
        return cplx_op(op, cx(a) if _is_cplx(a) else (a, T.F(0.0)), cx(b), real_left=not _is_cplx(a), c=c)
    if op not in OPS:
        raise Unsup("operator " + op)
    r = binop(OPS[op], a, b, ty)
    if assign:
        c.set(0, r)
        return T.UNIT
    return r


ADT = re.compile(r"<\w+::\w")       # the implementation for a structured type: its arguments are not the operands


@rx(r"<.* as core::cmp::PartialEq.*>::(eq|ne)", r"core::cmp::PartialEq::(eq|ne)", r"core::cmp::impls::.*::(eq|ne)")
def _eq(c, *w):
    a, b = c.v(0), c.v(1)
    ne = any(x == "ne" for x in w)
    p = prim(c.ty[0]) if c.ty and not ADT.match(c.path) else None
    if p is not None:
        return binop("Ne" if ne else "Eq", a, b, p)
    e = T.eq(a, b)
    return T.bnot(e) if ne else e


@rx(r"<.* as core::cmp::PartialOrd.*>::(lt|le|gt|ge)", r"core::cmp::PartialOrd::(lt|le|gt|ge)")
def _cmp(c, *w):
    w = [x for x in w if x][0]
    p = prim(c.ty[0]) if c.ty and not ADT.match(c.path) else None
    if p is None:
        raise Unsup("ordering")
    return binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[w], c.v(0), c.v(1), p)


FLOATS = ("f64", "f32")


def cellsort(m):
    """sort of the elements of a matrix, None when it does not say"""
    if m.op in ("sym", "app"):
        s = m.args[1]
        return s[4:] if isinstance(s, str) and s.startswith("mat:") and s[4:] != "?" else None
    if m.op in ("submat", "paste", "store2"):
        return cellsort(m.args[0])
    if m.op == "ite":
        return cellsort(m.args[1]) or cellsort(m.args[2])
    if m.op == "shape":
        return T.elemsort(m.args[2])
    return None


def _floats(t):
    if t.op == "ite":
        return _floats(t.args[1]) and _floats(t.args[2])
    if t.op == "at2":
        return cellsort(t.args[0]) in FLOATS
    return t.op in ("flt", "fadd", "fsub", "fmul", "fdiv", "fneg", "i2f", "fn", "frem") or t.op in ("sym", "app") and t.args[1] in FLOATS or (
        t.op in ("at", "fld") and t.args[-1] in FLOATS) or t.op == "fold" and t.args[3] in FLOATS


def _bools(t):
    if t.op == "ite":
        return _bools(t.args[1]) and _bools(t.args[2])
    return t.op in T.BOOLOPS or t.op in ("at", "fld", "sym", "app") and t.args[2 if t.op == "at" else -1 if t.op == "fld" else 1] == "bool"


def _ints(t):
    if t.op == "at2":
        return cellsort(t.args[0]) in INTS
    return _ints(t.args[1]) and _ints(t.args[2]) if t.op == "ite" else T._intish(t)


@rx(r"<?(?:%s)(?: as core::cmp::Ord>)?::(min|max)" % "|".join(INTS), r"core::cmp::(min|max)", r"core::cmp::Ord::(min|max)")
def _minmax(c, *w):
    w = [x for x in w if x][0]
    a, b = c.v(0), c.v(1)
    if not (_ints(a) and _ints(b)):
        raise Unsup("min/max of %s, %s" % (a.op, b.op))
    return (T.mn if w == "min" else T.mx)(a, b)


@rx(r"<?(%s)(?: as core::cmp::Ord>)?::clamp" % "|".join(INTS))
def _clamp(c, t):
    return T.mn(T.mx(c.v(0), c.v(1)), c.v(2))


@rx(r"(%s)::(pow|checked_pow)" % "|".join(INTS))
def _pow(c, t, w):
    a, n = c.v(0), c.v(1)
    lo, hi = T.INTR[t]
    if T.is_int(a) and T.is_int(n):
        return T.I(a.args[0] ** n.args[0])
    if T.is_int(a) and a.args[0] == 2:
        lim = hi.bit_length() - 1
        if w == "pow":
            if not c.require(T.le(n, T.I(lim)), "overflow:pow"):
                return None
            return T.pow2(n)
    r = functools.reduce(T.mul, [a] * n.args[0]) if T.is_int(n) and 0 < n.args[0] <= 4 else T.mk("ipow", a, n)
    fits = T.band(T.le(T.I(lo), r), T.le(r, T.I(hi)))
    if w == "checked_pow":
        return T.ite(fits, T.some(r), T.none)
    if not c.require(fits, "overflow:pow"):
        return None
    return r


@rx(r"(%s)::rem_euclid" % "|".join(INTS))
def _rem_euclid(c, t):
    a, b = c.v(0), c.v(1)
    if not c.require(T.bnot(T.eq(b, T.I(0))), "rem_euclid by zero"):
        return None
    if T.is_pos(b):
        return T.imod(a, b)
    return T.mk("emod", a, b)


@rx(r"(%s)::div_euclid" % "|".join(INTS))
def _div_euclid(c, t):
    a, b = c.v(0), c.v(1)
    if not c.require(T.bnot(T.eq(b, T.I(0))), "div_euclid by zero"):
        return None
    if T.is_pos(b) or T.INTR[t][0] == 0:
        return T.idiv(a, b)
    return T.mk("ediv", a, b)


@rx(r"(%s)::(?:abs|unsigned_abs)" % "|".join(INTS))
def _abs(c, t):
    a = c.v(0)
    return T.ite(T.le(T.I(0), a), a, T.neg(a))


@rx(r"(%s)::div_ceil" % "|".join(INTS))
def _div_ceil(c, t):
    if not c.require(T.bnot(T.eq(c.v(1), T.I(0))), "div_ceil by zero"):
        return None
    return T.ceildiv(c.v(0), c.v(1))


@rx(r"(%s)::(wrapping|saturating|checked|overflowing)_(add|sub|mul|neg)" % "|".join(INTS))
def _wrapping(c, t, how, op):
    lo, hi = T.INTR[t]
    a = c.v(0)
    b = c.v(1) if op != "neg" else None
    r = {"add": lambda: T.add(a, b), "sub": lambda: T.sub(a, b), "mul": lambda: T.mul(a, b), "neg": lambda: T.neg(a)}[op]()
    if how == "wrapping":
        return T.icast(t, r)
    if how == "saturating":
        return T.mn(T.mx(r, T.I(lo)), T.I(hi))
    k = T.band(T.le(T.I(lo), r), T.le(r, T.I(hi)))
    if how == "checked":
        return T.ite(k, T.some(r), T.none)
    return T.tup(T.icast(t, r), T.bnot(k))


@rx(r"(%s)::(to|from)_(le|be|ne)_bytes" % "|".join(INTS))
def _bytes(c, t, w, e):
    e = "le" if e == "ne" else e
    n = 8 if t in ("usize", "isize") else int(t[1:]) // 8
    if w == "to":
        return T.tobytes(n, e, c.v(0))
    return T.frombytes(t, n, e, c.v(0))


@rx(r"(%s)::from_str_radix" % "|".join(INTS))
def _radix(c, t):
    s, r = c.v(0), c.v(1)
    n = T.length(s)
    e = T.err(T.app("ParseIntError", "?", s))
    if t == "u8" and r is T.I(16) and n in (T.I(1), T.I(2)):
        ds = [T.at(s, T.I(k), "u8") for k in range(n.args[0])]
        oks = [hexok(d) for d in ds]
        vs = [hexval(d) for d in ds]
        if len(ds) == 1:
            return T.ite(oks[0], T.ok(vs[0]), e)
        plus = T.eq(ds[0], T.I(43))
        v = T.add(T.mul(T.I(16), vs[0]), vs[1])
        return T.ite(T.band(oks[1], oks[0]), T.ok(v), T.ite(T.band(oks[1], plus), T.ok(vs[1]), e))
    return T.app("%s::from_str_radix" % t, "Result", s, r)


@rx(r"(?:str|core::slice|slice)::(starts_with|ends_with)")
def _affix(c, w):
    s, p = c.v(0), c.v(1)
    n = T.length(s)
    if T.is_int(p):
        if p.args[0] > 127:
            return T.app("str::" + w, "bool", s, p)
        p = T.lst(p)
    k = T.length(p)
    if not T.is_int(k) or k.args[0] > 16:
        return T.app("str::" + w, "bool", s, p)
    off = T.I(0) if w == "starts_with" else T.sub(n, k)
    return T.band(T.le(k, n), *[T.eq(T.at(s, T.add(off, T.I(j)), "u8"), T.at(p, T.I(j), "u8")) for j in range(k.args[0])])


def _cin(x, a, b):
    return T.band(T.le(T.I(ord(a)), x), T.le(x, T.I(ord(b))))


def hexok(x):
    return T.bor(_cin(x, "0", "9"), _cin(x, "a", "f"), _cin(x, "A", "F"))


def hexval(x):
    return T.ite(_cin(x, "0", "9"), T.sub(x, T.I(48)), T.ite(_cin(x, "a", "f"), T.sub(x, T.I(87)), T.sub(x, T.I(55))))


def hexdigit(n, upper=False):
    return T.ite(T.lt(n, T.I(10)), T.add(n, T.I(48)), T.add(n, T.I(55 if upper else 87)))


@rx(r"(?:std::|core::)?(f64|f32)::(floor|ceil|round|trunc|abs|sqrt|fract|sin|cos|tan|exp|ln|atan|acos|asin|round_ties_even|signum|cbrt|recip)")
def _f1(c, t, w):
    r = T.ffun(w, c.v(0))
    return T.f32(r) if t == "f32" else r


@rx(r"(f64|f32)::(powf|powi|atan2|hypot|min|max|rem_euclid|mul_add|copysign|div_euclid|clamp|log)")
def _f2(c, t, w):
    r = _f2v(c, w)
    return T.f32(r) if t == "f32" else r


def _f2v(c, w):
    a = [c.v(k) for k in range(len(c.args))]
    if w in ("powf", "powi") and a[1].op in ("flt", "int") and float(a[1].args[0]) == 2.0:
        return T.fop("fmul", a[0], a[0])
    if w == "powi":
        a[1] = T.i2f(a[1])
        w = "powf"
    if w == "mul_add":
        return T.fop("fadd", T.fop("fmul", a[0], a[1]), a[2])
    if w == "clamp":
        return T.ffun("min", T.ffun("max", a[0], a[1]), a[2])
    return T.ffun(w, *a)


@rx(r"(?:f64|f32)::(is_nan|is_finite|is_infinite|is_sign_negative|is_sign_positive|is_normal)")
def _fis(c, w):
    return T.app("f64::" + w, "bool", c.v(0))


@rx(r"f64::to_(?:le|be)_bytes")
def _fbits(c):
    return c.E.unknown(c.path, c.args, "u64", c.st)


# ---------------------------------------------------------------- printing and formatting

@rx(r"std::io::stdio::_(?:e)?print", r"core::fmt::rt::Argument::from_usize")
def _print(c):
    return T.UNIT


@rx(r"core::fmt::rt::Argument::new_(\w+)")
def _fmtarg(c, w):
    return T.ctor("FmtArg", [T.S(w), c.v(0), T.S(ty_name(c.ty[0]) if c.ty else "?")])


@rx(r"core::fmt::Arguments::(new|from_str|from_str_nonconst|new_const)")
def _fmtargs(c, w):
    if w != "new":
        return T.ctor("FmtArgs", [c.v(0)])
    t = c.v(0)
    a = c.v(1)
    if t.op != "list" or a.op != "list":
        return T.ctor("FmtArgs", [T.app("formatted", "seq:u8", t, a)])
    b = bytes(x.args[0] for x in t.args[0])
    out, i, nxt_ = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 128:
            out.append(T.S(b[i:i + n].decode("utf8")))
            i += n
        elif n == 128:
            l = b[i] | b[i + 1] << 8
            out.append(T.S(b[i + 2:i + 2 + l].decode("utf8")))
            i += 2 + l
        else:
            fl = wd = pr = ix = None
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                wd = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                pr = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                ix = int.from_bytes(b[i:i + 2], "little")
                i += 2
            else:
                ix = nxt_
            nxt_ = ix + 1
            out.append(fmt1(c, a.args[0][ix], fl, wd, pr, n))
    return T.ctor("FmtArgs", [T.cat(*out)])


def fmt1(c, a, fl, wd, pr, n):
    a = c.E.val(c.st, a)
    if not ctor_is(a, "FmtArg"):
        return T.app("fmt", "seq:u8", a)
    how, v, ty = a.args[1][0].args[0], a.args[1][1], a.args[1][2].args[0]
    if how == "display" and ty in ("String", "str", "Display", "Cow") and not n & 7:
        return v
    if how in ("lower_hex", "upper_hex") and ty == "u8" and wd == 2 and fl is not None and fl & (1 << 24) and not fl & (1 << 23):
        up = how == "upper_hex"
        return T.lst(hexdigit(T.idiv(v, T.I(16)), up), hexdigit(T.imod(v, T.I(16)), up))
    if how in ("lower_hex", "upper_hex") and ty == "u8" and wd in (None, 0, 1, 2) and (fl is None or fl >> 29 == 3 and fl & 0x1fffff == 32 and not fl & (7 << 21 | 1 << 24)):
        up = how == "upper_hex"
        hi, lo = hexdigit(T.idiv(v, T.I(16)), up), hexdigit(T.imod(v, T.I(16)), up)
        return T.ite(T.lt(v, T.I(16)), T.lst(*([T.I(32)] if wd == 2 else []), lo), T.lst(hi, lo))
    return T.app("fmt:%s:%s:%s:%s:%s" % (how, ty, fl, wd, pr), "seq:u8", v)


@rx(r"core::fmt::Write::write_fmt", r"<alloc::string::String as core::fmt::Write>::write_fmt", r"core::fmt::Write::write_str", r"<alloc::string::String as core::fmt::Write>::write_str")
def _write_fmt(c):
    x = c.v(1)
    s = x.args[1][0] if ctor_is(x, "FmtArgs") else x
    c.set(0, T.cat(c.v(0), s))
    return T.ok(T.UNIT)


@rx(r"alloc::fmt::format", r"alloc::fmt::format::.*")
def _format(c):
    x = c.v(0)
    return x.args[1][0] if ctor_is(x, "FmtArgs") else T.app("formatted", "seq:u8", x)


@rx(r"<.* as alloc::string::ToString>::to_string", r"alloc::string::ToString::to_string")
def _to_string(c):
    ty = ty_name(c.ty[0]) if c.ty else "?"
    if ty in ("str", "String"):
        return c.v(0)
    return T.app("to_string:" + ty, "seq:u8", c.v(0))


@rx(r"core::panicking::.*", r"std::panicking::.*", r"core::option::(?:expect|unwrap)_failed", r"core::result::unwrap_failed", r"std::process::exit")
def _panic(c):
    c.E.panic(c.st, T.TRUE, "exit" if c.path.endswith("exit") else "explicit panic", c.span)
    return None


# ---------------------------------------------------------------- bitvec

def order(c):
    for t in c.ty:
        for u in [t] + (t.get("args") or [] if t["k"] == "adt" else []):
            if ty_name(u) in ("Lsb0", "Msb0"):
                return ty_name(u)
    return "Lsb0"


def width(c, d="u8"):
    for t in c.ty:
        while t["k"] in ("ref", "array", "slice"):
            t = t.get("to") or t.get("of")
        if t["k"] == "int":
            return 64 if t["n"] == "usize" else int(t["n"][1:])
    return 8


def unpackw(x, w, o):
    return T.unpackw(x, w, o)


@rx(r"bitvec::vec::BitVec::(?:from_vec|from_slice|try_from_vec|try_from_slice)", r"bitvec::slice::BitSlice::from_slice")
def _bv_from(c):
    x = unpackw(c.v(0), width(c), order(c))
    return T.ok(x) if "try_" in c.path else x


@rx(r"bitvec::array::BitArray::new")
def _ba_new(c):
    x = c.v(0)
    if x is T.EMPTY or x.op == "list":
        return unpackw(x, width(c), order(c))
    return T.tab(T.I(width(c)), T.mk("lam", T.bit(T._shift(x, 1), T.mk("bv", 0), order(c), width(c))))


@rx(r".*bitvec::view::BitView>::view_bits", r"bitvec::view::BitView::view_bits")
def _view_bits(c):
    x = c.v(0)
    w = width(c)
    if T._intish(x) or x.op in ("at", "fld", "sym", "int"):
        j = T.fresh("k", "nat")
        o = order(c)
        if w == 8:
            return T.unpack(T.lst(x), o) if False else T.mk("tab", T.I(8), T.lam(j, T.bit(x, j, o)))
        return T.mk("tab", T.I(w), T.lam(j, T.bit(x, j, o, w)))
    return unpackw(x, w, order(c))


@rx(r"bitvec::vec::BitVec::(into_vec|as_raw_slice)", r"bitvec::slice::BitSlice::(domain)")
def _into_vec(c, *w):
    if w[0] is None:
        raise Unsup("domain")
    x = c.v(0)
    wd = width(c)
    if wd == 8:
        return T.pack(x, order(c))
    return T.packw(x, wd, order(c))


@rx(r"<bitvec::(?:vec::BitVec|slice::BitSlice) as bitvec::field::BitField>::load(_be|_le)?", r"bitvec::field::BitField::load(_be|_le)?")
def _load(c, *w):
    x = c.v(0)
    n = T.length(x)
    if not T.is_int(n) or n.args[0] > 8:
        raise Unsup("load of a long bit string")
    return T.word(x, order(c))


@rx(r"<bool as funty::Fundamental>::as_(\w+)")
def _as(c, w):
    x = c.v(0)
    if w == "bool":
        return T.bnot(x)      # funty 2.0: bool::as_bool compares with zero
    if w in INTS:
        return T.ite(x, T.I(1), T.I(0))
    raise Unsup("funty " + w)


@rx(r"bitvec::slice::BitSlice::set")
def _bset(c):
    v, i, x = c.v(0), c.v(1), c.v(2)
    if not c.require(in_range(i, T.length(v)), "bit index"):
        return None
    c.set(0, T.store(v, i, x))
    return T.UNIT


@rx(r"bitvec::slice::iter::.*::(?:by_vals|by_refs)", r"bitvec::slice::iter::Iter::by_vals")
def _by_vals(c):
    return to_iter(c, c.args[0])


@rx(r"bitvec::vec::BitVec::repeat")
def _brepeat(c):
    x, n = c.v(0), c.v(1)
    return T.tab(n, T.mk("lam", T._shift(x, 1)))


# ---------------------------------------------------------------- ndarray

@rx(r"ndarray::aliases::Ix2")
def _ix2(c):
    return T.tup(c.v(0), c.v(1))


@rx(r"ndarray::ArrayBase::(dim|raw_dim)")
def _dim(c, w):
    m = c.v(0)
    if T.elemsort(m) is not None or m.op in ("tab", "list", "cat"):
        return T.length(m)
    return T.tup(T.rows(m), T.cols(m))


@rx(r"ndarray::ArrayBase::(nrows|ncols|shape|len|len_of)")
def _nrows(c, w):
    m = c.v(0)
    if w == "nrows":
        return T.rows(m)
    if w == "ncols":
        return T.cols(m)
    if w == "shape":
        return T.lst(T.rows(m), T.cols(m))
    if w == "len":
        return T.mul(T.rows(m), T.cols(m)) if not is_vec(m) else T.length(m)
    ax = axis(c, c.v(1))
    return T.rows(m) if ax == 0 else T.cols(m)


def is_vec(m):
    return m.op in ("tab", "list", "cat", "flat", "slice", "store") or m.op in ("sym", "app") and str(m.args[1]).startswith("seq:")


def axis(c, x):
    if x.op == "ctor" and T.is_int(x.args[1][0]):
        return x.args[1][0].args[0]
    raise Unsup("axis")


@rx(r"ndarray::ArrayBase::(?:view_mut|slice_mut_all)")
def _view_mut(c):
    return c.args[0]


@rx(r"ndarray::ArrayBase::(?:view|to_owned|into_owned|reborrow|into_shared|to_shared)", r"ndarray::.*ArrayBase.*::reborrow")
def _view(c):
    return c.args[0] if c.path.endswith("reborrow") else c.v(0)


@rx(r"ndarray::ArrayBase::split_at")
def _nd_split(c):
    r = c.args[0]
    ax, n = axis(c, c.v(1)), c.v(2)
    m = c.v(0)
    R, C = T.rows(m), T.cols(m)
    if not c.require(T.band(T.le(T.I(0), n), T.le(n, R if ax == 0 else C)), "split_at index"):
        return None
    z = T.I(0)
    p1, p2 = ((z, z, n, C), (n, z, T.sub(R, n), C)) if ax == 0 else ((z, z, R, n), (z, n, R, T.sub(C, n)))
    if r.op == "mref":
        t = c.E.target(c.st, r)
        return T.tup(through_sub(c, t, p1), through_sub(c, t, p2))
    return T.tup(T.submat(m, *p1), T.submat(m, *p2))


def through_sub(c, t, p):
    """compose nested sub-blocks of one matrix"""
    path = t.args[1]
    if path and path[-1][0] == "sub":
        _, r0, c0, _, _ = path[-1]
        return mref(t.args[0], path[:-1] + (("sub", T.add(r0, p[0]), T.add(c0, p[1]), p[2], p[3]),))
    return c.E.through(t, [("sub",) + tuple(p)])


@rx(r"ndarray::slice::SliceNextDim::(?:next_in_dim|next_out_dim)", r"<ndarray::slice::\w+ as ndarray::slice::SliceNextDim>::(?:next_in_dim|next_out_dim)")
def _nextdim(c):
    return T.UNIT


@rx(r"ndarray::slice::Slice::new")
def _slice_new(c):
    lo, hi, step = c.v(0), c.v(1), c.v(2)
    if step is not T.I(1) or hi.op != "ctor":
        raise Unsup("slice with a step")
    r = T.ctor("core::ops::range::RangeFrom", [lo]) if short(hi.args[0]) == "None" else T.ctor("core::ops::range::Range", [lo, hi.args[1][0]])
    return T.ctor("nd:elem", [r])


@rx(r"ndarray::slice::Slice::step_by")
def _slice_step(c):
    if c.v(1) is not T.I(1):
        raise Unsup("slice with a step")
    return c.v(0)


@rx(r"ndarray::slice::SliceInfo::new_unchecked", r"ndarray::slice::SliceInfo::new")
def _slice_info(c):
    return c.v(0)


def nd_part(c, e, n):
    """(first, length) of one dimension of a slice, length None for an index; False when it certainly panics"""
    if e.op != "ctor" or e.args[0] != "nd:elem":
        raise Unsup("slice argument %s" % T.show(e)[:60])
    e = e.args[1][0]

    def place(x):
        # negative places count from the end
        return T.ite(T.lt(x, T.I(0)), T.add(n, x), x)
    if T._intish(e):
        i = place(e)
        if not c.require(in_range(i, n), "index of a slice"):
            return False
        return i, None
    nm = short(e.args[0]) if e.op == "ctor" else None
    f = [c.E.val(c.st, x) for x in e.args[1]] if e.op == "ctor" else ()
    if nm not in ("Range", "RangeTo", "RangeFrom", "RangeFull", "RangeInclusive", "RangeToInclusive"):
        raise Unsup("slice argument %s" % T.show(e)[:60])
    lo = place(f[0]) if nm in ("Range", "RangeFrom", "RangeInclusive") else T.I(0)
    hi = n
    if nm in ("Range", "RangeTo"):
        hi = place(f[-1])
    elif nm in ("RangeInclusive", "RangeToInclusive"):
        x = f[1] if nm == "RangeInclusive" else f[0]
        hi = T.ite(T.eq(x, T.I(-1)), n, place(T.add(x, T.I(1))))
    ok = T.band(T.le(T.I(0), lo), T.le(lo, n), T.le(T.I(0), hi), T.le(hi, n))
    if not c.require(ok, "slice of a matrix"):
        return False
    with T.under(c.st.facts):
        # an end before the start makes it empty
        hi = T.renorm(hi) if T.prove_ge0(T.sub(hi, lo)) else T.mx(hi, lo)
    return lo, T.sub(hi, lo)


@rx(r"ndarray::ArrayBase::(slice|slice_mut|slice_move|slice_axis|slice_axis_mut)")
def _nd_slice(c, w):
    m, r = c.v(0), c.args[0]
    mut = w.endswith("_mut") and r.op == "mref"
    if "axis" in w:
        ax = axis(c, c.v(1))
        full = T.ctor("nd:elem", [T.ctor("core::ops::range::RangeFull", [])])
        es = [c.v(2)] if is_vec(m) else [c.v(2), full] if ax == 0 else [full, c.v(2)]
    else:
        info = c.v(1)
        if info.op != "list":
            raise Unsup("slice argument %s" % T.show(info)[:60])
        es = [c.E.val(c.st, x) for x in info.args[0]]
    if len(es) != (1 if is_vec(m) else 2):
        raise Unsup("slice of other dimensions")
    if is_vec(m):
        p = nd_part(c, es[0], T.length(m))
        if p is False:
            return None
        if p[1] is None:
            raise Unsup("slice to no dimensions")
        hi = T.add(p[0], p[1])
        return c.E.through(c.E.target(c.st, r), [("seqsl", p[0], hi)]) if mut else T.slc(m, p[0], hi)
    a = nd_part(c, es[0], T.rows(m))
    b = nd_part(c, es[1], T.cols(m)) if a is not False else False
    if a is False or b is False:
        return None
    if a[1] is None and b[1] is None:
        raise Unsup("slice to no dimensions")
    box = (a[0], b[0], T.I(1) if a[1] is None else a[1], T.I(1) if b[1] is None else b[1])
    line = [("row", T.I(0))] if a[1] is None else [("col", T.I(0))] if b[1] is None else []
    if mut:
        x = through_sub(c, c.E.target(c.st, r), box)
        return c.E.through(x, line) if line else x
    v = T.submat(m, *box)
    return c.E.step(v, line[0]) if line else v


@rx(r"ndarray::ArrayBase::(rows_mut|columns_mut|outer_iter_mut|axis_iter_mut|lanes_mut|genrows_mut|gencolumns_mut)")
def _rows_mut(c, w):
    r = c.args[0]
    m = c.v(0)
    if r.op != "mref":
        raise Unsup("mutable rows of a value")
    t = c.E.target(c.st, r)
    row = w in ("rows_mut", "outer_iter_mut", "genrows_mut")
    if w == "axis_iter_mut":
        row = axis(c, c.v(1)) == 0
    if w == "lanes_mut":
        row = axis(c, c.v(1)) == 1
    k = T.fresh("k", "nat")
    return it(T.mk("tab", T.rows(m) if row else T.cols(m), T.lam(k, c.E.through(t, [("row" if row else "col", k)]))))


@rx(r"ndarray::ArrayBase::(rows|columns|outer_iter|axis_iter|genrows|gencolumns|lanes)")
def _rows(c, w):
    m = c.v(0)
    row = w in ("rows", "outer_iter", "genrows")
    if w == "axis_iter":
        row = axis(c, c.v(1)) == 0
    if w == "lanes":
        row = axis(c, c.v(1)) == 1
    k, j = T.fresh("k", "nat"), T.fresh("j", "nat")
    if row:
        return it(T.tab(T.rows(m), T.lam(k, T.tab(T.cols(m), T.lam(j, T.at2(m, k, j))))))
    return it(T.tab(T.cols(m), T.lam(k, T.tab(T.rows(m), T.lam(j, T.at2(m, j, k))))))


@rx(r"ndarray::ArrayBase::(row|column|row_mut|column_mut)")
def _row(c, w):
    m, i = c.v(0), c.v(1)
    row = w.startswith("row")
    if not c.require(in_range(i, T.rows(m) if row else T.cols(m)), "row index"):
        return None
    if w.endswith("_mut"):
        return c.E.through(c.E.target(c.st, c.args[0]), [("row" if row else "col", i)])
    j = T.fresh("j", "nat")
    return T.tab(T.cols(m), T.lam(j, T.at2(m, i, j))) if row else T.tab(T.rows(m), T.lam(j, T.at2(m, j, i)))


@rx(r"ndarray::ArrayBase::(?:to_vec)", r"<ndarray::ArrayBase as core::convert::From>::from", r"ndarray::ArrayBase::from_vec", r"ndarray::ArrayBase::from_iter")
def _to_vec(c):
    if c.path.endswith("from_iter"):
        return seqarg(c, c.args[0])
    return c.v(0)


@rx(r"ndarray::ArrayBase::assign_to")
def _assign_to(c):
    return _assign(c, 1, 0)


@rx(r"ndarray::ArrayBase::assign")
def _assign2(c):
    return _assign(c, 0, 1)


def _assign(c, d, s):
    r = c.args[d]
    v, x = c.v(d), c.v(s)
    vec = is_vec(v)
    same = T.eq(T.length(v), T.length(x)) if vec else T.band(T.eq(T.rows(v), T.rows(x)), T.eq(T.cols(v), T.cols(x)))
    # assign broadcasts: a mismatch panics unless broadcast applies
    if not c.require(same, "assign shape"):
        return None
    c.E.store(c.st, c.E.target(c.st, r), x)
    return T.UNIT


@rx(r".*ndarray::argument_traits::AssignElem>::assign_elem", r"ndarray::argument_traits::AssignElem::assign_elem")
def _assign_elem(c):
    c.set(0, c.v(1))
    return T.UNIT


@rx(r"dwt::wavelet::Haar::new")
def _haar(c):
    return T.ctor("haar", [])


HAAR = "dwt::haar"
T.SEQLEN[HAAR] = lambda t: T.length(t.args[2][0])


@rx(r"dwt::transform")
def _dwt(c):
    x, op, w, lv = [c.v(k) for k in range(4)]
    if w.op != "ctor" or w.args[0] != "haar":
        raise Unsup("wavelet")
    if not c.require(T.bor(T.eq(lv, T.I(0)), T.eq(T.imod(T.length(x), T.pow2(lv)), T.I(0))), "length divisible by the levels"):
        return None
    c.set(0, haar(x, T.eq(T.discr(op), T.I(1)), lv))
    return T.UNIT


def haar(x, inverse, lv):
    if inverse is not T.TRUE and inverse is not T.FALSE:
        return T.ite(inverse, haar(x, T.TRUE, lv), haar(x, T.FALSE, lv))
    return T.app(HAAR, "seq:f64", x, inverse, lv)


@rx(r"ndarray::ArrayBase::(?:fill)")
def _nd_fill(c):
    m, x = c.v(0), c.v(1)
    c.set(0, T.mat(T.rows(m), T.cols(m), T.mk("lam", T.mk("lam", T._shift(x, 2)))))
    return T.UNIT


@rx(r"ndarray::ArrayBase::(mapv|map|mapv_into)")
def _mapv(c, w):
    m = c.v(0)
    if is_vec(m):
        x = mapped(c, it(m), c.args[1])
        return drain(c, x)
    R, C = T.rows(m), T.cols(m)
    clo = c.E.val(c.st, c.args[1])
    if has_mref(clo):
        raise Unsup("mapv with effects")
    r, k = T.fresh("r", "nat"), T.fresh("c", "nat")
    st = c.st.with_facts(T.lt(r, R), T.lt(k, C))
    with T.under(st.facts):
        v, _ = c.E.call_closure(st, clo, [T.at2(m, r, k)])
    if v is None:
        return None
    return T.mat(R, C, T.lam(r, T.lam(k, v)))


@rx(r"ndarray::ArrayBase::(mapv_inplace|map_inplace)")
def _mapvi(c, w):
    m = c.v(0)
    if w == "map_inplace" or is_vec(m):
        raise Unsup(w)
    r = _mapv.__wrapped__(c) if hasattr(_mapv, "__wrapped__") else _mapv(c, "mapv")
    if r is None:
        return None
    c.set(0, r)
    return T.UNIT


@rx(r"ndarray::ArrayBase::get")
def _nd_get(c):
    m = c.v(0)
    if is_vec(m):
        return _get(c)
    r, k = idx2(c, c.args[1])
    ok = T.band(in_range(r, T.rows(m)), in_range(k, T.cols(m)))
    return T.ite(ok, T.some(T.at2(m, r, k)), T.none)


@rx(r"ndarray::ArrayBase::get_mut")
def _nd_get_mut(c):
    m = c.v(0)
    r, k = idx2(c, c.args[1])
    ok = T.band(in_range(r, T.rows(m)), in_range(k, T.cols(m)))
    t = c.E.target(c.st, c.args[0])
    return T.ite(ok, T.some(c.E.through(t, [("el", r, k)])), T.none)


@rx(r"ndarray::ArrayBase::from_shape_vec")
def _from_shape(c):
    r, k = idx2(c, c.args[0])
    s = c.v(1)
    return T.ite(T.eq(T.mul(r, k), T.length(s)), T.ok(T.shape(r, k, s)), T.err(T.app("ShapeError", "?")))


@rx(r"ndarray::ArrayBase::from_shape_fn")
def _from_fn(c):
    R, C = idx2(c, c.args[0])
    clo = c.E.val(c.st, c.args[1])
    if has_mref(clo):
        raise Unsup("from_shape_fn with effects")
    r, k = T.fresh("r", "nat"), T.fresh("c", "nat")
    st = c.st.with_facts(T.lt(r, R), T.lt(k, C))
    with T.under(st.facts):
        v, _ = c.E.call_closure(st, clo, [T.tup(r, k)])
    if v is None:
        return None
    return T.mat(R, C, T.lam(r, T.lam(k, v)))


@rx(r"ndarray::ArrayBase::(?:from_elem|zeros|default)")
def _nd_elem(c):
    R, C = idx2(c, c.args[0])
    if len(c.args) > 1:
        x = c.v(1)
    else:
        n = [t for t in c.ty if t["k"] in ("int", "float")]
        x = T.F(0.0) if n and n[0]["k"] == "float" else T.I(0)
    return T.mat(R, C, T.mk("lam", T.mk("lam", T._shift(x, 2))))


@rx(r"ndarray::ArrayBase::(?:into_raw_vec|into_raw_vec_and_offset)")
def _raw(c):
    return T.matseq(c.v(0)) if not is_vec(c.v(0)) else c.v(0)


@rx(r"ndarray::ArrayBase::(?:iter|into_iter)")
def _nd_iter(c):
    m = c.v(0)
    return it(m if is_vec(m) else T.matseq(m))


@rx(r"ndarray::ArrayBase::(?:iter_mut)")
def _nd_iter_mut(c):
    m = c.v(0)
    t = c.E.target(c.st, c.args[0])
    k = T.fresh("k", "nat")
    if is_vec(m):
        return iter_mut(c, c.args[0])
    return it(T.mk("tab", T.mul(T.rows(m), T.cols(m)), T.lam(k, c.E.through(t, [("el", T.idiv(k, T.cols(m)), T.imod(k, T.cols(m)))]))))


@rx(r"ndarray::ArrayBase::(indexed_iter|indexed_iter_mut)")
def _indexed(c, w):
    m = c.v(0)
    k = T.fresh("k", "nat")
    C = T.cols(m)
    r, q = T.idiv(k, C), T.imod(k, C)
    if w.endswith("mut"):
        t = c.E.target(c.st, c.args[0])
        return it(T.mk("tab", T.mul(T.rows(m), C), T.lam(k, T.tup(T.tup(r, q), c.E.through(t, [("el", r, q)])))))
    return it(T.tab(T.mul(T.rows(m), C), T.lam(k, T.tup(T.tup(r, q), T.at2(m, r, q)))))


@rx(r"ndarray::ArrayBase::(?:t|reversed_axes)")
def _t(c):
    m = c.v(0)
    if c.args[0].op == "mref" and c.path.endswith("reversed_axes"):
        raise Unsup("transposed view")
    r, k = T.fresh("r", "nat"), T.fresh("c", "nat")
    return T.mat(T.cols(m), T.rows(m), T.lam(r, T.lam(k, T.at2(m, k, r))))


# ---------------------------------------------------------------- complex numbers

CX = "num_complex::Complex"


def _is_cplx(t):
    if t.op == "ctor":
        return short(t.args[0]) == "Complex"
    if t.op == "ite":
        return _is_cplx(t.args[1])
    s = {"app": lambda: t.args[1], "sym": lambda: t.args[1], "fld": lambda: t.args[3], "at": lambda: t.args[2]}.get(t.op, lambda: None)()
    return s == "cplx"


def cx(t):
    if t.op == "flt" or t.op in ("i2f",):
        return t, T.F(0.0)
    return T.fld(t, None, 0, "f64"), T.fld(t, None, 1, "f64")


def mkc(re_, im):
    return T.ctor(CX, [re_, im])


def cplx_op(op, a, b, real_left=False, real_right=False, c=None):
    f = T.fop
    if op == "Add":
        return mkc(f("fadd", a[0], b[0]), b[1] if real_left else a[1] if real_right else f("fadd", a[1], b[1]))
    if op == "Sub":
        return mkc(f("fsub", a[0], b[0]), T.fneg(b[1]) if real_left else a[1] if real_right else f("fsub", a[1], b[1]))
    if op == "Mul":
        if real_left:
            return mkc(f("fmul", a[0], b[0]), f("fmul", a[0], b[1]))
        if real_right:
            return mkc(f("fmul", a[0], b[0]), f("fmul", a[1], b[0]))
        return mkc(f("fsub", f("fmul", a[0], b[0]), f("fmul", a[1], b[1])), f("fadd", f("fmul", a[0], b[1]), f("fmul", a[1], b[0])))
    if op == "Div" and real_right:
        return mkc(f("fdiv", a[0], b[0]), f("fdiv", a[1], b[0]))
    raise Unsup("complex " + op)


@rx(r"<&?num_complex::Complex as core::ops::arith::(Add|Sub|Mul|Div)(Assign)?>::\w+")
def _cop(c, op, assign):
    a, b = c.v(0), c.v(1)
    rt = c.ty[1] if len(c.ty) > 1 else None
    real = not _is_cplx(b) and (b.op == "flt" or T_isreal(b, rt))
    r = cplx_op(op, cx(a), (b, T.F(0.0)) if real else cx(b), real_right=real)
    if assign:
        c.set(0, r)
        return T.UNIT
    return r


def T_isreal(b, ty=None):
    if ty is not None and prim(ty) is not None and prim(ty)["k"] == "float" and not b.op == "ctor":
        # impl<T> Add<T> for Complex<T> carries T only; decide on the term
        pass
    return b.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "i2f", "fn", "flt", "frem") or b.op in ("app", "sym", "fld", "at", "at2", "fold") and \
        (b.args[1] if b.op in ("app", "sym") else b.args[3] if b.op in ("fld", "fold") else None) == "f64" or \
        b.op == "ite" and T_isreal(b.args[1])


@rx(r"<&?num_complex::Complex as core::ops::arith::Neg>::neg")
def _cneg(c):
    a = cx(c.v(0))
    return mkc(T.fneg(a[0]), T.fneg(a[1]))


@rx(r"num_complex::Complex::new")
def _cnew(c):
    return mkc(c.v(0), c.v(1))


@rx(r"num_complex::Complex::conj", r"<num_complex::Complex as num_complex::complex_float::ComplexFloat>::conj")
def _conj(c):
    a = cx(c.v(0))
    return mkc(a[0], T.fneg(a[1]))


@rx(r"num_complex::Complex::exp", r"<num_complex::Complex as num_complex::complex_float::ComplexFloat>::exp")
def _cexp(c):
    a = cx(c.v(0))
    r = T.ffun("exp", a[0]) if a[0].op != "flt" or a[0].args[0] != 0 else T.F(1.0)
    return mkc(T.fop("fmul", r, T.ffun("cos", a[1])), T.fop("fmul", r, T.ffun("sin", a[1])))


@rx(r"num_complex::Complex::from_polar")
def _cpolar(c):
    r, a = c.v(0), c.v(1)
    return mkc(T.fop("fmul", r, T.ffun("cos", a)), T.fop("fmul", r, T.ffun("sin", a)))


@rx(r"num_complex::Complex::(?:norm|abs)", r"<num_complex::Complex as num_complex::complex_float::ComplexFloat>::abs")
def _cabs(c):
    a = cx(c.v(0))
    return T.ffun("hypot", a[0], a[1])


# ---------------------------------------------------------------- images

@rx(r"image::buffer_::ImageBuffer::(?:new)")
def _img_new(c):
    w, h = c.v(0), c.v(1)
    p = T.app("zero pixel", "?")
    return T.mat(h, w, T.mk("lam", T.mk("lam", p)))


@rx(r"image::buffer_::ImageBuffer::from_pixel")
def _img_px(c):
    w, h = c.v(0), c.v(1)
    return T.mat(h, w, T.mk("lam", T.mk("lam", T._shift(c.v(2), 2))))


@rx(r"(?:image::buffer_::ImageBuffer::|<image::buffer_::ImageBuffer as image::image::GenericImageView>::)(dimensions|width|height)")
def _img_dim(c, w):
    m = c.v(0)
    d = (T.cols(m), T.rows(m))
    return T.tup(*d) if w == "dimensions" else d[0] if w == "width" else d[1]


@rx(r"image::buffer_::ImageBuffer::enumerate_pixels")
def _enum_px(c):
    m = c.v(0)
    k = T.fresh("k", "nat")
    W, H = T.cols(m), T.rows(m)
    y, x = T.idiv(k, W), T.imod(k, W)
    return it(T.tab(T.mul(H, W), T.lam(k, T.tup(x, y, T.at2(m, y, x)))))


@rx(r"image::buffer_::ImageBuffer::enumerate_pixels_mut")
def _enum_pxm(c):
    m = c.v(0)
    t = c.E.target(c.st, c.args[0])
    k = T.fresh("k", "nat")
    W, H = T.cols(m), T.rows(m)
    y, x = T.idiv(k, W), T.imod(k, W)
    return it(T.mk("tab", T.mul(H, W), T.lam(k, T.tup(x, y, c.E.through(t, [("px", x, y)])))))


@rx(r"(?:image::buffer_::ImageBuffer::|<image::buffer_::ImageBuffer as image::image::GenericImageView>::)get_pixel")
def _get_px(c):
    m, x, y = c.v(0), c.v(1), c.v(2)
    if not c.require(T.band(T.lt(x, T.cols(m)), T.lt(y, T.rows(m))), "pixel coordinates"):
        return None
    return T.at2(m, y, x)


@rx(r"image::buffer_::ImageBuffer::get_pixel_mut")
def _get_pxm(c):
    m, x, y = c.v(0), c.v(1), c.v(2)
    if not c.require(T.band(T.lt(x, T.cols(m)), T.lt(y, T.rows(m))), "pixel coordinates"):
        return None
    return c.E.through(c.E.target(c.st, c.args[0]), [("px", x, y)])


@rx(r"(?:image::buffer_::ImageBuffer::|<image::buffer_::ImageBuffer as image::image::GenericImage>::)put_pixel")
def _put_px(c):
    m, x, y = c.v(0), c.v(1), c.v(2)
    if not c.require(T.band(T.lt(x, T.cols(m)), T.lt(y, T.rows(m))), "pixel coordinates"):
        return None
    c.set(0, T.store2(m, y, x, c.v(3)))
    return T.UNIT


@rx(r"image::buffer_::ImageBuffer::(?:from_fn)")
def _img_fn(c):
    w, h = c.v(0), c.v(1)
    clo = c.E.val(c.st, c.args[2])
    if has_mref(clo):
        raise Unsup("from_fn with effects")
    r, k = T.fresh("r", "nat"), T.fresh("c", "nat")
    st = c.st.with_facts(T.lt(r, h), T.lt(k, w))
    with T.under(st.facts):
        v, _ = c.E.call_closure(st, clo, [k, r])
    if v is None:
        return None
    return T.mat(h, w, T.lam(r, T.lam(k, v)))


@rx(r"image::buffer_::ImageBuffer::(?:as_raw|into_raw|into_vec)", r"<image::buffer_::ImageBuffer as core::ops::deref::Deref>::deref")
def _as_raw(c):
    m = c.v(0)
    # one sample per pixel (grey): row-major samples
    return T.app("raw", "seq:u8", m) if not _grey(c) else T.matsamples(m)


def _grey(c):
    return any(t["k"] == "adt" and ty_name(t) == "Luma" for t in c.ty)


@rx(r"image::buffer_::ImageBuffer::from_raw")
def _from_raw(c):
    w, h, s = c.v(0), c.v(1), c.v(2)
    if _grey(c):
        ok = T.le(T.mul(w, h), T.length(s))
        return T.ite(ok, T.some(T.grey(h, w, s)), T.none)
    return c.E.unknown(c.path, c.args, "Option", c.st)


@rx(r"image::color::(\w+)::from_pixel.*|<image::color::(\w+) as image::traits::Pixel>::channels4")
def _channels4(c, *w):
    if not c.path.endswith("channels4"):
        raise Unsup(c.path)
    p = c.v(0)
    s = T.fld(p, None, 0, "seq:u8")
    return T.tup(*[T.at(s, T.I(k), "u8") for k in range(4)])


@rx(r"<image::color::\w+ as image::traits::Pixel>::(channels|to_luma|to_rgba)", r"image::color::\w+::(channels)")
def _channels(c, *w):
    if "channels" not in w:
        return c.E.unknown(c.path, c.args, "?", c.st)
    return T.fld(c.v(0), None, 0, "seq:u8")


@rx(r"<image::dynimage::DynamicImage as image::image::GenericImageView>::(dimensions|width|height)", r"image::dynimage::DynamicImage::(width|height|dimensions)")
def _dyn_dim(c, *w):
    w = [x for x in w if x][0]
    m = c.v(0)
    d = (T.app("image width", "u32", m), T.app("image height", "u32", m))
    return T.tup(*d) if w == "dimensions" else d[0] if w == "width" else d[1]


@rx(r"<image::dynimage::DynamicImage as image::image::GenericImageView>::get_pixel")
def _dyn_px(c):
    m, x, y = c.v(0), c.v(1), c.v(2)
    if not c.require(T.band(T.lt(x, T.app("image width", "u32", m)), T.lt(y, T.app("image height", "u32", m))), "pixel coordinates"):
        return None
    return T.app("image pixel", "Rgba", m, x, y)


@rx(r"image::dynimage::DynamicImage::color")
def _dyn_color(c):
    return T.app("image colour", "ColorType", c.v(0))


@rx(r"image::color::ColorType::(has_color|has_alpha)")
def _has(c, w):
    return T.app(w, "bool", c.v(0))


@rx(r"image::color::ColorType::channel_count")
def _cc(c):
    return T.app("channel_count", "u8", c.v(0))


# ---------------------------------------------------------------- contrast

EQHIST = "imageproc::contrast::equalize_histogram"
T.MATDIM[EQHIST] = lambda t, k: T._dim(t.args[2][0], k)


@rx(r"imageproc::contrast::equalize_histogram(_mut)?")
def _eqhist(c, mut):
    v = T.app(EQHIST, "mat:?", c.v(0))
    if mut is None:
        return v
    c.set(0, v)
    return T.UNIT
