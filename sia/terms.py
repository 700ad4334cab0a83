"""Hash-consed terms of the value graph and their normalising constructors.

A term denotes a value of the analysed program as a function of its free symbols.  The
constructors below apply only rewrite rules that are equalities of the denoted values
(assumptions are listed in DESIGN.md), so two program fragments with the same normal form
compute the same value for every input.
"""
import itertools
import time

_table = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "args", "id", "fv", "_h", "syms")

    def __repr__(self):
        return show(self)


class Budget(Exception):
    """an obligation takes too long to normalise: it stays undecided"""


BUDGET = [0]


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.id = next(_ids)
        if not t.id & 1023 and BUDGET[0] and time.time() > BUDGET[0]:
            raise Budget("time budget of the obligation used up")
        fv = 0
        if op == "bv":
            fv = args[0] + 1
        else:
            for a in args:
                if isinstance(a, T):
                    if a.fv > fv:
                        fv = a.fv
                elif isinstance(a, tuple):
                    for b in _flat(a):
                        if b.fv > fv:
                            fv = b.fv
            if op == "lam":
                fv = max(0, fv - 1)
        t.fv = fv
        _table[k] = t
    return t


def _flat(x):
    for a in x:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


def subterms(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _flat(a)


# ---------------------------------------------------------------- constants & symbols
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("unit")


def I(n):
    return mk("int", int(n))


def F(x):
    return mk("flt", float(x))


def S(x):
    return mk("str", x)


def B(b):
    return TRUE if b else FALSE


def sym(name, sort):
    return mk("sym", name, sort)


_fresh = itertools.count(1)


def fresh(prefix, sort):
    return mk("sym", "%s#%d" % (prefix, next(_fresh)), sort)


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- integer polynomials
# poly args: tuple of (monomial, coeff); a monomial is a tuple of atoms sorted by id.

def _poly(t):
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def _mkpoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (tuple(a.id for a in mc[0]), mc[1])))
    return mk("poly", items)


def add(*ts):
    # min/max absorb addends: a + min(b, c) = min(a + b, a + c)
    r = {}
    for t in ts:
        for m, c in _poly(t).items():
            r[m] = r.get(m, 0) + c
    if any(a.op == "imod" for m in r for a in m):
        r = _divmod_merge(r)
    mm = [m for m, c in r.items() if len(m) == 1 and m[0].op in ("min", "max") and c == 1]
    if len(mm) == 1 and len([m for m, c in r.items() if c]) > 1:
        at = mm[0][0]
        rest = _mkpoly({m: c for m, c in r.items() if m != mm[0]})
        return (mn if at.op == "min" else mx)(*[add(x, rest) for x in at.args[0]])
    return _mkpoly(r)


def _divmod_merge(r):
    """c*b*(x div b) + c*(x mod b) = c*x for a constant b"""
    ch = True
    while ch:
        ch = False
        for m, c in list(r.items()):
            if not c:
                continue
            for a in m:
                if a.op != "imod":
                    continue
                x, b = a.args
                if not is_int(b):
                    bm = _poly(b)
                    q = mk("idiv", x, b)
                    if len(bm) != 1 or not any(q in z for z in r):
                        continue
                    (bk, bc), = bm.items()
                    rest = list(m)
                    rest.remove(a)
                    mq = tuple(sorted(rest + list(bk) + [q], key=lambda y: y.id))
                    if r.get(mq, 0) == c * bc:
                        r = dict(r)
                        del r[mq], r[m]
                        for m2, c2 in _poly(x).items():
                            k = tuple(sorted(tuple(rest) + m2, key=lambda y: y.id))
                            r[k] = r.get(k, 0) + c * c2
                        ch = True
                        break
                    continue
                q = idiv(x, b)
                rest = list(m)
                rest.remove(a)
                if q.op in ("int", "poly"):
                    continue
                mq = tuple(sorted(rest + [q], key=lambda y: y.id))
                if r.get(mq, 0) == c * b.args[0]:
                    r = dict(r)
                    del r[mq], r[m]
                    for m2, c2 in _poly(x).items():
                        k = tuple(sorted(tuple(rest) + m2, key=lambda y: y.id))
                        r[k] = r.get(k, 0) + c * c2
                    ch = True
                    break
            if ch:
                break
    return r


def scale(t, k):
    if k == 0:
        return I(0)
    return _mkpoly({m: c * k for m, c in _poly(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "ite":
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if is_int(a) and b.op in ("min", "max") and a.args[0] > 0:
        return (mn if b.op == "min" else mx)(*[mul(a, x) for x in b.args[0]])
    if is_int(b) and a.op in ("min", "max"):
        if b.args[0] > 0:
            return mul(b, a)
    r = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            r[m] = r.get(m, 0) + c1 * c2
    return _mkpoly(r)


def const_part(t):
    return _poly(t).get((), 0)


# ---------------------------------------------------------------- ranges and the linear prover

INTR = {}
for _n in (8, 16, 32, 64, 128):
    INTR["u%d" % _n] = (0, 2 ** _n - 1)
    INTR["i%d" % _n] = (-(2 ** (_n - 1)), 2 ** (_n - 1) - 1)
INTR["usize"] = INTR["u64"]
INTR["isize"] = INTR["i64"]
LENMAX = 2 ** 60


class Facts:
    """An immutable set of boolean terms known to hold."""
    __slots__ = ("fs", "ge", "_memo", "loose")
    _all = {}

    def __new__(cls, fs=()):
        fs = frozenset(fs)
        self = cls._all.get(fs)
        if self is None:
            self = object.__new__(cls)
            self._fill(fs)
            if len(cls._all) > 200000:
                cls._all.clear()
            cls._all[fs] = self
        return self

    def _fill(self, fs):
        self.fs = fs
        self.loose = None
        order = sorted(self.fs, key=lambda f: f.id)
        self.ge = [f.args[0] for f in order if f.op == "ge0"]
        for f in order:
            if f.op == "eq0":
                self.ge.append(f.args[0])
                self.ge.append(neg(f.args[0]))
        for q in list(self.ge):
            q = _undivided(q)
            if q is not None:
                self.ge.append(q)
        self._memo = {}

    def plus(self, *more):
        ms = [m for m in _conj(more) if m is not TRUE and m not in self.fs]
        if not ms:
            return self
        return Facts(self.fs | set(ms))

    def __contains__(self, x):
        return x in self.fs


def _undivided(q):
    """c*(x div b) + r >= 0 with c, b > 0 gives c*x + b*r >= 0"""
    if q.op != "poly":
        return None
    ps = _poly(q)
    for (m, c) in ps.items():
        if len(m) == 1 and c > 0 and m[0].op == "idiv" and is_int(m[0].args[1]) and m[0].args[1].args[0] > 1:
            if any(m[0] in z and z != m for z in ps):
                return None
            rest = _mkpoly({z: k for z, k in ps.items() if z != m})
            return add(scale(rest, m[0].args[1].args[0]), scale(m[0].args[0], c))
    return None


def _conj(ts):
    out = []
    for t in ts:
        if t.op == "and":
            out.extend(_conj(t.args[0]))
        else:
            out.append(t)
    return out


NOFACTS = Facts()
_cur = [NOFACTS]


class under:
    """with under(facts): constructors may use these facts to simplify."""

    def __init__(self, facts):
        self.f = facts

    def __enter__(self):
        _cur.append(self.f)

    def __exit__(self, *a):
        _cur.pop()


def cur():
    return _cur[-1]


def arange(t):
    """(lo, hi) of an integer atom from its shape alone."""
    op = t.op
    if op == "int":
        return (t.args[0], t.args[0])
    if op == "sym":
        return INTR.get(t.args[1], (None, None)) if t.args[1] != "nat" else (0, LENMAX)
    if op == "len" or op in ("rows", "cols"):
        return (0, LENMAX)
    if op == "icast":
        return INTR[t.args[0]]
    if op == "f2i":
        return INTR[t.args[0]]
    if op in ("imod",):
        b = rng(t.args[1])
        return (0, None if b[1] is None else max(0, b[1] - 1))
    if op == "idiv":
        a = rng(t.args[0])
        b = rng(t.args[1])
        if a[0] is not None and a[0] >= 0:
            d = b[0] if b[0] is not None and b[0] > 0 else 1
            return (0, None if a[1] is None else a[1] // d)
        return (None, None)
    if op == "first":
        r = rng(t.args[0])
        return (0, r[1])
    if op == "trip":
        return (0, None)
    if op == "fold":
        return (0, None) if t.args[3] == "nat" else INTR.get(t.args[3], (None, None))
    if op in ("app", "at", "fld", "wrap"):
        k = None
        if op == "app":
            k = t.args[1]
        elif op in ("at", "fld"):
            k = t.args[-1]
        elif op == "wrap":
            k = t.args[0]
        if isinstance(k, str) and k in INTR:
            return INTR[k]
    if op == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == "min":
        rs = [rng(x) for x in t.args[0]]
        his = [r[1] for r in rs if r[1] is not None]
        los = [r[0] for r in rs]
        return (None if any(l is None for l in los) else min(los), min(his) if his else None)
    if op == "max":
        rs = [rng(x) for x in t.args[0]]
        los = [r[0] for r in rs if r[0] is not None]
        his = [r[1] for r in rs]
        return (max(los) if los else None, None if any(h is None for h in his) else max(his))
    if op == "discr":
        return (0, 1 << 16)
    if op in ("band",):
        rs = [rng(x) for x in t.args]
        his = [r[1] for r in rs if r[0] is not None and r[0] >= 0 and r[1] is not None]
        if his:
            return (0, min(his))
    if op in ("shr",):
        a = rng(t.args[0])
        if a[0] is not None and a[0] >= 0:
            h = a[1]
            if h is not None and is_int(t.args[1]):
                h >>= t.args[1].args[0]
            return (0, h)
    if op == "pow2":
        h = rng(t.args[0])[1]
        return (1, 2 ** h if h is not None and 0 <= h <= 4096 else None)
    if op in ("bor", "bxor", "word", "b2i"):
        if op == "b2i":
            return (0, 1)
        if op == "word":
            l = length(t.args[0])
            return (0, 2 ** l.args[0] - 1) if is_int(l) else (0, None)
        rs = [rng(x) for x in t.args]
        if all(r[0] is not None and r[0] >= 0 and r[1] is not None for r in rs):
            return (0, 2 ** max(r[1].bit_length() for r in rs) - 1)
    return (None, None)


def rng(t):
    if t.op != "poly":
        return arange(t)
    lo = hi = 0
    for m, c in t.args[0]:
        l, h = 1, 1
        if m:
            l, h = arange(m[0])
            for a in m[1:]:
                l2, h2 = arange(a)
                if l is not None and l >= 0 and l2 is not None and l2 >= 0:
                    l = l * l2
                    h = None if h is None or h2 is None else h * h2
                else:
                    l = h = None
                    break
        if c > 0:
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        else:
            lo = None if lo is None or h is None else lo + c * h
            hi = None if hi is None or l is None else hi + c * l
    return (lo, hi)


def _atoms(p):
    return {a for m in _poly(p) for a in m}


def _implied(p):
    """Facts about the atoms of p that hold by their meaning."""
    out = []
    for a in _atoms(p):
        if a.op == "imod":
            out += [a, sub(sub(a.args[1], a), I(1))]
            q = idiv(a.args[0], a.args[1])
        elif a.op == "idiv":
            if is_pos(a.args[1]):
                q = mul(a, a.args[1])
                out += [sub(a.args[0], q), sub(add(q, a.args[1], I(-1)), a.args[0])]
        elif a.op == "min":
            out += [sub(x, a) for x in a.args[0]]
        elif a.op == "max":
            out += [sub(a, x) for x in a.args[0]]
        elif a.op == "first":
            out += [a, sub(a.args[0], a)]
        elif a.op == "ite":
            pass
    return out


def is_pos(t):
    return prove_ge0(sub(t, I(1)))


def is_nonneg(t):
    return prove_ge0(t)


_depth = [0]


def prove_ge0(p, facts=None, depth=3):
    facts = facts if facts is not None else cur()
    key = (p, depth)
    m = facts._memo.get(key)
    if m is not None:
        return m
    lo = rng(p)[0]
    if lo is not None and lo >= 0:
        return True
    if mk("ge0", p) in facts.fs:
        return True
    if _depth[0] > 6:
        _cut[0] += 1
        return False
    before = _cut[0]
    _depth[0] += 1
    try:
        r = _prove(p, facts, depth)
    finally:
        _depth[0] -= 1
    # a refusal for lack of depth says nothing about the same question asked at the top
    if r or _cut[0] == before:
        facts._memo[key] = r
    return r


_cut = [0]


def _prove(p, facts, depth):
    # case split on one min / max / ite atom occurring with unit structure
    for a in _atoms(p):
        if a.op == "idiv" and is_int(a.args[1]) and a.args[1].args[0] > 1 and depth > 0:
            # b*p + b - 1 >= 0 says the same over the integers, with b*(x div b) between x - b + 1 and x
            ps = _poly(p)
            c = ps.get((a,), 0)
            if c and not any(a in m and m != (a,) for m in ps):
                b = a.args[1].args[0]
                rest = _mkpoly({m: k for m, k in ps.items() if m != (a,)})
                x = a.args[0] if c < 0 else sub(a.args[0], I(b - 1))
                if prove_ge0(add(scale(rest, b), scale(x, c), I(b - 1)), facts, depth - 1):
                    return True
            continue
        if a.op == "idiv" and not is_int(a.args[1]) and depth > 0:
            # the same for a divisor known to be positive
            ps = _poly(p)
            c = ps.get((a,), 0)
            if c and not any(a in m and m != (a,) for m in ps):
                x, b = a.args
                if prove_ge0(sub(b, I(1)), facts, depth - 1):
                    rest = _mkpoly({m: k for m, k in ps.items() if m != (a,)})
                    x = x if c < 0 else sub(x, sub(b, I(1)))
                    if prove_ge0(add(mul(rest, b), scale(x, c), b, I(-1)), facts, depth - 1):
                        return True
            continue
        if a.op in ("min", "max"):
            ps = _poly(p)
            if any(a in m and m != (a,) for m in ps):
                continue
            c = ps.get((a,), 0)
            if c == 0:
                continue
            rest = _mkpoly({m: k for m, k in ps.items() if m != (a,)})
            alts = [add(rest, scale(x, c)) for x in a.args[0]]
            every = (a.op == "min") == (c > 0)
            if every:
                if all(prove_ge0(x, facts, depth) for x in alts):
                    return True
            elif any(prove_ge0(x, facts, depth - 1) for x in alts if depth > 0):
                return True
        if a.op == "ite" and depth > 0:
            c = a.args[0]
            p1 = _substatom(p, a, a.args[1])
            p2 = _substatom(p, a, a.args[2])
            if prove_ge0(p1, facts.plus(c), depth - 1) and prove_ge0(p2, facts.plus(bnot(c)), depth - 1):
                return True
    if depth <= 0:
        return False
    if is_int(p):
        return False
    ps = _poly(p)
    if len(ps) == 2 and ps.get((), 0) == -1:
        # a factor of something positive is positive
        (m, c), = [z for z in ps.items() if z[0] != ()]
        x = m[0]
        if c == 1 and len(m) == 1 and rng(x)[0] == 0:
            for f in facts.ge:
                if has(f, x) and any(x in z and len(z) > 1 for z in _poly(f)) or f.op == "poly" and any(
                        y.op == "idiv" and has(y, x) for y in _atoms(f)):
                    f0 = subst(f, {x: I(0)})
                    if not has(f0, x) and prove_ge0(sub(neg(f0), I(1)), facts, depth - 1):
                        return True
    cand = list(facts.ge) + _implied(p)
    atoms = _atoms(p)
    pm = _poly(p)
    prods = [m for m in pm if len(m) >= 2]
    extra = []
    for m in prods:
        for i in range(len(m)):
            others = m[:i] + m[i + 1:]
            om = _mkpoly({tuple(others): 1})
            if all(arange(o)[0] is not None and arange(o)[0] >= 0 for o in others):
                for q in cand:
                    if (m[i],) in _poly(q):
                        extra.append(mul(q, om))
    cand = cand + extra
    best = []
    for q in cand:
        qm = _poly(q)
        for m, c in qm.items():
            if m == () or m not in pm:
                continue
            # p - k*q with k>0 eliminating m
            k, r = divmod(pm[m], c)
            if r == 0 and k > 0:
                best.append((q, k))
    seen = set()
    for q, k in best:
        if (q, k) in seen:
            continue
        seen.add((q, k))
        if prove_ge0(sub(p, scale(q, k)), facts, depth - 1):
            return True
    return False


def _substatom(p, a, b):
    r = I(0)
    for m, c in _poly(p).items():
        t = I(c)
        for x in m:
            t = mul(t, b if x is a else x)
        r = add(r, t)
    return r


# ---------------------------------------------------------------- booleans

def bnot(t):
    if t.op == "bool":
        return B(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "ge0":
        return ge0(sub(neg(t.args[0]), I(1)))
    if t.op == "and":
        return bor(*[bnot(x) for x in t.args[0]])
    if t.op == "or":
        return band(*[bnot(x) for x in t.args[0]])
    if t.op == "ite":
        return ite(t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return mk("not", t)


def _nary(op, unit, zero, ts):
    out = set()
    for t in ts:
        if t is zero:
            return zero
        if t is unit:
            continue
        if t.op == op:
            out |= set(t.args[0])
        else:
            out.add(t)
    for t in list(out):
        if bnot(t) in out:
            return zero
    if op == "and":
        # absorb: a and (not a or b) -> a and b
        ch = True
        while ch:
            ch = False
            for t in list(out):
                if t.op == "or":
                    rest = [x for x in t.args[0] if bnot(x) not in out]
                    if any(x in out for x in t.args[0]):
                        out.discard(t)
                        ch = True
                        break
                    if len(rest) < len(t.args[0]):
                        out.discard(t)
                        n = bor(*rest)
                        if n is FALSE:
                            return FALSE
                        for y in (n.args[0] if n.op == "and" else [n]):
                            if y is not TRUE:
                                out.add(y)
                        ch = True
                        break
        out = _dropge(out, keep_strong=True)
    else:
        ch = True
        while ch:
            ch = False
            for t in list(out):
                if t.op == "and":
                    rest = [x for x in t.args[0] if bnot(x) not in out]
                    if any(x in out for x in t.args[0]):
                        out.discard(t)
                        ch = True
                        break
                    if len(rest) < len(t.args[0]):
                        out.discard(t)
                        n = band(*rest)
                        if n is TRUE:
                            return TRUE
                        for y in (n.args[0] if n.op == "or" else [n]):
                            if y is not FALSE:
                                out.add(y)
                        ch = True
                        break
        out = _dropge(out, keep_strong=False)
    if out is None:
        return zero
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    _absorb(op, out)
    if len(out) == 1:
        return next(iter(out))
    return mk(op, tuple(sorted(out, key=lambda x: x.id)))


def _absorb(op, out):
    """x == c or A: just A when A holds for x = c (and the dual)"""
    if len(out) > 12:
        return
    for t in sorted(out, key=lambda x: x.id):
        d = t
        if op == "and":
            d = t.args[0] if t.op == "not" else None
        if d is None or d.op != "eq0" or d.args[0].op != "poly":
            continue
        pm = _poly(d.args[0])
        xs = [(m, c) for m, c in pm.items() if m != ()]
        if len(xs) != 1 or len(xs[0][0]) != 1 or abs(xs[0][1]) != 1:
            continue
        x = xs[0][0][0]
        rest = [o for o in out if o is not t and has(o, x)]
        if not rest:
            continue
        v = I(-pm.get((), 0) * xs[0][1])
        rest = [subst(o, {x: v}) for o in rest]
        if (TRUE if op == "or" else FALSE) in rest:
            out.discard(t)
            return _absorb(op, out)


def _dropge(out, keep_strong):
    """Merge ge0 atoms that differ by a constant."""
    by = {}
    res = set()
    for t in out:
        if t.op == "ge0":
            p = _poly(t.args[0])
            c = p.pop((), 0)
            k = tuple(sorted(p.items(), key=lambda mc: tuple(a.id for a in mc[0])))
            if k in by:
                by[k] = min(by[k], c) if keep_strong else max(by[k], c)
            else:
                by[k] = c
        else:
            res.add(t)
    # p + c >= 0 and p + c != 0 is p + c - 1 >= 0; p + c >= 0 or p + c + 1 == 0 is p + c + 1 >= 0
    eqs = {}
    for t in res:
        e = t.args[0] if keep_strong and t.op == "not" else t if not keep_strong else None
        if e is not None and e.op == "eq0" and by:
            p = _poly(e.args[0])
            c = p.pop((), 0)
            for g in (1, -1):
                k = tuple(sorted(((m, g * x) for m, x in p.items()), key=lambda mc: tuple(a.id for a in mc[0])))
                if k in by:
                    eqs[t] = (k, g * c)
    ch = bool(eqs)
    while ch:
        ch = False
        for t, (k, c) in list(eqs.items()):
            if keep_strong and c >= by[k] or not keep_strong and c <= by[k] + 1:
                if keep_strong and c == by[k]:
                    by[k] -= 1
                elif not keep_strong and c == by[k] + 1:
                    by[k] += 1
                res.discard(t)
                del eqs[t]
                ch = True
    # contradictions / tautologies between p + c >= 0 and -p + d >= 0
    for k, c in by.items():
        nk = tuple(sorted(((m, -x) for m, x in k), key=lambda mc: tuple(a.id for a in mc[0])))
        if nk in by:
            d = by[nk]
            if keep_strong and c + d < 0:
                return None
            if not keep_strong and c + d >= -1:
                return None
            if keep_strong and c + d == 0:
                pass
        dd = dict(k)
        dd[()] = c
        res.add(mk("ge0", _mkpoly(dd)))
    return res


def band(*ts):
    return _nary("and", TRUE, FALSE, ts)


def bor(*ts):
    return _nary("or", FALSE, TRUE, ts)


def _gcdnorm(p):
    from math import gcd
    g = 0
    pm = _poly(p)
    for m, c in pm.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        d = {m: c // g for m, c in pm.items() if m != ()}
        d[()] = pm.get((), 0) // g  # floor: p >= 0 over the integers
        return _mkpoly(d)
    return p


def ge0(p):
    """p >= 0"""
    if p.op == "ite":
        return ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    p = _gcdnorm(p)
    pm = _poly(p)
    for m, c in pm.items():
        if len(m) == 1 and m[0].op == "ite" and all(is_int(x) for x in m[0].args[1:]):
            a = m[0]
            return ite(a.args[0], ge0(_substatom(p, a, a.args[1])), ge0(_substatom(p, a, a.args[2])))
        if len(m) == 1 and m[0].op in ("min", "max") and not any(m[0] in m2 and m2 != m for m2 in pm):
            a = m[0]
            rest = _mkpoly({x: k for x, k in pm.items() if x != m})
            alts = [ge0(add(rest, scale(x, c))) for x in a.args[0]]
            return (band if (a.op == "min") == (c > 0) else bor)(*alts)
    lo, hi = rng(p)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    if cur().fs:
        if prove_ge0(p):
            return TRUE
        if prove_ge0(sub(neg(p), I(1))):
            return FALSE
    r = _splitite(p, pm, ge0)
    if r is None and len(pm) <= 2:
        # the parity of a value that is not a size: a bit
        for m, c in pm.items():
            if len(m) == 1 and m[0].op == "imod" and m[0].args[1] is I(2) and databits(m[0].args[0]):
                if c == 1 and pm.get((), 0) == -1:
                    return bit(m[0].args[0], I(0))
                if c == -1 and pm.get((), 0) == 0 and len(pm) == 1:
                    return bnot(bit(m[0].args[0], I(0)))
            if len(m) == 1 and m[0].op == "idiv" and is_int(m[0].args[1]) and c in (1, -1) and pm.get((), 0) == (-1 if c == 1 else 0) and len(pm) == (2 if c == 1 else 1):
                # the highest bit of a value of so many bits
                k = m[0].args[1].args[0]
                if k & (k - 1) == 0 and rng(m[0])[1] == 1 and databits(m[0].args[0]) and prove_ge0(m[0].args[0]):
                    e = bit(m[0].args[0], I(k.bit_length() - 1))
                    return e if c == 1 else bnot(e)
    return r if r is not None else mk("ge0", p)


def databits(x):
    if x.op in ("imod", "idiv"):
        return databits(x.args[0])
    return any(a.op in ("f2i", "at", "band", "bor", "bxor", "shr", "word", "icast") or a.op == "imod" and databits(a.args[0])
               for m in _poly(x) for a in m)


def _splitite(p, pm, f):
    """f(p) by cases of an if-then-else atom, when one of the cases is decided"""
    for m, c in pm.items():
        if len(m) == 1 and m[0].op == "ite" and not any(m[0] in m2 and m2 != m for m2 in pm):
            a = m[0]
            with under(cur().plus(a.args[0])):
                x = f(_substatom(p, a, a.args[1]))
            with under(cur().plus(bnot(a.args[0]))):
                y = f(_substatom(p, a, a.args[2]))
            if x.op == "bool" or y.op == "bool":
                return ite(a.args[0], x, y)
    return None


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


BOOLOPS = {"bool", "not", "and", "or", "ge0", "eq0", "feqc", "fltc", "flec", "eq", "ex"}


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.op != y.op:
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.op == "ite" and b.op == "ite":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.op == "bool":
        return b if a.args[0] else bnot(b)
    if b.op == "bool":
        return a if b.args[0] else bnot(a)
    if a.op == "ctor" and b.op == "ctor":
        if a.args[0] != b.args[0]:
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.args[1], b.args[1])])
    if a.op == "str" and b.op == "str":
        return B(a.args[0] == b.args[0])
    if a.op == "tup" and b.op == "tup":
        return band(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if _intish(a) and _intish(b):
        return eq0(sub(a, b))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


_NONINT = {"flt", "bool", "str", "list", "tab", "cat", "flat", "slice", "store", "ctor", "tup", "unit",
           "lam", "fadd", "fmul", "fdiv", "fsub", "fneg", "fn1", "i2f", "mat", "clo", "unpack", "pack"} | BOOLOPS


def _intish(t):
    if t.op in _NONINT:
        return False
    if t.op == "sym":
        return t.args[1] in INTR or t.args[1] in ("nat", "int")
    if t.op == "app":
        return t.args[1] in INTR or t.args[1] in ("nat",)
    if t.op in ("at", "fld"):
        return t.args[-1] in INTR
    if t.op == "fold":
        return t.args[3] in INTR or t.args[3] in ("nat", "int")
    return t.op in ("int", "poly", "len", "rows", "cols", "icast", "f2i", "imod", "idiv", "first", "min", "max",
                    "discr", "band", "shr", "shl", "bor", "bxor", "word", "b2i", "wrap", "pow2", "bv", "tdiv", "trem",
                    "emod", "trip", "ediv", "ipow", "parse", "strlen", "ord")


def eq0(p):
    if p.op == "ite":
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    pm = _poly(p)
    for m, c in pm.items():
        if len(m) == 1 and m[0].op == "ite" and all(is_int(x) for x in m[0].args[1:]):
            a = m[0]
            return ite(a.args[0], eq0(_substatom(p, a, a.args[1])), eq0(_substatom(p, a, a.args[2])))
    from math import gcd
    g = 0
    for m, c in pm.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        if pm.get((), 0) % g:
            return FALSE
        p = _mkpoly({m: c // g for m, c in pm.items()})
        pm = _poly(p)
    if is_int(p):
        return B(p.args[0] == 0)
    lo, hi = rng(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    for m, c in pm.items():
        if len(m) == 1 and m[0].op == "imod" and abs(c) == 1 and is_int(m[0].args[1]) and m[0].args[1].args[0] > 1:
            # r = x mod k needs r congruent to x
            x, k = m[0].args
            d = sub(scale(_mkpoly({z: v for z, v in pm.items() if z != m}), -c), x)
            if is_int(d):
                if d.args[0] % k.args[0]:
                    return FALSE
                r = rng(add(x, d))
                if r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] < k.args[0]:
                    return TRUE
    if len(pm) == 2 and sorted(pm.values()) == [-1, 1]:
        (m1, _), (m2, _) = sorted(pm.items(), key=lambda mc: mc[1])
        if len(m1) == len(m2) == 1 and m1[0].op == m2[0].op == "imod" and m1[0].args[1] is m2[0].args[1] and is_int(m1[0].args[1]):
            # two residues are equal when their difference is a multiple of the modulus
            return eq0(imod(sub(m2[0].args[0], m1[0].args[0]), m1[0].args[1]))
    if lo == 0 and not is_int(p):
        # p >= 0 always: p = 0 <=> -p >= 0
        return ge0(neg(p))
    if hi == 0:
        return ge0(p)
    if cur().fs:
        a, b = prove_ge0(p), prove_ge0(neg(p))
        if a and b:
            return TRUE
        if prove_ge0(sub(p, I(1))) or prove_ge0(sub(neg(p), I(1))):
            return FALSE
    # canonical sign: leading monomial positive
    lead = [m for m in sorted(pm, key=lambda m: tuple(a.id for a in m)) if m != ()][0]
    if pm[lead] < 0:
        p = neg(p)
    r = _splitite(p, _poly(p), eq0)
    if r is not None:
        return r
    t = mk("eq0", p)
    if mk("not", t) in cur().fs:
        return FALSE
    if t in cur().fs:
        return TRUE
    return t


# ---------------------------------------------------------------- if-then-else

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ite":
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    # canonical polarity for ge0: prefer the smaller id of the two complementary atoms
    if c.op == "ge0":
        n = bnot(c)
        if n.op == "ge0" and _neglead(c.args[0]):
            return ite(n, b, a)
    if c.op == "or":
        n = bnot(c)
        if n.op == "and":
            return ite(n, b, a)
    if c in cur().fs:
        return a
    if bnot(c) in cur().fs:
        return b
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    isb = a.op in BOOLOPS or b.op in BOOLOPS
    if isb:
        if b is FALSE:
            return band(c, a)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
    if a.op == "ctor" and b.op == "ctor" and a.args[0] == b.args[0] and a.args[1]:
        return mk("ctor", a.args[0], tuple(ite(c, x, y) for x, y in zip(a.args[1], b.args[1])), a.args[2])
    if a.op == "tup" and b.op == "tup" and len(a.args[0]) == len(b.args[0]):
        return mk("tup", tuple(ite(c, x, y) for x, y in zip(a.args[0], b.args[0])))
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[2] is a:
        return ite(bor(c, bnot(b.args[0])), a, b.args[1])
    # min / max
    if c.op == "ge0" and (_intish(a) and _intish(b)):
        d = sub(a, b)
        if c.args[0] is d or (c.args[0] is sub(d, I(1))):
            return mx(a, b)
        if c.args[0] is neg(d) or (c.args[0] is sub(neg(d), I(1))):
            return mn(a, b)
    return mk("ite", c, a, b)


def _neglead(p):
    pm = _poly(p)
    lead = [m for m in sorted(pm, key=lambda m: tuple(a.id for a in m)) if m != ()]
    return bool(lead) and pm[lead[0]] < 0


_assume_memo = {}


def assume(t, c, val):
    """Simplify t knowing that c has truth value val (syntactic occurrences only)."""
    if c.op == "and" and val:
        for x in c.args[0]:
            t = assume(t, x, True)
        return t
    if c.op == "or" and not val:
        for x in c.args[0]:
            t = assume(t, x, False)
        return t
    if c.op == "not":
        return assume(t, c.args[0], not val)
    nc = bnot(c)
    key = (t, c, val, cur())
    m = _assume_memo.get(key)
    if m is not None:
        return m
    r = rewrite(t, lambda x: (B(val) if x is c else (B(not val) if x is nc else None)), binders=False,
                need=c)
    _assume_memo[key] = r
    return r


def mn(*ts):
    return _mm("min", ts)


def mx(*ts):
    return _mm("max", ts)


def _mm(op, ts):
    out = set()
    for t in ts:
        if t.op == op:
            out |= set(t.args[0])
        else:
            out.add(t)
    out = list(sorted(out, key=lambda x: x.id))
    i = 0
    while i < len(out):
        drop = False
        for j in range(len(out)):
            if i != j:
                # min: drop x if x >= y
                d = sub(out[i], out[j]) if op == "min" else sub(out[j], out[i])
                if d.op == "int" or True:
                    if prove_ge0(d, depth=3):
                        drop = True
                        break
        if drop:
            out.pop(i)
        else:
            i += 1
    if len(out) == 1:
        return out[0]
    return mk(op, tuple(out))


def monus(a, b):
    """max(0, a - b)"""
    return mx(I(0), sub(a, b))


# ---------------------------------------------------------------- integer division & bits

def idiv(a, b):
    """floor division of non-negative integers"""
    if is_int(b) and b.args[0] == 1:
        return a
    if is_int(a) and is_int(b) and b.args[0]:
        return I(a.args[0] // b.args[0])
    if a.op == "ite":
        return ite(a.args[0], idiv(a.args[1], b), idiv(a.args[2], b))
    # split off exact multiples of b
    q, r = _divsplit(a, b)
    if q is not None and r is not a:
        if is_int(r) and r.args[0] == 0:
            return q
        if prove_ge0(r) and prove_ge0(sub(sub(b, r), I(1))):
            return q
        if prove_ge0(r):
            return add(q, idiv(r, b))
    if prove_ge0(a) and prove_ge0(sub(sub(b, a), I(1))):
        return I(0)
    if a.op == "idiv" and is_int(b) and is_int(a.args[1]):
        return idiv(a.args[0], I(b.args[0] * a.args[1].args[0]))
    if a.op == "idiv":
        return mk("idiv", a.args[0], mul(a.args[1], b))
    return mk("idiv", a, b)


def imod(a, b):
    if is_int(a) and is_int(b) and b.args[0]:
        return I(a.args[0] % b.args[0])
    if is_int(b) and b.args[0] == 1:
        return I(0)
    if a.op == "ite":
        return ite(a.args[0], imod(a.args[1], b), imod(a.args[2], b))
    if is_int(b) and b.args[0] > 1:
        # the mathematical residue: residues inside, by multiples of the modulus, make no difference
        d = [x for m, _ in _poly(a).items() if len(m) == 1 for x in m if x.op == "imod" and is_int(x.args[1]) and x.args[1].args[0] % b.args[0] == 0]
        if d and a.op != "imod":
            for x in d:
                c = _poly(a)[(x,)]
                a = add(sub(a, scale(x, c)), scale(x.args[0], c))
            return imod(a, b)
    q, r = _divsplit(a, b)
    if q is not None and r is not a:
        if is_int(r) and r.args[0] == 0:
            return I(0)
        if is_int(b) or prove_ge0(r):
            if prove_ge0(r) and prove_ge0(sub(sub(b, r), I(1))):
                return r
            return imod(r, b)
    if prove_ge0(a) and prove_ge0(sub(sub(b, a), I(1))):
        return a
    if a.op == "imod" and is_int(b) and is_int(a.args[1]) and a.args[1].args[0] % b.args[0] == 0:
        return imod(a.args[0], b)
    return mk("imod", a, b)


def _divsplit(a, b):
    """a = q*b + r with r holding the monomials that are not multiples of b."""
    pm = _poly(a)
    if is_int(b):
        k = b.args[0]
        if k <= 0:
            return None, None
        q, r = {}, {}
        for m, c in pm.items():
            d, e = divmod(c, k)
            if m == ():
                d, e = divmod(c, k)
            if d:
                q[m] = d
            if e:
                r[m] = e
        if not q:
            return None, None
        return _mkpoly(q), _mkpoly(r)
    bm = _poly(b)
    if len(bm) != 1:
        return None, None
    (mb, cb), = bm.items()
    if cb != 1:
        return None, None
    q, r = {}, {}
    for m, c in pm.items():
        mm = list(m)
        ok = True
        for x in mb:
            if x in mm:
                mm.remove(x)
            else:
                ok = False
                break
        if ok:
            q[tuple(mm)] = c
        else:
            r[m] = c
    if not q:
        return None, None
    return _mkpoly(q), _mkpoly(r)


def ceildiv(a, b):
    return idiv(add(a, b, I(-1)), b)


def pow2(n):
    if is_int(n) and 0 <= n.args[0] <= 4096:
        return I(2 ** n.args[0])
    return mk("pow2", n)


def icast(ty, x):
    if x.op == "ite":
        return ite(x.args[0], icast(ty, x.args[1]), icast(ty, x.args[2]))
    if is_int(x):
        lo, hi = INTR[ty]
        n = x.args[0]
        w = hi - lo + 1
        return I((n - lo) % w + lo)
    lo, hi = INTR[ty]
    l, h = rng(x)
    if l is not None and h is not None and l >= lo and h <= hi:
        return x
    if prove_ge0(sub(x, I(lo))) and prove_ge0(sub(I(hi), x)):
        return x
    if x.op == "pow2" and prove_ge0(sub(I(hi.bit_length() - 1), x.args[0])):
        return x
    if x.op == "icast":
        ilo, ihi = INTR[x.args[0]]
        if ihi - ilo >= hi - lo:
            return icast(ty, x.args[1])
    if x.op == "word" and lo == 0:
        l2 = length(x.args[0])
        k = hi.bit_length()
        if is_int(l2) and l2.args[0] <= k:
            return x
    if x.op in ("shr",) and lo == 0 and False:
        pass
    return mk("icast", ty, x)


def bits_and(a, b):
    if is_int(a) and not is_int(b):
        a, b = b, a
    if is_int(a) and is_int(b):
        return I(a.args[0] & b.args[0])
    if is_int(b):
        n = b.args[0]
        if n == 0:
            return I(0)
        if n > 0 and (n & (n + 1)) == 0:
            return imod(a, I(n + 1))
        if n > 0 and n & (n - 1) == 0:
            return ite(bit(a, I(n.bit_length() - 1)), I(n), I(0))
        if n > 0:
            low = (n & -n).bit_length() - 1
            if (n >> low) & ((n >> low) + 1) == 0:
                return sub(imod(a, I(1 << n.bit_length())), imod(a, I(1 << low)))
    for x, y in ((a, b), (b, a)):
        if x.op == "pow2" and prove_ge0(x.args[0]):
            return ite(bit(y, x.args[0]), x, I(0))
    if a.id > b.id and not is_int(b):
        a, b = b, a
    return mk("band", a, b)


def bits_or(a, b):
    if is_int(a) and is_int(b):
        return I(a.args[0] | b.args[0])
    for x, y in ((a, b), (b, a)):
        if is_int(x) and x.args[0] == 0:
            return y
    # x*2^k | y with 0 <= y < 2^k  ->  x*2^k + y
    for x, y in ((a, b), (b, a)):
        ly, hy = rng(y)
        lx, hx = rng(x)
        if ly is not None and ly >= 0 and hy is not None and lx is not None and lx >= 0:
            k = 2 ** hy.bit_length()
            if all(c % k == 0 for m, c in _poly(x).items()):
                return add(x, y)
    if a.id > b.id:
        a, b = b, a
    return mk("bor", a, b)


def bits_xor(a, b):
    if is_int(a) and is_int(b):
        return I(a.args[0] ^ b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", a, b)


def shr(a, n):
    l, h = rng(a)
    if l is not None and l >= 0:
        return idiv(a, pow2(n))
    return mk("shr", a, n)


def shl(ty, a, n):
    return icast(ty, mul(a, pow2(n)))


# ---------------------------------------------------------------- floats

def fop(op, a, b):
    for k, x in enumerate((a, b)):
        if x.op == "ite":
            if k == 0:
                return ite(x.args[0], fop(op, x.args[1], b), fop(op, x.args[2], b))
            return ite(x.args[0], fop(op, a, x.args[1]), fop(op, a, x.args[2]))
    if a.op == "flt" and b.op == "flt":
        x, y = a.args[0], b.args[0]
        try:
            return F({"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]())
        except ZeroDivisionError:
            return mk(op, a, b)
    # x - c == x + (-c), exactly
    if op == "fsub" and b.op == "flt":
        return fop("fadd", a, F(-b.args[0]))
    if op == "fsub" and b.op == "fneg":
        return fop("fadd", a, b.args[0])
    if op == "fadd" and b.op == "fneg":
        return fop("fsub", a, b.args[0])
    if op == "fadd" and a.op == "fneg":
        return fop("fsub", b, a.args[0])
    if op == "fmul":
        for x, y in ((a, b), (b, a)):
            if x.op == "flt" and x.args[0] == 1.0:
                return y
            if x.op == "flt" and x.args[0] == -1.0:
                return fneg(y)
    if op == "fdiv" and b.op == "flt" and b.args[0] == 1.0:
        return a
    if op == "fdiv" and b.op == "flt":
        import math
        m, e = math.frexp(b.args[0])
        if m == 0.5 and abs(e) < 60:
            return fop("fmul", a, F(1.0 / b.args[0]))
    if op in ("fadd", "fmul") and a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


def fneg(a):
    if a.op == "flt":
        return F(-a.args[0])
    if a.op == "fneg":
        return a.args[0]
    return mk("fneg", a)


def i2f(x):
    if is_int(x) and abs(x.args[0]) < 2 ** 53:
        return F(x.args[0])
    if x.op == "ite":
        return ite(x.args[0], i2f(x.args[1]), i2f(x.args[2]))
    return mk("i2f", x)


def _round32(x):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def f32(x):
    """x rounded to single precision"""
    if x.op == "flt":
        return F(_round32(x.args[0]))
    if x.op == "ite":
        return ite(x.args[0], f32(x.args[1]), f32(x.args[2]))
    if is32(x):
        return x
    return app("f32", "f32", x)


def is32(x):
    if x.op == "app":
        return x.args[1] == "f32"
    if x.op == "sym":
        return x.args[1] == "f32"
    if x.op == "fneg":
        return is32(x.args[0])
    if x.op == "fn":
        return x.args[0] in ("floor", "ceil", "round", "trunc", "abs") and is32(x.args[1][0])
    if x.op == "i2f":
        l, h = rng(x.args[0])
        return l is not None and h is not None and -(1 << 24) <= l and h <= 1 << 24
    if x.op == "flt":
        return _round32(x.args[0]) == x.args[0]
    return False


def _asint(f):
    """integer term equal to the float term f, or None (exact below 2^53)"""
    if f.op == "i2f":
        return f.args[0]
    if f.op == "flt" and f.args[0] == int(f.args[0] if abs(f.args[0]) < 1e18 else 0.5):
        return I(int(f.args[0]))
    return None


def ffun(name, *xs):
    x = xs[0]
    if x.op == "ite" and len(xs) == 1:
        return ite(x.args[0], ffun(name, x.args[1]), ffun(name, x.args[2]))
    if all(y.op == "flt" for y in xs):
        import math
        v = [y.args[0] for y in xs]
        try:
            if name == "floor":
                return F(math.floor(v[0]))
            if name == "ceil":
                return F(math.ceil(v[0]))
            if name == "abs":
                return F(abs(v[0]))
            if name == "sqrt":
                return F(math.sqrt(v[0]))
            if name in ("exp", "cos", "cosh") and v[0] == 0:
                return F(1.0)
            if name in ("sin", "tan", "sinh", "tanh") and v[0] == 0:
                return F(0.0)
        except (OverflowError, ValueError):
            pass
    if name == "fract" and _asint(x) is not None:
        return F(0.0)
    if name in ("floor", "ceil", "round", "trunc"):
        n = _asint(x)
        if n is not None:
            return x
        if name in ("floor", "ceil", "trunc"):
            a = b = None
            if x.op == "fdiv":
                a, b = _asint(x.args[0]), _asint(x.args[1])
            elif x.op == "fmul":
                for u, v in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    if u.op == "flt" and 0 < u.args[0] < 1 and (1 / u.args[0]).is_integer():
                        import math
                        if math.frexp(u.args[0])[0] == 0.5:
                            a, b = _asint(v), I(int(1 / u.args[0]))
                            break
            if a is not None and b is not None and rng(a)[0] is not None and rng(a)[0] >= 0 and rng(b)[0] is not None and rng(b)[0] >= 0:
                return i2f(idiv(a, b) if name != "ceil" else ceildiv(a, b))
    return mk("fn", name, xs)


def f2i(ty, x):
    n = _asint(x)
    if n is not None:
        l, h = rng(n)
        lo, hi = INTR[ty]
        if l is not None and h is not None and l >= lo and h <= hi:
            return n
        if l is not None and l >= 0 and lo == 0 and hi >= 2 ** 63:
            return n
    if x.op == "ite":
        return ite(x.args[0], f2i(ty, x.args[1]), f2i(ty, x.args[2]))
    if x.op == "fn" and x.args[0] == "trunc":
        return f2i(ty, x.args[1][0])
    # truncating quotient of non-negative integers
    if x.op in ("fdiv", "fmul"):
        y = ffun("trunc", x)
        if y.op == "i2f":
            return f2i(ty, y)
    return mk("f2i", ty, x)


def fcmp(op, a, b):
    """op in fltc, flec, feqc"""
    for k, x in enumerate((a, b)):
        if x.op == "ite":
            if k == 0:
                return ite(x.args[0], fcmp(op, x.args[1], b), fcmp(op, x.args[2], b))
            return ite(x.args[0], fcmp(op, a, x.args[1]), fcmp(op, a, x.args[2]))
    if a.op == "flt" and b.op == "flt":
        x, y = a.args[0], b.args[0]
        return B({"fltc": x < y, "flec": x <= y, "feqc": x == y}[op])
    m, n = _asint(a), _asint(b)
    if m is not None and n is not None:
        return {"fltc": lt, "flec": le, "feqc": eq}[op](m, n)
    if op == "feqc" and a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


# ---------------------------------------------------------------- lambdas (de Bruijn)

def lam(var, body):
    return mk("lam", abstract(body, var))


def abstract(t, var, depth=0, memo=None):
    memo = {} if memo is None else memo
    return _abs(t, var, 0, memo)


def _has(t, var, memo):
    r = memo.get(t)
    if r is None:
        r = t is var or any(_has(x, var, memo) for x in subterms(t))
        memo[t] = r
    return r


_hasm = {}


def has(t, var):
    m = _hasm.setdefault(var, {})
    return _has(t, var, m)


def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    return x


def _abs(t, var, d, memo):
    if t is var:
        return mk("bv", d)
    if not has(t, var) and t.fv <= d:
        return t
    k = (t, d)
    r = memo.get(k)
    if r is not None:
        return r
    if t.op == "bv":
        r = mk("bv", t.args[0] + 1) if t.args[0] >= d else t
    elif t.op == "lam":
        r = mk("lam", _abs(t.args[0], var, d + 1, memo))
    else:
        # raw rebuild: the binder body is already in normal form
        r = mk(t.op, *[_map(a, lambda x: _abs(x, var, d, memo)) for a in t.args])
        r = resort(r)
    memo[k] = r
    return r


def resort(t):
    """Re-establish the canonical order of commutative nodes after renaming."""
    if t.op == "poly":
        d = {}
        for m, c in t.args[0]:
            m = tuple(sorted(m, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c
        return _mkpoly(d)
    if t.op in ("and", "or", "min", "max"):
        return mk(t.op, tuple(sorted(t.args[0], key=lambda x: x.id)))
    if t.op in ("fadd", "fmul", "feqc", "eq", "bor", "bxor", "band"):
        a, b = t.args
        if a.id > b.id:
            a, b = b, a
        return mk(t.op, a, b)
    return t


def inst(l, arg):
    """Apply a lambda term."""
    assert l.op == "lam", l
    return _inst(l.args[0], 0, arg, {})


def _closed():
    """the current facts without those about variables of unopened binders, which mean others one binder further in"""
    f = _cur[-1]
    if f.loose is None:
        f.loose = any(x.fv for x in f.fs)
    return Facts(x for x in f.fs if not x.fv) if f.loose else f


def _shift(t, n, d=0, memo=None):
    if n == 0 or t.fv <= d:
        return t
    memo = {} if memo is None else memo
    k = (t, d)
    r = memo.get(k)
    if r is not None:
        return r
    if t.op == "bv":
        r = mk("bv", t.args[0] + n)
    elif t.op == "lam":
        r = mk("lam", _shift(t.args[0], n, d + 1, memo))
    else:
        r = resort(mk(t.op, *[_map(a, lambda x: _shift(x, n, d, memo)) for a in t.args]))
    memo[k] = r
    return r


def _inst(t, d, arg, memo):
    if t.fv <= d:
        return t
    # what a term simplifies to depends on the facts in force where it stands
    k = (t, d, _cur[-1])
    r = memo.get(k)
    if r is not None:
        return r
    if t.op == "bv":
        if t.args[0] == d:
            r = _shift(arg, d)
        elif t.args[0] > d:
            r = mk("bv", t.args[0] - 1)
        else:
            r = t
    elif t.op == "lam":
        with under(_closed()):
            r = mk("lam", _inst(t.args[0], d + 1, arg, memo))
    else:
        r = rebuild(t, lambda x: _inst(x, d, arg, memo))
    memo[k] = r
    return r


def open_lam(l, prefix="i", sort="nat"):
    v = fresh(prefix, sort)
    return v, inst(l, v)


# ---------------------------------------------------------------- rebuilding through constructors

def rebuild(t, f):
    """t with f applied to its direct subterms, through the normalising constructors."""
    op, a = t.op, t.args
    c = REBUILD.get(op)
    if c is not None:
        return c(a, f)
    return mk(op, *[_map(x, f) for x in a])


def rewrite(t, fn, binders=True, need=None):
    """Bottom-up-free top-down replacement: fn(t) gives a replacement or None."""
    memos = {}

    def go(x):
        # what a term simplifies to depends on the facts in force where it stands
        memo = memos.get(_cur[-1])
        if memo is None:
            memo = memos[_cur[-1]] = {}
        r = memo.get(x)
        if r is not None:
            return r
        y = fn(x)
        if y is None:
            if not x.args or (need is not None and not _needs(x, need)):
                y = x
            elif x.op == "lam":
                if x.fv == 0 and not binders and need is None:
                    y = x
                else:
                    v, b = open_lam(x, "w")
                    b2 = go(b)
                    y = x if b2 is b else lam(v, b2)
            else:
                y = rebuild(x, go)
        memo[x] = y
        return y

    return go(t)


def absurd(fs, depth=6):
    """no values satisfy the current facts and all of fs"""
    todo, ors, facts = list(fs), [], cur()
    while todo:
        with under(facts):
            t = renorm(todo.pop())
        if t is FALSE:
            return True
        if t.op == "and":
            todo += list(t.args[0])
        elif t.op == "or":
            ors.append(t)
        elif t.op == "ite":
            ors.append(bor(band(t.args[0], t.args[1]), band(bnot(t.args[0]), t.args[2])))
        elif t is not TRUE:
            facts = facts.plus(t)
            todo += ors
            ors = []
    if not ors or depth <= 0:
        return False
    ors.sort(key=lambda t: len(t.args[0]))
    with under(facts):
        return all(absurd([x] + ors[1:], depth - 1) for x in ors[0].args[0])


_renorming = [0]


def renorm(t):
    """t rebuilt under the current facts (again while that changes it: a sequence may have been shortened around its elements)"""
    _renorming[0] += 1
    try:
        for _ in range(4):
            r = rewrite(t, lambda x: None)
            if r is t:
                break
            t = r
        return r
    finally:
        _renorming[0] -= 1


def _rb_tab(a, f):
    n = f(a[0])
    if not _renorming[0]:
        return tab(n, f(a[1]))
    v, b = open_lam(a[1], "w")
    with under(cur().plus(lt(v, n))):
        b2 = f(b)
        sp = _split_at(b2, v, n)
    l = a[1] if b2 is b else lam(v, b2)
    if sp is not None:
        return cat(tab(sp, l), tab(sub(n, sp), lam(v, inst(l, add(v, sp)))))
    return tab(n, l)


def _rb_mat(a, f):
    R, C = f(a[0]), f(a[1])
    l = a[2]
    if not _renorming[0] or l.op != "lam":
        return mat(R, C, f(l))
    v, b = open_lam(l, "w")
    if b.op != "lam":
        return mat(R, C, f(l))
    w, b = open_lam(b, "w")
    with under(cur().plus(lt(v, R), lt(w, C))):
        b2 = f(b)
    return mat(R, C, l if b2 is b else lam(v, lam(w, b2)))


def _split_at(b, v, n):
    """the round at which the pieces [k*i, k*i+k) taken in round i move on from one part of a sequence to the next"""
    seen = set()
    todo = [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "slice" and x.args[0].op == "cat" and not has(x.args[0], v):
            k = sub(x.args[2], x.args[1])
            if is_int(k) and k.args[0] > 0 and x.args[1] is scale(v, k.args[0]):
                off = I(0)
                for p in x.args[0].args[0][:-1]:
                    off = add(off, length(p))
                    m = _exactdiv(off, k)
                    if m is not None and prove_ge0(m) and prove_ge0(sub(n, m)):
                        return m
        if x.op != "lam":
            todo += list(subterms(x))
    return None


def _needs(x, c):
    """cheap filter: can x contain c or its complement?"""
    return has(x, c) or has(x, bnot(c))


def subst(t, mapping):
    if not mapping:
        return t
    keys = list(mapping)
    memos = {}

    def go(x):
        memo = memos.get(_cur[-1])
        if memo is None:
            memo = memos[_cur[-1]] = {}
        r = memo.get(x)
        if r is not None:
            return r
        y = mapping.get(x)
        if y is None:
            if not x.args or not any(has(x, k) for k in keys):
                y = x
            elif x.op == "lam":
                v, b = open_lam(x, "w")
                y = lam(v, go(b))
            else:
                y = rebuild(x, go)
        memo[x] = y
        return y

    # what is known about the replaced terms says nothing about what takes their place
    keep = [f for f in cur().fs if not any(has(f, k) for k in keys)]
    if len(keep) == len(cur().fs):
        return go(t)
    with under(Facts(keep)):
        return go(t)


# ---------------------------------------------------------------- sequences

def lst(*xs):
    return mk("list", tuple(xs))


EMPTY = lst()


def tab(n, l):
    """sequence of length n with element l(i)"""
    if is_int(n) and n.args[0] <= 0:
        return EMPTY
    if n.op == "ite":
        return ite(n.args[0], tab(n.args[1], l), tab(n.args[2], l))
    if is_int(n) and n.args[0] <= 8 and not _isproj(l):
        return lst(*[inst(l, I(i)) for i in range(n.args[0])])
    b = l.args[0]
    # eta: tab(len s, i -> s[i]) = s ; tab(m, i -> s[a+i]) = slice(s, a, a+m)
    if b.op == "at" and b.args[1].op == "bv" and b.args[1].args[0] == 0 and not _usesbv0(b.args[0]):
        s = _inst(b.args[0], 0, UNIT, {})
        return slc(s, I(0), n)
    if b.op == "at" and b.args[1].op == "poly" and not _usesbv0(b.args[0]):
        pm = _poly(b.args[1])
        v0 = mk("bv", 0)
        if pm.get((v0,), 0) == 1 and not any(v0 in m and m != (v0,) for m in pm) and not any(
                _usesbv0(a) for m in pm for a in m if a is not v0):
            off = _mkpoly({m: c for m, c in pm.items() if m != (v0,)})
            s = _inst(b.args[0], 0, UNIT, {})
            off = _inst(off, 0, UNIT, {})
            return slc(s, off, add(off, n))
    # bits of whole bytes
    return mk("tab", n, l)


def _isproj(l):
    b = l.args[0]
    return b.op == "at" and b.args[0].op in ("sym", "app") and False


def _usesbv0(t, d=0):
    if t.fv <= d:
        return False
    if t.op == "bv":
        return t.args[0] == d
    if t.op == "lam":
        return _usesbv0(t.args[0], d + 1)
    return any(_usesbv0(x, d) for x in subterms(t))


SEQLEN = {}


def length(s):
    op = s.op
    if op == "list":
        return I(len(s.args[0]))
    if op == "tab":
        return s.args[0]
    if op == "cat":
        return add(*[length(x) for x in s.args[0]])
    if op == "slice":
        return sub(s.args[2], s.args[1])
    if op == "store":
        return length(s.args[0])
    if op == "ite":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if op == "flat":
        k = elem_len(s.args[0])
        if k is not None:
            return mul(length(s.args[0]), k)
        return mk("len", s)
    if op == "unpack":
        return mul(length(s.args[0]), I(8))
    if op == "pack":
        return ceildiv(length(s.args[0]), I(8))
    if op == "unpackw":
        return mul(length(s.args[0]), I(s.args[1]))
    if op == "packw":
        return ceildiv(length(s.args[0]), I(s.args[1]))
    if op == "rev":
        return length(s.args[0])
    if op == "str":
        return I(len(s.args[0].encode()))
    if op == "fill0":
        return s.args[0]
    if op == "matseq":
        return mul(rows(s.args[0]), cols(s.args[0]))
    if op == "fold":
        b = s.args[2]
        if b.op == "lam" and b.args[0].op == "lam" and _same_length(b.args[0].args[0]):
            return length(s.args[1])
        return mk("len", s)
    if op == "app":
        h = SEQLEN.get(s.args[0])
        if h is not None:
            r = h(s)
            if r is not None:
                return r
    if op == "sym" and s in SYMLEN:
        return SYMLEN[s]
    return mk("len", s)


def _same_length(t):
    """is t (the body of a fold) as long as what it is folded into?"""
    if t.op == "bv":
        return t.args[0] == 0
    if t.op == "store":
        return _same_length(t.args[0])
    return t.op == "ite" and _same_length(t.args[1]) and _same_length(t.args[2])


SYMLEN = {}


def elem_len(s):
    """common length of the elements of a sequence of sequences, if it does not depend on the index"""
    if s.op == "tab":
        v, b = open_lam(s.args[1], "e")
        l = length(b)
        return None if has(l, v) else l
    if s.op == "list":
        ls = {length(x) for x in s.args[0]}
        return ls.pop() if len(ls) == 1 else None
    if s.op == "cat":
        ls = {elem_len(x) for x in s.args[0]}
        return ls.pop() if len(ls) == 1 else None
    return None


def at(s, i, ty=None):
    op = s.op
    if i.op == "ite":
        return ite(i.args[0], at(s, i.args[1], ty), at(s, i.args[2], ty))
    if op == "list":
        xs = s.args[0]
        if is_int(i):
            if 0 <= i.args[0] < len(xs):
                return xs[i.args[0]]
            return mk("undef")
        if xs and all(x is xs[0] for x in xs):
            return xs[0]
        if len(xs) > 2 and all(map(is_int, xs)):
            d = xs[1].args[0] - xs[0].args[0]
            if all(y.args[0] - x.args[0] == d for x, y in zip(xs, xs[1:])) and prove_ge0(i) and prove_ge0(sub(I(len(xs) - 1), i)):
                return add(xs[0], scale(i, d))
        r = xs[-1] if xs else mk("undef")
        for k in range(len(xs) - 2, -1, -1):
            r = ite(eq0(sub(i, I(k))), xs[k], r)
        return r
    if op == "tab":
        return inst(s.args[1], i)
    if op == "slice":
        return at(s.args[0], add(s.args[1], i), ty)
    if op == "ite":
        return ite(s.args[0], at(s.args[1], i, ty), at(s.args[2], i, ty))
    if op == "cat":
        off = I(0)
        parts = list(s.args[0])
        for k, p in enumerate(parts):
            l = length(p)
            end = add(off, l)
            if k == len(parts) - 1:
                return at(p, sub(i, off), ty)
            inn = lt(i, end)
            if inn is TRUE:
                return at(p, sub(i, off), ty)
            if inn is FALSE:
                off = end
                continue
            rest = slc(s, end, length(s))
            return ite(inn, at(p, sub(i, off), ty), at(cat(*parts[k + 1:]), sub(i, end), ty))
    if op == "store":
        j = s.args[1]
        c = eq(i, j)
        if c is TRUE:
            return s.args[2]
        if c is FALSE:
            return at(s.args[0], i, ty)
        return ite(c, s.args[2], at(s.args[0], i, ty))
    if op == "flat":
        k = elem_len(s.args[0])
        if k is not None and is_int(k) and k.args[0] > 0:
            return at(at(s.args[0], idiv(i, k)), imod(i, k), ty)
        if k is not None and is_pos(k):
            return at(at(s.args[0], idiv(i, k)), imod(i, k), ty)
    if op == "unpack":
        return bit(at(s.args[0], idiv(i, I(8)), "u8"), imod(i, I(8)), s.args[1])
    if op == "pack":
        b = s.args[0]
        return word(slc(b, mul(I(8), i), mn(add(mul(I(8), i), I(8)), length(b))), s.args[1])
    if op == "rev":
        return at(s.args[0], sub(sub(length(s.args[0]), I(1)), i), ty)
    if op == "unpackw":
        w = I(s.args[1])
        return bit(at(s.args[0], idiv(i, w), "u64"), imod(i, w), s.args[2], s.args[1])
    if op == "packw":
        b, w, o = s.args
        return word(slc(b, mul(I(w), i), mn(add(mul(I(w), i), I(w)), length(b))), o, w)
    if op == "str":
        bs = s.args[0].encode()
        if is_int(i) and 0 <= i.args[0] < len(bs):
            return I(bs[i.args[0]])
    if op == "matseq":
        m = s.args[0]
        c = cols(m)
        return at2(m, idiv(i, c), imod(i, c))
    if op == "undef":
        return s
    return mk("at", s, i, ty or elemsort(s))


def elemsort(s):
    if s.op == "sym" and s.args[1].startswith("seq:"):
        return s.args[1][4:]
    if s.op == "app" and isinstance(s.args[1], str) and s.args[1].startswith("seq:"):
        return s.args[1][4:]
    if s.op == "at" and isinstance(s.args[2], str) and s.args[2].startswith("seq:"):
        return s.args[2][4:]
    if s.op == "fld" and isinstance(s.args[-1], str) and s.args[-1].startswith("seq:"):
        return s.args[-1][4:]
    if s.op == "fold":
        return elemsort(s.args[1])
    return None


def bit(x, j, order="Lsb0", w=8):
    if order == "Msb0":
        return bit(x, sub(I(w - 1), j))
    if is_int(x) and is_int(j):
        return B((x.args[0] >> j.args[0]) & 1)
    if x.op == "ite":
        return ite(x.args[0], bit(x.args[1], j), bit(x.args[2], j))
    if x.op == "word":
        l = length(x.args[0])
        b = x.args[0]
        if x.args[1] == "Lsb0":
            inn = lt(j, l)
            if inn is TRUE:
                return at(b, j)
            if inn is FALSE:
                return FALSE
            return band(inn, at(b, j))
    if x.op == "idiv" and is_int(j) and is_int(x.args[1]) and j.args[0] >= 0 and prove_ge0(x.args[0]):
        k = x.args[1].args[0]
        if k > 1 and k & (k - 1) == 0:
            return bit(x.args[0], I(j.args[0] + k.bit_length() - 1))
    if x.op == "imod" and is_int(j) and is_int(x.args[1]) and j.args[0] >= 0:
        k = x.args[1].args[0]
        if k & (k - 1) == 0 and (1 << j.args[0]) < k:
            return bit(x.args[0], j)
    return mk("bit", x, j)


BOOLOPS.add("bit")


def word(bits, order="Lsb0", w=8):
    if order == "Msb0" and is_int(length(bits)):
        # element 0 is the most significant bit of the word
        n = length(bits).args[0]
        return mul(word(rev(bits)), I(2 ** (w - n)))
    if bits is EMPTY:
        return I(0)
    if bits.op == "list" and bits.args[0][0].op == "bit" and is_int(bits.args[0][0].args[1]) and order == "Lsb0":
        # consecutive bits of a number
        x, a, k = bits.args[0][0].args[0], bits.args[0][0].args[1].args[0], len(bits.args[0])
        if all(b.op == "bit" and b.args[0] is x and b.args[1] is I(a + j) for j, b in enumerate(bits.args[0])):
            return imod(x if a == 0 else idiv(x, I(1 << a)), I(1 << k))
    if bits.op == "list" and all(b.op == "bool" for b in bits.args[0]) and order == "Lsb0":
        return I(sum(1 << k for k, b in enumerate(bits.args[0]) if b.args[0]))
    # word(bits of x) = x for a whole byte
    if bits.op == "slice" and bits.args[0].op == "unpack" and bits.args[0].args[1] == order:
        a, b = bits.args[1], bits.args[2]
        if sub(b, a) is I(8) and imod(a, I(8)) is I(0):
            return at(bits.args[0].args[0], idiv(a, I(8)), "u8")
    if bits.op == "unpack" and bits.args[1] == order and length(bits.args[0]) is I(1):
        return at(bits.args[0], I(0), "u8")
    if bits.op == "tab" and is_int(bits.args[0]) and bits.args[0].args[0] == 8:
        b = bits.args[1].args[0]
        if b.op == "bit" and b.args[1].op == "bv" and b.args[1].args[0] == 0 and not _usesbv0(b.args[0]) and order == "Lsb0":
            x = _inst(b.args[0], 0, UNIT, {})
            lo, hi = rng(x)
            if lo is not None and lo >= 0 and hi is not None and hi <= 255:
                return x
    if bits.op == "list" and order == "Lsb0" and 0 < len(bits.args[0]) <= 64:
        b0 = bits.args[0][0]
        if b0.op == "bit" and all(b.op == "bit" and b.args[0] is b0.args[0] and b.args[1] is I(k) for k, b in
                                  enumerate(bits.args[0])):
            lo, hi = rng(b0.args[0])
            if lo is not None and lo >= 0 and hi is not None and hi < 2 ** len(bits.args[0]):
                return b0.args[0]
    return mk("word", bits, order)


def unpack(bs, order="Lsb0"):
    if bs is EMPTY:
        return EMPTY
    if bs.op == "pack" and bs.args[1] == order and imod(length(bs.args[0]), I(8)) is I(0):
        return bs.args[0]
    return mk("unpack", bs, order)


def pack(bits, order="Lsb0"):
    if bits.op == "unpack" and bits.args[1] == order:
        return bits.args[0]
    if bits is EMPTY:
        return EMPTY
    if bits.op == "cat" and all(_exactdiv(length(x), I(8)) is not None for x in bits.args[0]):
        return cat(*[pack(x, order) for x in bits.args[0]])
    if bits.op == "cat" and order == "Lsb0":
        z = bits.args[0][-1]
        if z.op == "tab" and z.args[1].args[0] is FALSE:
            # what fills the last byte up
            x = cat(*bits.args[0][:-1])
            if add(length(x), z.args[0]) is mul(I(8), ceildiv(length(x), I(8))):
                return pack(x, order)
    if bits.op == "ite":
        return ite(bits.args[0], pack(bits.args[1], order), pack(bits.args[2], order))
    if bits.op == "tab" and bits.args[1].args[0] in (FALSE, TRUE):
        n = _exactdiv(bits.args[0], I(8))
        if n is not None:
            return tab(n, mk("lam", I(0 if bits.args[1].args[0] is FALSE else 255)))
    return mk("pack", bits, order)


def tobytes(n, endian, x):
    """the n bytes of an integer"""
    lo = rng(x)[0]
    if lo is None or lo < 0:
        x = icast("u%d" % (8 * n), x)
    ks = range(n) if endian == "le" else range(n - 1, -1, -1)
    return lst(*[imod(idiv(x, I(256 ** k)), I(256)) for k in ks])


def frombytes(ty, n, endian, s):
    ks = range(n) if endian == "le" else range(n - 1, -1, -1)
    x = add(*[scale(at(s, I(p), "u8"), 256 ** k) for p, k in enumerate(ks)])
    return x if ty[0] == "u" else icast(ty, x)


def packw(bits, w, order="Lsb0"):
    """the bits in words of w bits"""
    if bits is EMPTY:
        return EMPTY
    if w == 8:
        return pack(bits, order)
    if bits.op == "unpackw" and bits.args[1:] == (w, order):
        return bits.args[0]
    return mk("packw", bits, w, order)


def unpackw(bs, w, order="Lsb0"):
    if w == 8:
        return unpack(bs, order)
    if bs is EMPTY:
        return EMPTY
    return mk("unpackw", bs, w, order)


def matsamples(m):
    """row-major samples of a one-channel image"""
    if m.op == "grey":
        return m.args[2]
    k = fresh("k", "nat")
    w = cols(m)
    return tab(mul(rows(m), w), lam(k, at(fld(at2(m, idiv(k, w), imod(k, w)), None, 0, "seq:u8"), I(0), "u8")))


LUMA = "image::color::Luma"


def grey(h, w, s):
    """one-channel image over row-major samples"""
    return mk("grey", h, w, s)


def cat(*ss):
    out = []
    for s in ss:
        if s.op == "cat":
            out.extend(s.args[0])
        elif s is EMPTY or (s.op == "list" and not s.args[0]):
            continue
        else:
            out.append(s)
    # merge literals, adjacent slices
    r = []
    for s in out:
        if r and r[-1].op == "list" and s.op == "list":
            r[-1] = lst(*(r[-1].args[0] + s.args[0]))
            continue
        if r and r[-1].op == "slice" and s.op == "slice" and r[-1].args[0] is s.args[0] and r[-1].args[2] is s.args[1]:
            r[-1] = slc(s.args[0], r[-1].args[1], s.args[2])
            continue
        r.append(s)
    if not r:
        return EMPTY
    if len(r) == 1:
        return r[0]
    if any(x.op == "ite" for x in r):
        # distribute only when an arm is empty-list/short: keep as is
        pass
    return mk("cat", tuple(r))


def slc(s, a, b):
    n = length(s)
    if a is I(0) and b is n:
        return s
    if a is b:
        return EMPTY
    if s.op == "ite":
        return ite(s.args[0], slc(s.args[1], a, b), slc(s.args[2], a, b))
    if s.op == "slice":
        return slc(s.args[0], add(s.args[1], a), add(s.args[1], b))
    if s.op == "list" and is_int(a) and is_int(b):
        return lst(*s.args[0][a.args[0]:b.args[0]])
    if s.op == "tab":
        v = fresh("k", "nat")
        with under(cur().plus(lt(v, sub(b, a)))):
            return tab(sub(b, a), lam(v, inst(s.args[1], add(a, v))))
    if s.op == "cat":
        parts = s.args[0]
        off = I(0)
        res = []
        ok = True
        started = False
        for p in parts:
            end = add(off, length(p))
            # is part wholly before a?
            if prove_ge0(sub(a, end)):
                off = end
                continue
            if prove_ge0(sub(off, b)):
                break
            lo = I(0) if prove_ge0(sub(off, a)) else (sub(a, off) if prove_ge0(sub(a, off)) else None)
            hi = length(p) if prove_ge0(sub(b, end)) else (sub(b, off) if prove_ge0(sub(end, b)) else None)
            if lo is None or hi is None:
                ok = False
                break
            res.append(slc(p, lo, hi))
            off = end
        if ok:
            return cat(*res)
    if s.op == "flat":
        k = elem_len(s.args[0])
        if k is not None and not (is_int(k) and k.args[0] == 0):
            q1, q2 = _exactdiv(a, k), _exactdiv(b, k)
            if q1 is not None and q2 is not None:
                return flat(slc(s.args[0], q1, q2))
    if s.op == "unpack":
        q1, q2 = _exactdiv(a, I(8)), _exactdiv(b, I(8))
        if q1 is not None and q2 is not None:
            return unpack(slc(s.args[0], q1, q2), s.args[1])
        # prefix of the bits of a packed bit string
        if s.args[0].op == "pack" and s.args[0].args[1] == s.args[1]:
            bts = s.args[0].args[0]
            if prove_ge0(sub(length(bts), b)):
                return slc(bts, a, b)
    return mk("slice", s, a, b)


def _exactdiv(a, k):
    if a is I(0):
        return I(0)
    if is_int(k):
        pm = _poly(a)
        if all(c % k.args[0] == 0 for c in pm.values()):
            return _mkpoly({m: c // k.args[0] for m, c in pm.items()})
        # min(8i+8, 8n)
        if a.op in ("min", "max"):
            xs = [_exactdiv(x, k) for x in a.args[0]]
            if all(x is not None for x in xs):
                return (mn if a.op == "min" else mx)(*xs)
        elif len(pm) > 1:
            # 64 - min(64, 8i+16)
            res = I(0)
            for m, c in pm.items():
                if c % k.args[0] == 0:
                    res = add(res, _mkpoly({m: c // k.args[0]}))
                elif len(m) == 1 and m[0].op in ("min", "max"):
                    q = _exactdiv(m[0], k)
                    if q is None:
                        return None
                    res = add(res, scale(q, c))
                else:
                    return None
            return res
        return None
    q, r = _divsplit(a, k)
    if q is not None and is_int(r) and r.args[0] == 0:
        return q
    return None


def flat(s):
    if s.op == "list":
        return cat(*s.args[0])
    if s.op == "cat":
        return cat(*[flat(x) for x in s.args[0]])
    if s.op == "ite":
        return ite(s.args[0], flat(s.args[1]), flat(s.args[2]))
    if s.op == "tab":
        v, b = open_lam(s.args[1], "f")
        if b is EMPTY:
            return EMPTY
        if b.op == "list" and len(b.args[0]) == 1:
            return tab(s.args[0], lam(v, b.args[0][0]))
        if b.op == "list" and len(b.args[0]) > 1 and b.args[0][0].op == "at":
            s0, i0 = b.args[0][0].args[:2]
            k = len(b.args[0])
            off = sub(i0, scale(v, k))
            if not has(s0, v) and not has(off, v) and all(
                    x.op == "at" and x.args[0] is s0 and x.args[1] is add(i0, I(j)) for j, x in enumerate(b.args[0])):
                return slc(s0, off, add(off, scale(s.args[0], k)))
        if b.op == "list" and 1 < len(b.args[0]) <= 16:
            # pieces of one size, element by element
            k = len(b.args[0])
            j = fresh("j", "nat")
            with under(cur().plus(lt(j, scale(s.args[0], k)))):
                x = at(lst(*[subst(e, {v: idiv(j, I(k))}) for e in b.args[0]]), imod(j, I(k)))
            return tab(scale(s.args[0], k), lam(j, x))
        if b.op == "cat":
            r = _padded(b, v, s.args[0])
            if r is not None:
                return r
        # flat of the consecutive pieces of one sequence
        if b.op == "slice" and not has(b.args[0], v):
            lo0 = subst(b.args[1], {v: I(0)})
            nxt = subst(b.args[1], {v: add(v, I(1))})
            hi = b.args[2]
            if hi.op in ("min", "max"):
                with under(cur().plus(lt(v, s.args[0]))):
                    hi = renorm(hi)
            with under(cur().plus(lt(add(v, I(1)), s.args[0]))):
                h2 = renorm(hi)
            if h2 is nxt or eq(h2, nxt) is TRUE or _same_under(hi, nxt, lt(add(v, I(1)), s.args[0])):
                n = s.args[0]
                last = subst(hi, {v: sub(n, I(1))})
                if is_int(n) and n.args[0] == 0:
                    return EMPTY
                if prove_ge0(sub(n, I(1))):
                    return slc(b.args[0], lo0, last)
                # n = 0 gives the empty sequence, and so must the closed form
                if subst(b.args[1], {v: n}) is not None:
                    end = _clos_end(hi, v, n)
                    if end is not None:
                        return slc(b.args[0], lo0, end)
    return mk("flat", s)


def _same_under(a, b, fact):
    with under(cur().plus(fact)):
        d = sub(a, b)
        return prove_ge0(d) and prove_ge0(neg(d))


def _padded(b, v, n):
    """pieces of a sequence, each filled up to k elements with a constant: the sequence, filled up to a multiple of k"""
    if b.op != "cat" or len(b.args[0]) != 2:
        return None
    p, z = b.args[0]
    if p.op != "slice" or z.op != "tab" or z.args[1].fv or z.args[1].args[0].fv or has(p.args[0], v) or has(z.args[1], v):
        return None
    k = add(length(p), z.args[0])
    lo = p.args[1]
    if not is_int(k) or lo is not scale(v, k.args[0]) or p.args[2].op != "min":
        return None
    full = add(lo, k)
    L = [x for x in p.args[2].args[0] if x is not full]
    if len(L) != 1 or len(p.args[2].args[0]) != 2 or has(L[0], v):
        return None
    L, kn = L[0], mul(k, n)
    with under(cur().plus(le(I(1), n))):
        if not (prove_ge0(sub(L, sub(kn, k))) and prove_ge0(L)):
            return None
    end = mn(L, kn)
    return cat(slc(p.args[0], I(0), end), tab(sub(kn, end), z.args[1]))


def _clos_end(hi, v, n):
    """hi(n-1) simplified for hi(i) = min(k*i + k, L) with n = ceil(L/k)"""
    if hi.op == "min":
        L = [x for x in hi.args[0] if not has(x, v)]
        if len(L) == 1:
            k = [x for x in hi.args[0] if has(x, v)]
            if len(k) == 1:
                p = _poly(k[0])
                c = p.get((v,), 0)
                if c > 0 and n is ceildiv(L[0], I(c)):
                    return L[0]
    e = subst(hi, {v: sub(n, I(1))})
    if _exact_affine(hi, v):
        return e
    return None


def _exact_affine(hi, v):
    p = _poly(hi)
    return p.get((v,), 0) > 0 and p.get((v,), 0) == p.get((), 0)


def store(s, i, v):
    if s.op == "list" and is_int(i) and 0 <= i.args[0] < len(s.args[0]):
        xs = list(s.args[0])
        xs[i.args[0]] = v
        return lst(*xs)
    if s.op == "store" and s.args[1] is i:
        return store(s.args[0], i, v)
    if v.op == "at" and v.args[0] is s and v.args[1] is i:
        return s
    return mk("store", s, i, v)


def rev(s):
    if s.op == "rev":
        return s.args[0]
    if s.op == "list":
        return lst(*reversed(s.args[0]))
    if s.op == "tab":
        v = fresh("r", "nat")
        return tab(s.args[0], lam(v, inst(s.args[1], sub(sub(s.args[0], I(1)), v))))
    return mk("rev", s)


# ---------------------------------------------------------------- matrices / images

def mat(r, c, l2):
    """matrix with element l2(row)(col)"""
    b = l2.args[0].args[0] if l2.args[0].op == "lam" else None
    if b is not None and b.op == "at2" and b.args[1].op == "bv" and b.args[1].args[0] == 1 and b.args[2].op == "bv" and \
            b.args[2].args[0] == 0 and b.args[0].fv == 0:
        m = b.args[0]
        if rows(m) is r and cols(m) is c:
            return m
    return mk("mat", r, c, l2)


MATDIM = {}


def rows(m):
    return _dim(m, 0)


def cols(m):
    return _dim(m, 1)


def _dim(m, k):
    op = m.op
    if op == "mat":
        return m.args[k]
    if op == "store2":
        return _dim(m.args[0], k)
    if op == "grey":
        return m.args[k]
    if op == "submat":
        return sub(m.args[3 + k], m.args[1 + k]) if False else m.args[3 + k]
    if op == "paste":
        return _dim(m.args[0], k)
    if op == "ite":
        return ite(m.args[0], _dim(m.args[1], k), _dim(m.args[2], k))
    if op == "shape":
        return m.args[k]
    if op == "fold" and isinstance(m.args[3], str) and m.args[3].startswith("mat"):
        return _dim(m.args[1], k)
    if op == "app":
        h = MATDIM.get(m.args[0])
        if h is not None:
            r = h(m, k)
            if r is not None:
                return r
    d = LEAFDIM.get(m)
    if d is not None:
        return d[k]
    if op in ("submat",):
        return m.args[3 + k]
    return mk("rows" if k == 0 else "cols", m)


def samecell(r1, c1, r2, c2):
    if r1.op == r2.op == "idiv" and c1.op == c2.op == "imod" and r1.args == c1.args and r2.args == c2.args and r1.args[1] is r2.args[1]:
        # the same quotient and the same residue
        return eq(r1.args[0], r2.args[0])
    return band(eq(r1, r2), eq(c1, c2))


def at2(m, r, c):
    if m.op == "mat":
        return inst(inst(m.args[2], r), c)
    if m.op == "store2":
        e = samecell(m.args[1], m.args[2], r, c)
        if e is TRUE:
            return m.args[3]
        if e is FALSE:
            return at2(m.args[0], r, c)
        return ite(e, m.args[3], at2(m.args[0], r, c))
    if m.op == "ite":
        return ite(m.args[0], at2(m.args[1], r, c), at2(m.args[2], r, c))
    if m.op == "submat":
        return at2(m.args[0], add(m.args[1], r), add(m.args[2], c))
    if m.op == "shape":
        return at(m.args[2], add(mul(r, m.args[1]), c))
    if m.op == "grey":
        return ctor(LUMA, [lst(at(m.args[2], add(mul(r, m.args[1]), c), "u8"))])
    if m.op == "paste":
        x, r0, c0, y = m.args
        inside = band(le(r0, r), lt(r, add(r0, rows(y))), le(c0, c), lt(c, add(c0, cols(y))))
        if inside is TRUE:
            return at2(y, sub(r, r0), sub(c, c0))
        if inside is FALSE:
            return at2(x, r, c)
    return mk("at2", m, r, c)


def store2(m, r, c, v):
    if m.op == "store2" and m.args[1] is r and m.args[2] is c:
        return store2(m.args[0], r, c, v)
    return mk("store2", m, r, c, v)


def submat(m, r0, c0, nr, nc):
    if r0 is I(0) and c0 is I(0) and nr is rows(m) and nc is cols(m):
        return m
    if m.op == "submat":
        return submat(m.args[0], add(m.args[1], r0), add(m.args[2], c0), nr, nc)
    if m.op == "paste" and m.args[1] is r0 and m.args[2] is c0 and rows(m.args[3]) is nr and cols(m.args[3]) is nc:
        return m.args[3]
    return mk("submat", m, r0, c0, nr, nc)


def paste(m, r0, c0, s):
    if r0 is I(0) and c0 is I(0) and rows(s) is rows(m) and cols(s) is cols(m):
        return s
    if s.op == "submat" and s.args[0] is m and s.args[1] is r0 and s.args[2] is c0:
        return m
    if m.op == "paste" and m.args[1] is r0 and m.args[2] is c0 and rows(m.args[3]) is rows(s) and cols(
            m.args[3]) is cols(s):
        return paste(m.args[0], r0, c0, s)
    if s.op == "paste" and s.args[0].op == "submat" and s.args[0].args[0] is m and s.args[0].args[1] is r0 and s.args[0].args[2] is c0:
        return paste(m, add(r0, s.args[1]), add(c0, s.args[2]), s.args[3])
    return mk("paste", m, r0, c0, s)


def shape(r, c, s):
    """matrix r x c over the row-major sequence s"""
    if s.op == "matseq" and rows(s.args[0]) is r and cols(s.args[0]) is c:
        return s.args[0]
    if s.op == "tab":
        # the samples of a matrix of this very shape
        k, b = open_lam(s.args[1], "k")
        if b.op == "at2" and not has(b.args[0], k) and rows(b.args[0]) is r and cols(b.args[0]) is c and b.args[1] is idiv(k, c) and b.args[2] is imod(k, c):
            return b.args[0]
    return mk("shape", r, c, s)


def matseq(m):
    if m.op == "shape":
        return m.args[2]
    return mk("matseq", m)


# ---------------------------------------------------------------- structs

ORDER = {"core::cmp::Ordering::Less": -1, "core::cmp::Ordering::Equal": 0, "core::cmp::Ordering::Greater": 1}


def ctor(name, fields, vidx=0):
    vidx = ORDER.get(name, vidx)
    return mk("ctor", name, tuple(fields), vidx)


def tup(*xs):
    return mk("tup", tuple(xs))


SOME = "core::option::Option::Some"
NONE = "core::option::Option::None"
OK = "core::result::Result::Ok"
ERR = "core::result::Result::Err"


def some(x):
    return ctor(SOME, [x], 1)


none = ctor(NONE, [], 0)


def ok(x):
    return ctor(OK, [x], 0)


def err(x):
    return ctor(ERR, [x], 1)


def discr(t):
    if t.op == "ctor":
        return I(t.args[2])
    if t.op == "ite":
        return ite(t.args[0], discr(t.args[1]), discr(t.args[2]))
    if t.op == "undef":
        return t
    return mk("discr", t)


def fld(t, variant, idx, sort=None):
    """field idx of t seen as the given variant (None for structs/tuples)"""
    if t.op == "ctor":
        if variant is not None and not t.args[0].endswith("::" + variant):
            return mk("undef")
        if idx < len(t.args[1]):
            return t.args[1][idx]
        return mk("undef")
    if t.op == "tup":
        return t.args[0][idx]
    if t.op == "ite":
        return ite(t.args[0], fld(t.args[1], variant, idx, sort), fld(t.args[2], variant, idx, sort))
    if t.op == "undef":
        return t
    return mk("fld", t, variant, idx, sort)


def setfld(t, variant, idx, v):
    if t.op == "ctor":
        fs = list(t.args[1])
        fs[idx] = v
        return mk("ctor", t.args[0], tuple(fs), t.args[2])
    if t.op == "tup":
        fs = list(t.args[0])
        fs[idx] = v
        return mk("tup", tuple(fs))
    if t.op == "ite":
        return ite(t.args[0], setfld(t.args[1], variant, idx, v), setfld(t.args[2], variant, idx, v))
    return mk("setfld", t, variant, idx, v)


def app(name, sort, *args):
    """application of a function that the value graph leaves uninterpreted, or knows some laws of"""
    h = APPNORM.get(name)
    if h is not None:
        return h(*args)
    return mk("app", name, sort, tuple(args))


APPNORM = {}


def fold(n, init, l2, kind=None):
    """l2 = lam i. lam acc. next"""
    if is_int(n) and n.args[0] <= 0:
        return init
    return mk("fold", n, init, l2, kind)


def first(n, l):
    """least i < n with l(i), else n"""
    if l.args[0] is FALSE:
        return n
    if l.args[0] is TRUE:
        return mn(n, I(0)) if rng(n)[0] is not None and rng(n)[0] >= 0 else mx(I(0), mn(n, I(0)))
    return mk("first", n, l)


def first_trip(c, i):
    """rounds of a loop that goes on while c(i): the least i with not c(i)"""
    if not has(c, i):
        return None
    return mk("trip", lam(i, c))


LEAFDIM = {}


def _rb_poly(a, f):
    r = I(0)
    parts = []
    for m, c in a[0]:
        t = I(c)
        for x in m:
            t = mul(t, f(x))
        parts.append(t)
    return add(*parts) if parts else r


REBUILD = {
    "poly": _rb_poly,
    "not": lambda a, f: bnot(f(a[0])),
    "and": lambda a, f: band(*[f(x) for x in a[0]]),
    "or": lambda a, f: bor(*[f(x) for x in a[0]]),
    "ge0": lambda a, f: ge0(f(a[0])),
    "eq0": lambda a, f: eq0(f(a[0])),
    "eq": lambda a, f: eq(f(a[0]), f(a[1])),
    "ite": lambda a, f: _rb_ite(a, f),
    "min": lambda a, f: mn(*[f(x) for x in a[0]]),
    "max": lambda a, f: mx(*[f(x) for x in a[0]]),
    "idiv": lambda a, f: idiv(f(a[0]), f(a[1])),
    "imod": lambda a, f: imod(f(a[0]), f(a[1])),
    "pow2": lambda a, f: pow2(f(a[0])),
    "icast": lambda a, f: icast(a[0], f(a[1])),
    "band": lambda a, f: bits_and(f(a[0]), f(a[1])),
    "bor": lambda a, f: bits_or(f(a[0]), f(a[1])),
    "bxor": lambda a, f: bits_xor(f(a[0]), f(a[1])),
    "shr": lambda a, f: shr(f(a[0]), f(a[1])),
    "fadd": lambda a, f: fop("fadd", f(a[0]), f(a[1])),
    "fsub": lambda a, f: fop("fsub", f(a[0]), f(a[1])),
    "fmul": lambda a, f: fop("fmul", f(a[0]), f(a[1])),
    "fdiv": lambda a, f: fop("fdiv", f(a[0]), f(a[1])),
    "fneg": lambda a, f: fneg(f(a[0])),
    "i2f": lambda a, f: i2f(f(a[0])),
    "f2i": lambda a, f: f2i(a[0], f(a[1])),
    "fn": lambda a, f: ffun(a[0], *[f(x) for x in a[1]]),
    "fltc": lambda a, f: fcmp("fltc", f(a[0]), f(a[1])),
    "flec": lambda a, f: fcmp("flec", f(a[0]), f(a[1])),
    "feqc": lambda a, f: fcmp("feqc", f(a[0]), f(a[1])),
    "tab": lambda a, f: _rb_tab(a, f),
    "app": lambda a, f: app(a[0], a[1], *[f(x) if isinstance(x, T) else x for x in a[2]]),
    "len": lambda a, f: length(f(a[0])),
    "at": lambda a, f: at(f(a[0]), f(a[1]), a[2]),
    "cat": lambda a, f: cat(*[f(x) for x in a[0]]),
    "slice": lambda a, f: slc(f(a[0]), f(a[1]), f(a[2])),
    "flat": lambda a, f: flat(f(a[0])),
    "store": lambda a, f: store(f(a[0]), f(a[1]), f(a[2])),
    "rev": lambda a, f: rev(f(a[0])),
    "unpack": lambda a, f: unpack(f(a[0]), a[1]),
    "pack": lambda a, f: pack(f(a[0]), a[1]),
    "word": lambda a, f: word(f(a[0]), a[1]),
    "grey": lambda a, f: grey(f(a[0]), f(a[1]), f(a[2])),
    "packw": lambda a, f: packw(f(a[0]), a[1], a[2]),
    "unpackw": lambda a, f: unpackw(f(a[0]), a[1], a[2]),
    "bit": lambda a, f: bit(f(a[0]), f(a[1])),
    "mat": lambda a, f: _rb_mat(a, f),
    "rows": lambda a, f: rows(f(a[0])),
    "cols": lambda a, f: cols(f(a[0])),
    "at2": lambda a, f: at2(f(a[0]), f(a[1]), f(a[2])),
    "store2": lambda a, f: store2(*[f(x) for x in a]),
    "submat": lambda a, f: submat(*[f(x) for x in a]),
    "paste": lambda a, f: paste(*[f(x) for x in a]),
    "shape": lambda a, f: shape(f(a[0]), f(a[1]), f(a[2])),
    "matseq": lambda a, f: matseq(f(a[0])),
    "discr": lambda a, f: discr(f(a[0])),
    "fld": lambda a, f: fld(f(a[0]), a[1], a[2], a[3]),
    "setfld": lambda a, f: setfld(f(a[0]), a[1], a[2], f(a[3])),
    "fold": lambda a, f: fold(f(a[0]), f(a[1]), f(a[2]), a[3]),
    "first": lambda a, f: first(f(a[0]), f(a[1])),
}


def _rb_ite(a, f):
    c = f(a[0])
    if c is TRUE:
        return f(a[1])
    if c is FALSE:
        return f(a[2])
    with under(cur().plus(c)):
        x = f(a[1])
    with under(cur().plus(bnot(c))):
        y = f(a[2])
    return ite(c, x, y)


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 60:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o in ("int", "flt", "bool"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return str(a[0])
    if o == "bv":
        return "$%d" % a[0]
    if o == "unit":
        return "()"
    if o == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(s(x) for x in m)
            out.append(("%d" % c) if not m else (ms if c == 1 else "%d*%s" % (c, ms)))
        return "(" + " + ".join(out) + ")"
    if o == "ge0":
        return s(a[0]) + ">=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "ite":
        return "if(%s, %s, %s)" % tuple(s(x) for x in a)
    if o in ("and", "or", "min", "max", "list", "cat", "tup"):
        sep = {"and": " & ", "or": " | "}.get(o, ", ")
        br = {"and": "()", "or": "()", "list": "[]", "tup": "()"}.get(o)
        body = sep.join(s(x) for x in a[0])
        return (br[0] + body + br[1]) if br else "%s(%s)" % (o, body)
    if o == "lam":
        return "\\%s" % s(a[0])
    if o == "at":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "ctor":
        return "%s{%s}" % (a[0].split("::")[-1], ", ".join(s(x) for x in a[1]))
    if o == "fld":
        return "%s.%s%d" % (s(a[0]), (a[1] + ".") if a[1] else "", a[2])
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[2]))
    if o == "fn":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1]))

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(g(y) for y in x) + ")"
        return str(x)
    return "%s(%s)" % (o, ", ".join(g(x) for x in a))
