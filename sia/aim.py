"""Further constants for folding, aimed at the literals of the graphs that are compared."""
import math

from . import interp as N
from . import terms as T

LIMIT = 420


def literals(ts):
    """integers and floats the terms mention"""
    ints, floats, seen, st = set(), set(), set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "int":
            ints.add(x.args[0])
        elif x.op == "flt":
            floats.add(x.args[0])
        elif x.op == "poly":
            for m, c in T._poly(x).items():
                ints.add(c)
        st.extend(T.subterms(x))
    return ints, floats


def targets(mine, asked):
    """values worth trying for a scalar or a size: those literals of `mine` first that `asked` does not know"""
    i, f = literals(mine)
    i2, f2 = literals(asked)
    new = {abs(x) for x in i - i2 if isinstance(x, int)}
    big = sorted(x for x in new if x > 1)
    small = [x for x in sorted(i | i2) if isinstance(x, int) and 2 <= x <= 16]
    out = []
    for c in big[:14]:
        out += [c, c - 1, c + 1]
    for c in big[:6]:
        for k in small[:6]:
            if c // k > 1:
                out += [c // k, c // k + 1]
    fl = []
    for c in sorted(f - f2, key=abs)[:12]:
        if math.isfinite(c):
            fl += [c, math.nextafter(c, math.inf), math.nextafter(c, -math.inf), c * 1.5]
            if c == int(c) and abs(c) < 1e6:
                out += [int(c), int(c) + 1, int(c) - 1]
    for c in big[:8]:
        fl += [float(c), c + 0.5, c - 0.5]
    return list(dict.fromkeys(x for x in out if x >= 0))[:40], list(dict.fromkeys(fl))[:30]


def _cycle(s, n):
    return N.Seq.of([s.get(k % s.n) for k in range(n)])


def _sorted(ty):
    return ty[4:] if isinstance(ty, str) and ty.startswith(("seq:", "mat:")) else None


def variants(v, sort, ints, floats, r):
    """v with a literal in its place, as its size, or as one of its elements"""
    el = _sorted(sort)
    if isinstance(v, bool):
        return
    if isinstance(v, int):
        lo, hi = T.INTR.get(sort, (None, None))
        if sort == "nat":
            lo, hi = 0, T.LENMAX
        if lo is not None:
            for c in ints:
                for x in (c, -c):
                    if lo <= x <= hi:
                        yield x
    elif isinstance(v, float):
        for c in floats:
            yield c
            yield -c
    elif isinstance(v, N.Seq):
        for c in ints:
            if v.n and c <= 5000 and c != v.n:
                yield _cycle(v, c)
        if v.n and v.n <= 600:
            xs = v.all()
            for x in variants(xs[0], el, ints, floats, r):
                k = r.randrange(v.n)
                yield N.Seq.of([x if j == k else y for j, y in enumerate(xs)])
                if el in T.INTR or el in ("f64", "f32"):
                    yield N.Seq.of([x if r.random() < 0.5 else y for y in xs])
    elif isinstance(v, N.Mat):
        if not v.r or not v.c:
            return
        for c in ints:
            for R, C in ((c, v.c), (v.r, c)):
                if 0 < R * C <= 20000 and (R, C) != (v.r, v.c):
                    yield N.Mat(R, C, lambda i, j: v.get(i % v.r, j % v.c))
        for x in variants(v.get(0, 0), el, ints, floats, r):
            a, b = r.randrange(v.r), r.randrange(v.c)
            yield N.Mat(v.r, v.c, lambda i, j, x=x, a=a, b=b: x if (i, j) == (a, b) else v.get(i, j))


def around(vals, sorts, mine, asked, r, fixed=(), lits=None):
    """variants of the given constants"""
    ints, floats = lits or targets(mine, asked)
    if not (ints or floats) or not vals:
        return
    n = 0
    order = list(vals)
    r.shuffle(order)
    for val in order[:6]:
        for k in sorted(set(val) - set(fixed)):
            for x in variants(val[k], sorts.get(k), ints, floats, r):
                yield dict(val, **{k: x})
                n += 1
    while n < LIMIT * 4:
        # several at once
        val = dict(r.choice(order))
        for k in sorted(set(val) - set(fixed)):
            if r.random() < 0.5:
                xs = list(variants(val[k], sorts.get(k), ints, floats, r))
                if xs:
                    val[k] = r.choice(xs)
        yield val
        n += 1


# ---------------------------------------------------------------- constants that meet the tests on the way to a value

def tests(mine, asked, most=160):
    """lists of (condition, wanted) that lead to a choice the expected graph does not have"""
    known, st, seen = set(), list(asked), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            known.add(x.args[0])
        elif x.op in T.BOOLOPS:
            known.add(x)
        st.extend(T.subterms(x))
    out, done = [], set()
    st = [(t, ()) for t in mine]
    while st and len(out) < most:
        x, path = st.pop()
        if x in done:
            continue
        done.add(x)
        if x.op == "ite":
            c, a, b = x.args
            for w in (True, False):
                if c not in known:
                    out.append(path + ((c, w),))
            short_ = path if len(path) < 6 else path[-6:]
            st.append((a, short_ + ((c, True),)))
            st.append((b, short_ + ((c, False),)))
            st.append((c, path))
            continue
        if x.op in ("and", "or") and x not in known and not path:
            out.append(((x, True),))
            out.append(((x, False),))
        for y in T.subterms(x):
            st.append((y, path))
    return out


def atoms(c, want, r, out):
    if c.op == "not":
        return atoms(c.args[0], not want, r, out)
    if c.op in ("and", "or"):
        parts = c.args[0] if len(c.args) == 1 and isinstance(c.args[0], (tuple, list, frozenset)) else c.args
        parts = list(parts)
        if (c.op == "and") == want:
            for p in parts:
                atoms(p, want, r, out)
        else:
            atoms(r.choice(parts), want, r, out)
        return
    out.append((c, want))


def _accesses(t):
    """the constants a test looks at: (kind, name, indices)"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "at" and x.args[0].op == "sym":
            out.append(("el", x.args[0].args[0], (x.args[1],)))
        elif x.op == "at2" and x.args[0].op == "sym":
            out.append(("cell", x.args[0].args[0], x.args[1:3]))
        elif x.op == "slice" and x.args[0].op == "sym":
            out.append(("part", x.args[0].args[0], x.args[1:3]))
        elif x.op == "sym":
            out.append(("all", x.args[0], ()))
        st.extend(T.subterms(x))
    return out


def _worth(t, now):
    i, f = literals([t])
    xs = set(now)
    for c in i:
        if isinstance(c, int):
            xs |= {c, c + 1, c - 1, -c, -c - 1, -c + 1}
    for k in list(xs):
        for c in i:
            if c and isinstance(k, int) and abs(c) > 1:
                xs |= {k // c, -(-k // c)}
    fs = set(f) | {float(x) for x in xs if abs(x) < 1e15}
    fs |= {x * 1.5 for x in fs} | {-x for x in fs} | {x + 0.25 for x in fs}
    lists = []
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "list" and all(T.is_int(y) for y in x.args[0]):
            lists.append([y.args[0] for y in x.args[0]])
        st.extend(T.subterms(x))
    return sorted(xs, key=lambda x: (abs(x), x))[:40], sorted((x for x in fs if math.isfinite(x)), key=abs)[:40], lists


def _changes(c, val, env, sorts, r):
    acc = _accesses(c)
    ev = lambda t: N.Fold(val, 60000).ev(t, env)
    now = []
    for x in T.subterms(c):
        for y in (x,) + tuple(T.subterms(x)):
            if T._intish(y) or y.op == "int":
                try:
                    k = ev(y)
                    if isinstance(k, int) and not isinstance(k, bool):
                        now.append(k)
                except (N.Stuck, N.Undef, RecursionError, TypeError, IndexError):
                    pass
    ints, floats, lists = _worth(c, now)
    order = {"el": 0, "cell": 0, "part": 1, "all": 2}
    for kind, nm, ix in sorted(acc, key=lambda a: order[a[0]]):
        v = val.get(nm)
        if v is None or isinstance(v, bool):
            continue
        el = _sorted(sorts.get(nm)) or sorts.get(nm)
        lo, hi = T.INTR.get(el, (0, T.LENMAX) if el == "nat" else (-2 ** 63, 2 ** 63 - 1))
        fit = [x for x in ints if lo <= x <= hi]
        if el not in T.INTR and el not in ("nat", "int"):
            fit = floats if el in ("f64", "f32") else []
        try:
            at = [ev(k) for k in ix]
        except (N.Stuck, N.Undef, RecursionError, TypeError, IndexError):
            continue
        if kind == "el" and isinstance(v, N.Seq) and 0 <= at[0] < v.n <= 6000:
            for x in fit:
                yield nm, N.Seq.of([x if j == at[0] else y for j, y in enumerate(v.all())])
        elif kind == "cell" and isinstance(v, N.Mat) and 0 <= at[0] < v.r and 0 <= at[1] < v.c:
            for x in fit:
                yield nm, N.Mat(v.r, v.c, lambda i, j, x=x: x if [i, j] == at else v.get(i, j))
        elif kind == "part" and isinstance(v, N.Seq) and 0 <= at[0] <= at[1] <= v.n <= 6000:
            for l in lists:
                if len(l) == at[1] - at[0]:
                    yield nm, N.Seq.of([l[j - at[0]] if at[0] <= j < at[1] else y for j, y in enumerate(v.all())])
        elif kind == "all" and isinstance(v, N.Seq):
            for x in ints:
                if 0 < x <= 6000 and v.n and x != v.n:
                    yield nm, _cycle(v, x)
            for l in lists:
                if v.n >= len(l):
                    yield nm, N.Seq.of(l + v.all()[len(l):])
                    yield nm, N.Seq.of(v.all()[:v.n - len(l)] + l)
        elif kind == "all" and isinstance(v, N.Mat):
            for x in ints:
                for R, C in ((x, v.c), (v.r, x), (x, x)):
                    if v.r and v.c and 0 < R * C <= 20000 and R > 0:
                        yield nm, N.Mat(R, C, lambda i, j: v.get(i % v.r, j % v.c))
        elif kind == "all" and isinstance(v, (int, float)):
            for x in (fit if isinstance(v, int) == (el in T.INTR or el in ("nat", "int")) else []):
                yield nm, x


def met(vals, sorts, mine, asked, pre, r, fixed=(), end=None):
    """constants worked out, test by test, so that all the tests on the way to a choice come out as wanted"""
    import time

    def true(c, w, val, env):
        try:
            return bool(N.Fold(val, 60000).ev(c, env)) is w
        except (N.Stuck, N.Undef, RecursionError, TypeError, IndexError):
            return None
    for path in tests(mine, asked):
        for attempt in range(3):
            if end is not None and time.time() > end:
                return
            val = dict(r.choice(vals))
            deep = max(c.fv for c, _ in path)
            env = tuple(r.choice((0, 1, 2, 3, 0, 1)) for _ in range(deep))
            goal = []
            for c, w in path:
                atoms(c, w, r, goal)
            if len(goal) > 14:
                goal = goal[-14:]
            goal += [(p, True) for p in pre]
            good = False
            for turn in range(3):
                good = True
                for c, w in goal:
                    k = true(c, w, val, env)
                    if k is not False:
                        continue
                    good = False
                    for n, (nm, x) in enumerate(_changes(c, val, env, sorts, r)):
                        if n > 80:
                            break
                        if nm in fixed:
                            continue
                        v2 = dict(val, **{nm: x})
                        if true(c, w, v2, env):
                            val = v2
                            break
                if good:
                    break
            if good:
                yield val
