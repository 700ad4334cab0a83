"""Do the loops of a function end?  The function is executed over terms; a loop whose number of rounds is a closed form of
the arguments ends.  For the others, the effect of one round on the values carried round (also a term) is folded at constants,
round after round: values that come back exactly, with the test for another round true, are a loop that never ends."""
import itertools
import time

from . import exec as X
from . import interp as N
from . import oblig as O
from . import terms as T

ROUNDS = 400
FLOATS = [0.0, 1.0, -1.5, 0.1, 3.75, 1e300, float("inf"), float("-inf"), float("nan"), 7.0, 1e-320, -4096.0]


class NoArgs(Exception):
    pass


def plain(sort, depth=0):
    """can constants of this sort be made up here?"""
    if sort.startswith("seq:"):
        return depth < 3 and plain(sort[4:], depth + 1)
    if sort.startswith("mat:"):
        return sort[4:] in T.INTR or sort[4:] in ("f64", "f32", "bool")
    return sort in T.INTR or sort in ("bool", "f64", "f32", "nat")


def constant(sort, r, size):
    if sort.startswith("seq:"):
        n = r.choice([0, 1, 2, 3, size])
        return N.Seq.of([constant(sort[4:], r, size) for _ in range(n)])
    if sort.startswith("mat:"):
        h, w = r.choice([0, 1, 2, 4, size]), r.choice([0, 1, 2, 4, size])
        g = [[constant(sort[4:], r, size) for _ in range(w)] for _ in range(h)]
        return N.Mat(h, w, lambda i, j: g[i][j])
    if sort == "bool":
        return bool(r.getrandbits(1))
    if sort in ("f64", "f32"):
        return r.choice(FLOATS)
    lo, hi = T.INTR.get(sort, (0, 1 << 62))
    k = r.randrange(8)
    return lo if k == 0 else hi if k == 1 and sort in ("u8", "i8") else max(lo, -3) + r.randrange(size + 4)


def unit(p, ty):
    """a structure without fields"""
    ty = ty["to"] if ty["k"] in ("ref", "ptr") else ty
    return ty["k"] == "adt" and any(i["kind"] == "Struct" and i["key"] == ty["path"] and i.get("variants") and not i["variants"][0]["fields"] for i in p.ctx.P.items)


def arguments(p, b, given):
    out, syms = [], []
    for k in range(1, b.argc + 1):
        ty = b.locals[k]
        s = X.sort_of(ty)
        if unit(p, ty):
            out.append(T.ctor((ty["to"] if ty["k"] in ("ref", "ptr") else ty)["path"], []))
            continue
        if not plain(s):
            raise NoArgs("an argument of type %s" % s)
        x = given.get(k) or T.sym("arg%d" % k, s)
        syms.append(x)
        out.append(p.cell(x) if ty["k"] in ("ref", "ptr") and ty.get("mut") else x)
    return out, syms


def exact(v, out):
    if isinstance(v, float):
        out.append(repr(v))
    elif isinstance(v, (N.Seq, N.Mat)):
        xs = N.seqof(v).all() if isinstance(v, N.Seq) else [v.get(i, j) for i in range(v.r) for j in range(v.c)]
        out.append("[%d" % len(xs))
        for x in xs:
            exact(x, out)
    elif isinstance(v, N.Ctor):
        out.append(v.name + "(%d" % len(v.fs))
        for x in v.fs:
            exact(x, out)
    elif isinstance(v, (bool, int, str)) or v is None:
        out.append(repr(v))
    elif isinstance(v, tuple):
        out.append("(")
        for x in v:
            exact(x, out)
    else:
        b = []
        N.ser(v, b)
        out.append(repr(b))
    return out


def outer_rounds(facts, ini, val, r):
    """constants for the rounds of the loops around"""
    need = set()
    for t in list(facts.fs) + list(ini.values()):
        need |= {x for x in N.symbols(t) if x.args[0] not in val and x.args[0] not in N.STATE}
    for x in need:
        s = x.args[1]
        if s != "nat":
            return False
        val[x.args[0]] = r.randrange(4)
    return True


def circles(rec, val):
    """the number of rounds after which the values come back, None when the loop ends (or nothing can be said)"""
    what, leaves, ini, upd, cont, facts, panics = rec
    f = N.Fold(val)
    try:
        if not all(f.ev(t) for t in facts.fs):
            return None
        state = {l.args[0]: f.ev(t) for l, t in ini.items()}
        seen = {}
        out = O.Out.__new__(O.Out)
        out.panics = panics
        for k in range(ROUNDS):
            key = repr([(n, exact(v, [])) for n, v in sorted(state.items())])
            if key in seen:
                return k, state
            seen[key] = k
            f = N.Fold(dict(val, **state))
            if O.panics_at(out, dict(val, **state)) or not f.ev(cont):
                return None
            nxt = {}
            for l in leaves:
                v = f.ev(upd[l]) if l in upd else state[l.args[0]]
                nxt[l.args[0]] = v
            for v in nxt.values():
                exact(v, [])
            state = nxt
        return None
    except (N.Undef, N.Stuck, OverflowError, ZeroDivisionError, RecursionError):
        return None


def loops_of(ctx, b, end, points=60, pre=None):
    """({loop: its number of rounds has a closed form}, [(loop, how it never ends)], why the execution stopped)
    for the loops met when the function is executed over terms, once for every valuation of its boolean arguments"""
    bools = [k for k in range(1, b.argc + 1) if X.sort_of(b.locals[k]) == "bool"][:3]
    closed, bad, why = {}, [], None
    for bits in itertools.product((T.FALSE, T.TRUE), repeat=len(bools)):
        given = dict(zip(bools, bits))
        # what the function calls gives unknown values first: its own loops seldom depend on them
        c, x, w = _once(ctx, b, end, points, pre, given, True)
        if w is not None or x or not c or not all(c.values()):
            c2, x, w = _once(ctx, b, end, points, pre, given, False)
            c = {n: c.get(n, False) or c2.get(n, False) for n in set(c) | set(c2)}
        for n, v in c.items():
            closed[n] = closed.get(n, True) and v
        bad += [y for y in x if y[0] not in [z[0] for z in bad]]
        why = why or w
    return closed, bad, why


def _once(ctx, b, end, points, pre, given, flat):
    p = O.Prog(ctx)
    p.E.deep = True
    p.E.flat = flat
    why = None
    T.BUDGET[0] = min(time.time() + 15, end)
    try:
        args, syms = arguments(p, b, given)
    except NoArgs as e:
        return {}, [], str(e)
    try:
        if pre is not None:
            p.st.facts = p.st.facts.plus(pre(syms))
        p.call(b.friendly, *args)
    except (X.Unsup, T.Budget) as e:
        why = str(e)
    finally:
        T.BUDGET[0] = None
    bad = []
    consts = [x for x in syms if x.op == "sym"]
    for rec in p.E.whiles:
        for k in range(points):
            r = O.rnd(k * 7919 + 5)
            val = {x.args[0]: constant(x.args[1], r, 3 + k // 8) for x in consts}
            if not outer_rounds(rec[5], rec[2], val, r):
                break
            c = circles(rec, val)
            if c is not None:
                bad.append((rec[0], "after %d rounds the loop is where it was before (%s), for %s" % (
                    c[0], ", ".join(N.brief(v) for v in c[1].values())[:160],
                    ", ".join("%s=%s" % (x.args[0], N.brief(val[x.args[0]])) for x in consts)[:200])))
                break
    return dict(p.E.rounds), bad, why
