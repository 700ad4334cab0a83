"""Obligations over value graphs: what a function of the source returns against what the property asks.

Three verdicts.  proved: the graph of the source and the graph of the property have the same normal
form under the precondition, and every panic edge is excluded by the precondition.  refuted: the
normal forms differ and constant folding finds inputs at which they denote different values.
undecided: neither (a construct without a model, or normal forms that differ without a witness);
never an alarm.
"""
import itertools
import os
import random
import sys
import time

from . import crypt, fsio, images, webio  # noqa: F401 (register their models)
from . import exec as X
from . import aim as A
from . import cases
from . import interp as N
from . import ldpc  # noqa: F401 (registers its models)
from . import terms as T
from . import text  # noqa: F401 (registers its models)
from . import std  # noqa: F401, E402 (after the more specific models)
from . import state  # noqa: F401, E402


# seconds left for constants aimed at literals
AIMING = [240.0]
# when this process stops looking further (a check has 900 s)
END = [time.time() + 600]
# seconds left for histories of calls
PAST = [120.0]


# what the statics hold when a composition starts (None: anything), the composition made last, and what
# other compositions were seen to leave behind
START = [None]
LAST = [None]
LEFT = []


class Out:
    """what a composition of functions does: value, panic edges, events"""

    def __init__(self, E, value, state, args):
        self.E, self.value, self.state, self.args = E, value, state, args
        self.panics = E.panics
        self.snaps = E.snaps
        self.initial = None
        self.events = E.events

    def arg(self, k):
        return self.E.val(self.state, self.args[k])


class Prog:
    """runs functions of the analysed program over terms, one after the other"""

    def __init__(self, ctx, boundary=(), models=None, facts=()):
        self.ctx = ctx
        self.E = X.Engine(ctx.P, boundary, models)
        self.st = X.State(facts=T.NOFACTS.plus(*facts))
        self.dead = False
        self.initial = None
        for k, i in X.statics(ctx.P).items():
            if i["state"]:
                x = X.state_sym(k, i)
                N.STATE[x.args[0]] = _atstart(self.E, k)
                self.st.cells[("static", k)] = x if START[0] is None or k not in START[0] else START[0][k]
        LAST[0] = self

    def call(self, friendly, *args):
        """value of a call, None when it certainly panics; mutable arguments are mref terms"""
        if self.dead:
            return None
        b = self.ctx.P.find(friendly)
        if b is None:
            raise X.Unsup("no function " + friendly)
        v, s = self.E.call_body(b, list(args), self.st, {})
        if v is None:
            self.dead = True
            return None
        self.st = s
        return self.E.val(self.st, v) if v.op in ("mref", "ite") else v

    def cell(self, v):
        return self.E.new_cell(self.st, v)

    def val(self, r):
        return self.E.val(self.st, r)

    def watched(self, v):
        """a cell that has to be untouched wherever the program must refuse"""
        r = self.cell(v)
        self.E.watch, self.initial = r.args[0], v
        return r

    def out(self, v):
        o = Out(self.E, v, self.st, [])
        o.initial = self.initial
        return o


def _atstart(E, key):
    memo = []

    def value(f):
        if not memo:
            try:
                memo.append(E.initially(key))
            except X.Unsup as e:
                memo.append(e)
        if not isinstance(memo[0], T.T):
            raise N.Stuck("initial value of " + key)
        return f.ev(memo[0])
    return value


# ---------------------------------------------------------------- panics

def _loopsyms(fs, val):
    out = set()
    for f in fs:
        for s in N.symbols(f):
            if s.args[0] not in val and s.args[0] not in N.STATE:
                out.add(s)
    return out


LASTS = 6


def panics_at(out, val, cap=80):
    """the first panic edge taken at these constants, or None"""
    for facts, cond, kind, span, fn in out.panics:
        fs = sorted(facts.fs, key=lambda f: f.id) + [cond]
        free = sorted(_loopsyms(fs, val), key=lambda s: s.id)
        if _sat(fs, free, dict(val), cap):
            return (kind, span, fn)
    return None


def _sat(fs, free, val, cap):
    f = N.Fold(val)
    rest = []
    stuck = None
    for t in fs:
        if any(s in free for s in N.symbols(t)):
            rest.append(t)
            continue
        try:
            if not f.ev(t):
                return False
        except N.Undef:
            return False
        except N.Stuck as e:
            stuck = e       # another fact may still fail
    if stuck is not None:
        raise stuck
    if not free:
        return True
    s, others = free[0], free[1:]
    if s.args[1] not in ("nat",) and s.args[1] not in T.INTR:
        raise N.Stuck("free symbol %s" % s.args[0])
    mine = [t for t in rest if not any(o in others for o in N.symbols(t))]
    later = [t for t in rest if t not in mine]
    # upper bounds of s
    ub = [t for t in mine if t.op == "ge0" and T._poly(t.args[0]).get((s,), 0) < 0 and
          not any(s in m and m != (s,) for m in T._poly(t.args[0])) and
          not T.has(T._mkpoly({m: c for m, c in T._poly(t.args[0]).items() if m != (s,)}), s)]
    misses = 0
    k = 0
    while k < cap:
        val[s.args[0]] = k
        g = N.Fold(val)
        good = True
        stop = False
        for t in mine:
            try:
                ok = g.ev(t)
            except N.Undef:
                ok = False
            if not ok:
                good = False
                stop = t in ub
                break
        if stop:
            return False
        if good:
            if not others and not later:
                return True
            if _sat(later, others, dict(val), cap):
                return True
        k += 1
    # the last ones of a long range
    top = None
    for t in ub:
        q = T._poly(t.args[0])
        try:
            rest = f.ev(T._mkpoly({m: c for m, c in q.items() if m != (s,)}))
        except (N.Undef, N.Stuck):
            continue
        e = rest // -q[(s,)]
        top = e if top is None else min(top, e)
    for k in range(top, max(cap - 1, top - LASTS), -1) if top is not None else ():
        val[s.args[0]] = k
        g = N.Fold(val)
        try:
            good = all(g.ev(t) for t in mine)
        except N.Undef:
            continue
        if good and (not others and not later or _sat(later, others, dict(val), LASTS)):
            return True
    return False


# ---------------------------------------------------------------- verdicts

def pure(ctx, out_terms, allowed):
    """uninterpreted functions beyond the allowed ones make folding meaningless"""
    o = set()
    for t in out_terms:
        o |= N.opaques(t)
    return sorted(x for x in o if x not in allowed and x not in N.INTERP)


ANY = object()


def decide(ctx, key, text, make, expected, vals, pre=(), must=T.FALSE, may=T.FALSE, allowed=(), tol=1e-7, where="", eqv=None, norm=None, total=None, aimed=True, fixed=(), admit=None):
    """_decide, and where statics carry something from call to call and nothing is shown for all of it, the same from
    the start of the program and from what other compositions leave behind"""
    args = (text, make, expected, vals, pre, must, may, allowed, tol, where, eqv, norm, total, aimed, fixed, admit)
    state = [k for k, i in X.statics(ctx.P).items() if i["state"]]
    if not state:
        return _decide(ctx, key, *args)
    said = []
    r = _decide(_Later(ctx, said, ""), key, *args, patience=40)
    if r is None and time.time() < END[0]:
        E = X.Engine(ctx.P)
        first = {}
        for k in state:
            try:
                first[k] = E.initially(k)
            except X.Unsup:
                pass
        for n, start in enumerate([first] + list(LEFT)):
            mine = []
            START[0] = start
            try:
                r2 = _decide(_Later(ctx, mine, " (in a first call)" if n == 0 else " (after another call)"), key, *args, patience=25)
                _leaves(state, vals)
            finally:
                START[0] = None
            if r2 is False:
                for m, a in mine:
                    getattr(ctx, m)(*a)
                return False
            if time.time() > END[0]:
                break
    for m, a in said:
        getattr(ctx, m)(*a)
    return r


class _Later:
    """a context whose verdicts are kept for later"""

    def __init__(self, ctx, said, more):
        self.__dict__.update(_ctx=ctx, _said=said, _more=more)

    def __getattr__(self, n):
        if n in ("proved", "undecided", "violation"):
            return lambda key, text, *a: self._said.append((n, (key, text + self._more) + a))
        return getattr(self._ctx, n)


def _leaves(state, vals):
    """notes what the composition made last leaves in the statics, as constants"""
    p = LAST[0]
    if p is None or p.dead or len(LEFT) >= 5 or callable(vals):
        return
    new = {}
    for k in state:
        t = p.E.val(p.st, p.st.cells[("static", k)])
        if N.symbols(t):
            val = next(iter(vals), {})
            m = {}
            for x in N.symbols(t):
                w = val.get(x.args[0])
                if isinstance(w, bool) or not isinstance(w, (int, float)):
                    return
                m[x] = T.I(w) if isinstance(w, int) else T.F(w)
            t = T.renorm(T.subst(t, m))
        new[k] = t
    if new not in LEFT:
        LEFT.append(new)


def _decide(ctx, key, text, make, expected, vals, pre, must, may, allowed, tol, where, eqv, norm, total, aimed, fixed, admit, patience=100):
    """The composition built by make() yields `expected` for all inputs satisfying pre.

    make() -> (Prog, value term).  It must panic when `must`, may panic only when `may` or `must`
    (may=ANY: wherever it likes, and the value is compared where it does not).  total: what is expected
    where `expected` has no value.
    vals: constants for folding, tried only when the normal forms differ (or a function of the value
    term that yields them).
    """
    ctx.count("obligations over value graphs")
    T.BUDGET[0] = min(time.time() + patience, max(END[0], time.time() + 5))
    try:
        try:
            pr, v = make()
            out = pr.out(v)
            if callable(expected):
                expected = expected(pr)
        except X.Unsup as e:
            ctx.undecided(key, "%s: not modelled: %s" % (text, e))
            return None
        ctx.count("functions inlined", len(pr.E.analysed))
        return verdict(ctx, key, text, out, v, expected, vals, pre, must, may, allowed, tol, where, eqv, norm, total, aimed, fixed, admit)
    except (RecursionError, T.Budget) as e:
        ctx.undecided(key, "%s: %s" % (text, str(e)[:80]))
        return None
    except Exception as e:
        # a construct the analyser trips over is one it cannot decide
        if os.environ.get("SIA_STRICT"):
            raise
        ctx.undecided(key, "%s: analyser: %s: %s" % (text, type(e).__name__, str(e)[:200]))
        return None
    finally:
        T.BUDGET[0] = 0


def spread(v):
    """a sequence, element by element"""
    k, n = T.fresh("k", "nat"), T.length(v)
    with T.under(T.cur().plus(T.lt(k, n))):
        x = T.renorm(T.at(v, k))
    return T.tab(n, T.lam(k, x))


def verdict(ctx, key, text, out, v, expected, vals, pre=(), must=T.FALSE, may=T.FALSE, allowed=(), tol=1e-7, where="", eqv=None, norm=None, total=None, aimed=True, fixed=(), admit=None):
    facts = T.NOFACTS.plus(*pre)
    lax = may is ANY
    if lax:
        may = T.FALSE
    okfacts = facts.plus(T.bnot(must), T.bnot(may))
    if lax and out.state is not None:
        okfacts = okfacts.plus(*out.state.facts.fs)
    why = []
    proved = True
    syms = {x.args[0] for t in list(pre) + [must, may, expected] for x in N.symbols(t)}
    try:
        with T.under(okfacts):
            if v is None:
                proved = False
                why.append("always panics")
            else:
                a, b = T.renorm(v), T.renorm(expected)
                if norm is not None and a is not b:
                    a, b = T.renorm(norm(a)), T.renorm(norm(b))
                if a is not b and not (b is T.TRUE and T.absurd([T.bnot(a)])) and not cases.equal(a, b):
                    proved = False
                    why.append("normal forms differ")
                    _show(key, "value", a)
                    _show(key, "asked", b)
        for pf, cond, kind, span, fn in (() if lax else out.panics):
            fs = okfacts.plus(*pf.fs)
            with T.under(fs):
                c = T.renorm(cond)
            if c is not T.FALSE and not _contradictory(okfacts, pf) and not _never(fs, c):
                proved = False
                why.append("panic edge not excluded: %s at %s" % (kind, span))
                _show(key, "panic", c)
                for f in pf.fs:
                    _show(key, "  under", f)
        if must is not T.FALSE:
            # some panic edge free of loop symbols is taken whenever must holds
            edges = [T.band(*pf.fs, cond) for (pf, cond, _, _, _), snap in zip(out.panics, out.snaps)
                     if (out.initial is None or snap is out.initial) and not any(x.args[0] not in syms for f in list(pf.fs) + [cond] for x in N.symbols(f))]
            with T.under(facts):
                if not T.absurd([must] + [T.bnot(e) for e in edges]):
                    for e in edges:
                        _show(key, "refusal", e)
                    proved = False
                    why.append("refusal not shown")
    except (X.Unsup, RecursionError) as e:
        proved = False
        why.append(str(e))
    if proved:
        ctx.proved(key, text)
        if os.environ.get("SIA_SELF"):
            _selfcheck(key, out, v, expected, vals, pre, must, ANY if lax else may, tol, eqv, total, aimed, fixed, admit)
        return True
    # a difference of normal forms: look for constants that separate the two
    ts = [t for t in ([v] if v is not None else []) + [expected] + [c for _, c, _, _, _ in out.panics]
          for t in [t]] + [f for pf, _, _, _, _ in out.panics for f in pf.fs]
    N.BAD.clear()
    N.BAD.update(pure(ctx, ts, allowed))
    try:
        return _separate(ctx, key, text, out, v, expected, vals, pre, must, may, tol, where, eqv, total, aimed, fixed, admit, lax, ts, why)
    finally:
        N.BAD.clear()


def _never(fs, c):
    with T.under(fs):
        return cases.equal(c, T.FALSE)


def _separate(ctx, key, text, out, v, expected, vals, pre, must, may, tol, where, eqv, total, aimed, fixed, admit, lax, ts, why):
    stuck = None
    tried = 0
    vals = list(vals(v) if callable(vals) else vals)
    begun = time.time()
    for val in vals:
        if time.time() > begun + 90 and (stuck is not None or tried > 20) or time.time() > END[0]:
            break
        try:
            r = _point(out, v, expected, val, pre, must, ANY if lax else may, tol, eqv, total)
        except (N.Stuck, RecursionError) as e:
            stuck = str(e)
            continue
        if r is None:
            continue
        tried += 1
        if r is not True:
            at = ", ".join("%s=%s" % (k, N.brief(x)) for k, x in sorted(val.items()))
            ctx.violation(key, "%s%s: %s; at constants %s" % ((where + ": ") if where else "", text, r, at))
            return False
    r = _history(out, v, expected, vals, pre, must, ANY if lax else may, tol, eqv, total, ts)
    if r is not None:
        ctx.violation(key, "%s%s: %s" % ((where + ": ") if where else "", text, r))
        return False
    farend = min(END[0], time.time() + 15)
    for val in getattr(ctx, "far", ()):
        r = None
        if time.time() < farend:
            try:
                r = _far(out, val, pre, must, ANY if lax else may)
            except (N.Stuck, N.Undef, RecursionError):
                pass
        if r is not None:
            at = ", ".join("%s=%s" % (k, N.brief(x)) for k, x in sorted(val.items()))
            ctx.violation(key, "%s%s: %s; at constants %s" % ((where + ": ") if where else "", text, r, at))
            return False
    if aimed and (stuck is None or tried):
        # constants aimed at the literals of the graph
        sorts = {x.args[0]: x.args[1] for t in ts + list(pre) + [must] + ([] if lax else [may]) for x in N.symbols(t) if x.args[0] not in N.STATE}
        begun = time.time()
        end = begun + min(60, AIMING[0], END[0] - begun)
        mine, asked = [t for t in ts if t is not expected], [expected] + list(pre) + [must, may]
        for k, val in enumerate(itertools.chain(A.met(vals, sorts, mine, asked, pre, rnd("met-" + key), fixed, begun + min(20, end - begun)),
                                                A.around(vals, sorts, mine, asked, rnd("aim-" + key), fixed))):
            if time.time() > end or k > 4 * A.LIMIT + 480:
                break
            if admit is not None and not admit(val):
                continue
            try:
                r = _point(out, v, expected, val, pre, must, ANY if lax else may, tol, eqv, total)
            except (N.Stuck, RecursionError):
                continue
            if r is None:
                continue
            tried += 1
            if r is not True:
                at = ", ".join("%s=%s" % (k, N.brief(x)) for k, x in sorted(val.items()))
                ctx.violation(key, "%s%s: %s; at constants %s" % ((where + ": ") if where else "", text, r, at))
                return False
        AIMING[0] -= time.time() - begun
    ctx.undecided(key, "%s: %s; no separating constants among %d%s" % (text, "; ".join(why[:3]), tried,
                                                                       (" (folding stuck: %s)" % stuck) if stuck else ""))
    return None


def _history(out, v, expected, vals, pre, must, may, tol, eqv, total, ts):
    """statics: the same composition again and again, each call finding what the ones before left behind"""
    mine = {x for t in ts for x in N.symbols(t) if x.args[0] in N.STATE}
    if not mine or out.state is None or not vals:
        return None
    final = {}
    for x in mine:
        t = out.state.cells.get(("static", x.args[0][6:]), x)
        final[x.args[0]] = out.E.val(out.state, t)
    more = {x.args[0] for t in final.values() for x in N.symbols(t) if x.args[0] in N.STATE} - set(final)
    for n in more:
        final[n] = out.E.val(out.state, out.state.cells[("static", n[6:])])
    tests = set()
    for t in ts:
        _tests(t, set(final), tests, set())
    cur = {}
    begun = time.time()
    end = begun + min(40, PAST[0], END[0] - begun)

    def step(val):
        f = N.Fold(dict(val, **cur))
        try:
            return {n: f.ev(t) for n, t in final.items()}
        except N.Undef:
            return None

    def look(val, calls):
        try:
            r = _point(out, v, expected, dict(val, **cur), pre, must, may, tol, eqv, total)
        except (N.Stuck, RecursionError):
            return None
        if r is None or r is True:
            return None
        return "%s; after %d earlier calls, at constants %s" % (r, calls, ", ".join("%s=%s" % (k, N.brief(x)) for k, x in sorted(val.items())))

    usable = []
    calls = 0
    try:
        # different calls, each twice and followed by the first one
        for val in vals[::max(1, len(vals) // 40)]:
            f = N.Fold(val)
            try:
                if not all(f.ev(p) for p in pre):
                    continue
            except (N.Undef, N.Stuck):
                continue
            usable.append(val)
            for w in (val, val, usable[0]):
                if time.time() > end:
                    break
                r = look(w, calls)
                if r:
                    return r
                n = step(w)
                if n is not None:
                    cur = n
                    calls += 1
        # many calls: look again whenever a test of the static alone turns out differently
        cur, calls, seen = {}, 0, set()
        end = time.time() + min(40, PAST[0] - (time.time() - begun))
        while usable and tests and calls < 70000 and time.time() < end:
            f = N.Fold(dict(usable[calls % min(3, len(usable))], **cur))
            k = []
            for t in tests:
                try:
                    k.append(f.ev(t))
                except (N.Undef, N.Stuck):
                    k.append(None)
            if tuple(k) not in seen:
                seen.add(tuple(k))
                for w in vals:
                    if time.time() > end:
                        break
                    r = look(w, calls)
                    if r:
                        return r
            n = step(usable[calls % min(3, len(usable))])
            if n is None or n == cur:
                break
            cur = n
            calls += 1
    except (N.Stuck, RecursionError) as e:
        _show("history", "stuck after %d calls: %s" % (calls, e), v)
    finally:
        PAST[0] -= time.time() - begun
    return None


def _tests(t, names, out, seen):
    """the conditions on statics alone"""
    if t in seen:
        return
    seen.add(t)
    if t.op in T.BOOLOPS:
        ss = {x.args[0] for x in N.symbols(t)}
        if ss and ss <= names and not t.fv:
            out.add(t)
    for a in T.subterms(t):
        _tests(a, names, out, seen)


def _selfcheck(key, out, v, expected, vals, pre, must, may, tol, eqv, total=None, aimed=True, fixed=(), admit=None):
    """the analyser against itself: constant folding has to agree with what the normal forms showed"""
    n = 0
    vals = list(vals(v) if callable(vals) else vals)
    if aimed:
        sorts = {x.args[0]: x.args[1] for t in [v, expected, must] + list(pre) for x in N.symbols(t) if x.args[0] not in N.STATE}
        more = list(A.around(vals, sorts, [], [], rnd("self-" + key), fixed, ([0, 1, 2, 3, 5, 7, 8, 10, 16, 17, 33, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 1024, 4096, 65536, 10 ** 6],
                                                                    [0.0, 0.5, 1.0, 1e-3, 0.1, 2.5, 100.0, 1e6, 255.0, 1e-9, 1e12])))
        more = [m for m in more if admit is None or admit(m)]
        r = rnd("pick-" + key)
        vals += more if len(more) < 800 else r.sample(more, 800)
    end = time.time() + 150
    for val in vals:
        if time.time() > end:
            break
        try:
            r = _point(out, v, expected, val, pre, must, may, tol, eqv, total)
        except (N.Stuck, RecursionError) as e:
            sys.stderr.write("SELF %s: stuck: %s\n" % (key, str(e)[:100]))
            break
        n += r is not None
        if r not in (None, True):
            sys.stderr.write("SELF %s: WRONG: %s\n" % (key, r[:300]))
            break
    sys.stderr.write("SELF %s: %d of %d points\n" % (key, n, len(vals)))


def _show(key, what, t):
    """normal forms on standard error, for work on the analyser itself"""
    if os.environ.get("SIA_SHOW"):
        sys.stderr.write("%s: %s: %s\n" % (key, what, T.show(t)))


def _contradictory(ok, pf):
    """no input satisfies both sets of facts"""
    for f in pf.fs:
        with T.under(ok):
            if T.renorm(f) is T.FALSE:
                return True
    both = ok.plus(*pf.fs)
    for f in list(pf.fs) + list(ok.fs):
        if T.bnot(f) in both.fs:
            return True
        if f.op == "ge0":
            with T.under(both):
                if T.prove_ge0(T.sub(T.neg(f.args[0]), T.I(1))):
                    return True
    return False


def _consistent(f, val):
    """the declared sizes of the symbols hold for these constants"""
    for decl in (T.SYMLEN, T.LEAFDIM):
        for x, want in list(decl.items()):
            if x.op != "sym" or x.args[0] not in val:
                continue
            for a, b in zip(_raw_size(val[x.args[0]], decl is T.LEAFDIM), [want] if decl is T.SYMLEN else want):
                try:
                    if a is not None and f.ev(b) != a:
                        return False
                except (N.Undef, N.Stuck):
                    pass
    return True


def _raw_size(x, matrix):
    """the sizes of a constant: one length, or rows and columns"""
    if matrix:
        return [x.r, x.c] if isinstance(x, N.Mat) else [None, None]
    n = getattr(x, "n", None)
    return [n if isinstance(n, int) else len(x) if isinstance(x, (list, tuple, bytes)) else None]


def _point(out, v, expected, val, pre, must, may, tol, eqv, total=None):
    f = N.Fold(val)
    if not _consistent(f, val):
        return None
    try:
        for p in pre:
            if not f.ev(p):
                return None
        mustp = f.ev(must)
        mayp = may is ANY or f.ev(may)
    except N.Undef:
        return None
    p = panics_at(out, val)
    if mustp:
        if not p and v is not None:
            return "goes on where it must refuse"
        if out.initial is not None and not _untouched(out, val):
            return "refuses only after a first change"
        return True
    if p or v is None:
        if mayp:
            return True
        return "panics (%s at %s)" % (p[0], p[1]) if p else "always panics"
    try:
        want = f.ev(expected)
        N.ser(want, [])
    except N.Undef:
        if total is None:
            return None
        want = total
    try:
        got = f.ev(v)
        N.ser(got, [])
    except N.Undef as e:
        return None if mayp else "has no value there (%s)" % e
    if eqv is not None:
        r = eqv(got, want)
    else:
        r = N.same(got, want, tol)
    if r:
        return True
    return "yields %s instead of %s" % (N.brief(got), N.brief(want))


def _far(out, val, pre, must, may):
    """as _point, for objects too large to be folded whole: only panics are looked for"""
    f = N.Fold(val)
    if not _consistent(f, val) or not all(f.ev(p) for p in pre) or f.ev(must) or may is ANY or f.ev(may):
        return None
    N.LIMIT[0] = 20000
    try:
        p = panics_at(out, val)
    finally:
        N.LIMIT[0] = N.LIMIT0
    if p:
        return "panics (%s at %s)" % (p[0], p[1])
    return None


def _untouched(out, val):
    """some panic edge is taken (in the first round of its loops, if any) with the watched cell as it was"""
    for (pf, cond, _, _, _), snap in zip(out.panics, out.snaps):
        ts = list(pf.fs) + [cond, snap]
        v2 = dict(val)
        for t in ts:
            for x in N.symbols(t):
                if x.args[0] not in N.STATE:
                    v2.setdefault(x.args[0], 0)
        f = N.Fold(v2)
        try:
            if all(f.ev(t) for t in ts[:-1]) and N.same(f.ev(snap), f.ev(out.initial)):
                return True
        except N.Undef:
            pass
    return False


# ---------------------------------------------------------------- constants

def rnd(seed):
    return random.Random("sia-%s" % seed)


def ints(r, ty, n):
    lo, hi = T.INTR[ty]
    corners = [lo, hi, 0, 1, lo + 1, hi - 1, 255 if hi >= 255 else hi, 256 if hi > 256 else hi]
    return [corners[k] if k < len(corners) and r.random() < 0.5 else r.randint(lo, hi) for k in range(n)]


def seq(xs):
    return N.Seq.of(list(xs))


def lazy(n, f):
    return N.Seq(n, f)
