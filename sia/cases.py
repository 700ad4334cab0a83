"""Equality of two terms by cases.

Where two terms are not written alike after normalisation, they still agree if they agree in every case of a
closed boolean they contain, for every value of a small residue they contain, componentwise, or, for sequences and
matrices, in their lengths and at every index.  Cases the facts exclude are dropped.  Everything stays symbolic:
a case adds a fact and both terms are normalised again under it.
"""
import time

from . import terms as T

SEQ = {"list", "tab", "cat", "flat", "slice", "store"}
MAT = {"mat", "store2", "paste", "submat"}
SPENT = [0.0]
ALLOWANCE = 100
PATIENCE = 10


class _Over(Exception):
    pass


class _Search:
    def __init__(self, seconds):
        self.end = time.time() + seconds
        self.nodes = 0

    def tick(self):
        self.nodes += 1
        if self.nodes > 3000 or time.time() > self.end:
            raise _Over()

    def equal(self, a, b, depth):
        self.tick()
        if a is b:
            return True
        if depth < 0:
            return False
        for x, y in ((a, b), (b, a)):
            if x is T.TRUE and T.absurd([T.bnot(y)]) or x is T.FALSE and T.absurd([y]):
                return True
        if a.op in T.BOOLOPS and b.op in T.BOOLOPS and T.absurd([a, T.bnot(b)]) and T.absurd([b, T.bnot(a)]):
            return True
        r = self.parts(a, b, depth)
        if r is not None:
            return r
        import os
        if os.environ.get("SIA_CASES"):
            print("CASE", depth, a.op, b.op, repr(a)[:300], " ||| ", repr(b)[:300], flush=True)
        for c in self.splits(a, b):
            return all(self.case(a, b, f, m, depth - 1) for f, m in c)
        return False

    def case(self, a, b, fact, mapping, depth):
        self.tick()
        if fact is T.FALSE or T.absurd([fact]):
            return True
        with T.under(T.cur().plus(fact)):
            if mapping:
                a, b = T.subst(a, mapping), T.subst(b, mapping)
            return self.equal(T.renorm(a), T.renorm(b), depth)

    def parts(self, a, b, depth):
        """componentwise; None when the shapes say nothing"""
        if a.op == b.op == "tup" and len(a.args[0]) == len(b.args[0]):
            return all(self.equal(x, y, depth) for x, y in zip(a.args[0], b.args[0]))
        if a.op == b.op == "ctor" and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]):
            return all(self.equal(x, y, depth) for x, y in zip(a.args[1], b.args[1]))
        if (a.op in SEQ or b.op in SEQ) and not {a.op, b.op} & {"ite"}:
            n, m = T.renorm(T.length(a)), T.renorm(T.length(b))
            if not (n is m or T.absurd([T.bnot(T.eq(n, m))]) or self.equal(n, m, depth - 1)):
                return False
            k = T.fresh("k", "nat")
            with T.under(T.cur().plus(T.lt(k, n))):
                x, y = T.renorm(T.at(a, k)), T.renorm(T.at(b, k))
                if x.op == "at" and y.op == "at" and x.args[0] is a and y.args[0] is b:
                    return False
                return self.equal(x, y, depth - 1)
        if a.op in MAT and b.op in MAT:
            for f in (T.rows, T.cols):
                n, m = T.renorm(f(a)), T.renorm(f(b))
                if not (n is m or self.equal(n, m, depth - 1)):
                    return False
            i, j = T.fresh("i", "nat"), T.fresh("j", "nat")
            with T.under(T.cur().plus(T.lt(i, T.rows(a)), T.lt(j, T.cols(a)))):
                x, y = T.renorm(T.at2(a, i, j)), T.renorm(T.at2(b, i, j))
                if x.op == "at2" and x.args[0] is a or y.op == "at2" and y.args[0] is b:
                    return False
                return self.equal(x, y, depth - 1)
        if a.op == b.op and a.op in ("app", "at", "fld", "fadd", "fsub", "fmul", "fdiv", "fneg", "fn", "i2f", "at2", "f2i", "word") and len(a.args) == len(b.args):
            if all(x is y or x == y if not (isinstance(x, T.T) and isinstance(y, T.T)) else self.like(x, y, depth - 1) for x, y in zip(a.args, b.args)):
                return True
        return None

    def like(self, x, y, depth):
        if x.op == "lam" or y.op == "lam" or x.fv or y.fv:
            return x is y
        return self.equal(x, y, depth)

    def splits(self, a, b):
        """case distinctions: lists of (fact, replacements)"""
        mine, theirs = _inside(a), _inside(b)
        both = mine & theirs
        odd = sorted((mine | theirs) - both, key=lambda t: t.id)
        res = {}
        deciding = set(odd)
        for t in odd:
            if t.op in T.BOOLOPS:
                deciding |= _inside(t)
        for t in sorted(deciding, key=lambda t: t.id):
            if t.fv or t.op not in ("imod", "bit") or not T.is_int(t.args[1]):
                continue
            k = t.args[1].args[0]
            if t.op == "imod" and 1 < k <= 8 or t.op == "bit" and 0 <= k <= 2 and T._intish(t.args[0]):
                x = t.args[0]
                d = T._poly(x).get((), 0)
                res.setdefault(T.sub(x, T.I(d)), []).append((t, d, k if t.op == "imod" else 2 << k))
        for x, ts in sorted(res.items(), key=lambda kv: kv[0].id):
            m = max(k for _, _, k in ts)
            if any(m % k for _, _, k in ts) or T.is_int(x):
                continue
            yield [(T.eq(T.imod(x, T.I(m)), T.I(c)),
                    {t: T.I((c + d) % k) if t.op == "imod" else T.B((c + d) % k >= k // 2) for t, d, k in ts}) for c in range(m)]
            return
        for t in (a, b):
            if t.op == "ite" and not t.args[0].fv:
                yield self.boolean(t.args[0])
                return
        conds = [t.args[0] for t in odd if t.op == "ite" and not t.args[0].fv]
        conds += [t for t in odd if t.op in T.BOOLOPS and t.op != "bool" and not t.fv]
        for c in conds:
            yield self.boolean(c)
            return

    def boolean(self, c):
        while c.op in ("and", "or", "not"):
            c = c.args[0] if c.op == "not" else c.args[0][0]
        return [(c, {c: T.TRUE}), (T.bnot(c), {c: T.FALSE})]


def _inside(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += T.subterms(x)
    return out


def equal(a, b):
    """a and b (normalised under the current facts) agree under the current facts"""
    if SPENT[0] > ALLOWANCE:
        return False
    begun = time.time()
    try:
        return _Search(PATIENCE).equal(a, b, 12)
    except (_Over, RecursionError):
        return False
    finally:
        SPENT[0] += time.time() - begun
