"""Termination rules (C25): every loop advances state its exit test depends on, in the direction
of the exit, and tests it on every round; iterators are finite; recursion descends to a bound."""
import time

from .. import ends, facts, prog
from .. import terms as T

TECHNIQUE = {"C25": "Loop-progress analysis on the MIR control-flow graph: exit tests, loop-carried state, direction of travel, finite "
                    "iterator types, and descent of recursive calls."}
ASSUME = {"C25": ["library iterators over collections, ranges and views are finite; library calls return",
                  "arithmetic overflow panics (ends the operation) rather than wrapping"]}

INFINITE = ("core::ops::range::RangeFrom", "core::iter::adapters::cycle::Cycle", "core::iter::sources::repeat::Repeat",
            "core::iter::sources::repeat_with::RepeatWith", "core::range::RangeFrom")
UNKNOWN = ("core::iter::sources::successors::Successors", "core::iter::sources::from_fn::FromFn")
LIMITERS = ("core::iter::adapters::take::Take", )
CONSUMERS = {"collect", "count", "fold", "for_each", "last", "sum", "product", "max", "min", "max_by", "min_by", "max_by_key",
             "min_by_key", "partition", "unzip", "reduce", "extend", "from_iter", "eq", "cmp", "lt", "le", "rev"}


def infinite(t, depth=0):
    """is an iterator of this type certainly endless?"""
    if t is None or depth > 12:
        return False
    if t["k"] in ("ref", "ptr"):
        return infinite(t["to"], depth + 1)
    if t["k"] != "adt":
        return False
    p = t["path"]
    if p in INFINITE:
        return True
    if p in LIMITERS or p.endswith("::TakeWhile") or p.endswith("::MapWhile") or p.endswith("::Scan"):
        return False
    if p.endswith("::zip::Zip"):
        return all(infinite(a, depth + 1) for a in t["args"][:2])
    if p.endswith("::chain::Chain"):
        return any(infinite(a, depth + 1) for a in t["args"][:2])
    if p.startswith("core::iter::adapters::"):
        return bool(t["args"]) and infinite(t["args"][0], depth + 1)
    return False


def optype(b, op):
    if op[0] in ("copy", "move"):
        t = b.locals[op[1][0]]
        for e in op[1][1]:
            if e[0] == "deref" and t["k"] in ("ref", "ptr"):
                t = t["to"]
            elif e[0] == "field":
                t = e[2]
            else:
                return None
        return t
    return op[1].get("ty")


class Cfg:
    def __init__(self, b):
        self.b = b
        self.live = {i for i in b.live_blocks() if b.blocks[i]["t"][0] != "unreachable"}
        self.succ = {i: [s for s in b.succs(i) if s is not None and s in self.live] for i in self.live}
        self.pred = {i: [] for i in self.live}
        for i, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(i)
        # definitions of each local: (block, kind, payload)
        self.defs = {}
        self.mutrefs = {}      # local -> set of roots it may mutably point to
        for i in self.live:
            x = b.blocks[i]
            for s in x["st"]:
                if s[0] == "assign":
                    self.defs.setdefault(s[1][0], []).append((i, "st", s))
                    rv = s[2]
                    if rv[0] in ("ref", "rawptr") and not s[1][1]:
                        pl = rv[-1] if rv[0] == "ref" else rv[1]
                        if rv[0] == "rawptr" or rv[1]:
                            self.mutrefs.setdefault(s[1][0], set()).add(pl[0])
                    elif rv[0] in ("use", "cast") and not s[1][1]:
                        o = rv[1] if rv[0] == "use" else rv[2]
                        if o[0] in ("copy", "move") and not o[1][1]:
                            self.mutrefs.setdefault(s[1][0], set()).add(("alias", o[1][0]))
                    elif rv[0] in ("closure", "adt", "tuple", "array"):
                        # an aggregate holding mutable references gives access to what they point to
                        for l in locals_in(rv):
                            self.mutrefs.setdefault(s[1][0], set()).add(("alias", l))
            t = x["t"]
            if t[0] == "call":
                self.defs.setdefault(t[3][0], []).append((i, "call", t))

    def roots(self, l, seen=None):
        """locals a (mutable) reference may lead to, itself included"""
        seen = set() if seen is None else seen
        if l in seen:
            return seen
        seen.add(l)
        for r in self.mutrefs.get(l, ()):
            self.roots(r[1] if isinstance(r, tuple) else r, seen)
        return seen

    def sccs(self, nodes, succ):
        idx, low, on, st, out = {}, {}, set(), [], []
        cnt = [0]

        def go(v):
            work = [(v, iter([s for s in succ[v] if s in nodes]))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            while work:
                n, it = work[-1]
                adv = False
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = cnt[0]
                        cnt[0] += 1
                        st.append(s)
                        on.add(s)
                        work.append((s, iter([q for q in succ[s] if q in nodes])))
                        adv = True
                        break
                    if s in on:
                        low[n] = min(low[n], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    c = set()
                    while True:
                        q = st.pop()
                        on.discard(q)
                        c.add(q)
                        if q == n:
                            break
                    if len(c) > 1 or n in succ[n]:
                        out.append(c)
        for v in sorted(nodes):
            if v not in idx:
                go(v)
        return out

    def loops(self):
        """all loops (header, blocks), outer before inner"""
        out = []

        def rec(nodes):
            for c in self.sccs(nodes, self.succ):
                heads = [n for n in c if any(p not in c for p in self.pred[n])] or [min(c)]
                h = sorted(heads)[0]
                out.append((h, c))
                rec(c - {h})
        rec(set(self.live))
        return out


def locals_in(o, out=None):
    """locals of the operands / places below a JSON node"""
    out = set() if out is None else out
    if isinstance(o, list):
        if len(o) == 2 and isinstance(o[0], int) and not isinstance(o[0], bool) and isinstance(o[1], list) and all(
                isinstance(e, list) and e and isinstance(e[0], str) for e in o[1]):
            out.add(o[0])
            for e in o[1]:
                if e[0] == "index":
                    out.add(e[1])
            return out
        for x in o:
            locals_in(x, out)
    return out


def uses_of(kind, d):
    if kind == "st":
        u = locals_in(d[2][1:]) if d[2][0] not in ("array", "repeat") else locals_in(d[2])
        u |= {e[1] for e in d[1][1] if e[0] == "index"}
        if d[1][1]:
            u.add(d[1][0])
        return u
    return locals_in(d[2]) | locals_in(d[1])


def back_slice(c, l, blocks, seen=None):
    """locals whose values inside the loop may determine local l"""
    seen = set() if seen is None else seen
    st = [l]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for bb, k, d in c.defs.get(x, ()):
            if bb in blocks:
                st.extend(uses_of(k, d))
    return seen


def resolve(c, op, blocks, depth=0):
    """follow copies of an operand inside the loop: a local, or ('const', value)"""
    if op[0] == "const":
        v = op[1].get("int", op[1].get("float"))
        try:
            return ("const", float(v) if "float" in op[1] else int(v))
        except (TypeError, ValueError):
            return None
    if op[1][1]:
        # (checked op).0
        l = op[1][0]
        if len(op[1][1]) == 1 and op[1][1][0][0] == "field" and op[1][1][0][1] == 0:
            ds = [d for d in c.defs.get(l, ())]
            if len(ds) == 1 and ds[0][1] == "st" and ds[0][2][2][0] == "bin":
                return ("local", l)
        return None
    l = op[1][0]
    ds = c.defs.get(l, [])
    ins = [d for d in ds if d[0] in blocks]
    if len(ds) == 1 and len(ins) == 1 and depth < 8 and ins[0][1] == "st":
        rv = ins[0][2][2]
        if rv[0] == "use" and not ins[0][2][1][1]:
            r = resolve(c, rv[1], blocks, depth + 1)
            if r is not None:
                return r
    return ("local", l)


def path_round(h, blocks, succ, avoid):
    """is there a cycle through h inside the loop that avoids the given blocks?"""
    if h in avoid:
        return False
    seen, st = set(), [s for s in succ[h] if s in blocks and s not in avoid]
    while st:
        x = st.pop()
        if x == h:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(s for s in succ[x] if s in blocks and s not in avoid)
    return False


def specialisations(c, h, blocks):
    """one successor map per valuation of the loop-invariant booleans the loop branches on"""
    keys = {}
    for i in blocks:
        t = c.b.blocks[i]["t"]
        if t[0] != "switch" or t[4].get("k") != "bool":
            continue
        r = resolve(c, t[1], blocks)
        if r and r[0] == "local" and not any(d[0] in blocks for d in c.defs.get(r[1], ())) and (
                c.b.locals[r[1]].get("k") == "bool") and len(set(c.succ[i])) > 1 and all(s in blocks for s in c.succ[i]):
            keys.setdefault(r[1], []).append(i)
    maps = [dict(c.succ)]
    for l, bs in list(keys.items())[:4]:
        new = []
        for m in maps:
            for val in (0, 1):
                m2 = dict(m)
                for i in bs:
                    t = c.b.blocks[i]["t"]
                    tg = next((b for v, b in t[2] if v == val), t[3])
                    m2[i] = [tg]
                new.append(m2)
        maps = new
    return maps


def step_of(c, l, d, blocks):
    """constant added to l by a definition, None if not of that form"""
    bb, k, s = d
    if k != "st" or s[1][1]:
        return None
    rv = s[2]
    neg = 1

    def bin_of(rv):
        return rv if rv[0] == "bin" else None
    x = bin_of(rv)
    if x is None and rv[0] == "use" and rv[1][0] in ("copy", "move"):
        pl = rv[1][1]
        t = pl[0]
        ds = c.defs.get(t, [])
        if len(ds) == 1 and ds[0][1] == "st":
            x = bin_of(ds[0][2][2])
    if x is None:
        return None
    op = x[1]
    a, b2 = resolve(c, x[2], blocks), resolve(c, x[3], blocks)
    if op.startswith("Add"):
        if a == ("local", l) and b2 and b2[0] == "const":
            return b2[1]
        if b2 == ("local", l) and a and a[0] == "const":
            return a[1]
    if op.startswith("Sub") and a == ("local", l) and b2 and b2[0] == "const":
        return -b2[1]
    return None


def check_loop(c, h, blocks, P):
    """(verdict, text, key)"""
    b = c.b
    where = "%s, loop at %s" % (b.friendly, b.blocks[h]["sp"])
    res = []
    for succ in specialisations(c, h, blocks):
        # blocks of this specialisation that are on a cycle through h
        reach = set()
        st = [h]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(s for s in succ[x] if s in blocks)
        if not path_round(h, reach, succ, set()):
            continue
        exits = []
        for i in reach:
            t = b.blocks[i]["t"]
            if t[0] == "switch" and any(s not in blocks for s in succ[i]):
                exits.append(i)
            elif t[0] == "goto" and any(s not in blocks for s in succ[i]):
                exits.append(i)
        if not exits:
            return ("refuted", where + ": no exit", "noexit")
        useful, prog_blocks, why = [], set(), []
        for e in exits:
            t = b.blocks[e]["t"]
            if t[0] != "switch":
                continue
            if t[1][0] == "const":
                continue
            l = t[1][1][0]
            sl = back_slice(c, l, reach)
            # an endless iterator never takes its exit
            endless = False
            for x in sl:
                for bb, k, d in c.defs.get(x, ()):
                    if k == "call" and bb in reach:
                        f = d[1][1].get("fn") if d[1][0] == "const" else None
                        if f and f["name"] == "next" and d[2]:
                            ty = optype(b, d[2][0])
                            if infinite(ty):
                                endless = True
            if endless:
                why.append("the iterator driven at %s is endless" % b.blocks[e]["sp"])
                continue
            full = set()
            for x in sl:
                full |= c.roots(x)
            carried = {x for x in full if x <= b.argc and x > 0 or any(bb not in reach for bb, _, _ in c.defs.get(x, ()))}
            M = set()
            for x in carried:
                for bb, k, d in c.defs.get(x, ()):
                    if bb in reach:
                        M.add(bb)
            # modification through references
            for bb in reach:
                for s in b.blocks[bb]["st"]:
                    if s[0] == "assign" and s[1][1] and any(el[0] == "deref" for el in s[1][1]):
                        if c.roots(s[1][0]) & carried:
                            M.add(bb)
                t2 = b.blocks[bb]["t"]
                if t2[0] == "call":
                    for a in t2[2]:
                        if a[0] in ("copy", "move"):
                            ty = b.locals[a[1][0]]
                            if (ty["k"] in ("ref", "ptr") and ty.get("mut")) or ty["k"] in ("closure", "adt"):
                                rs = c.roots(a[1][0])
                                # a mutable reference, or something that contains one
                                if ty["k"] in ("ref", "ptr"):
                                    if rs & carried:
                                        M.add(bb)
                                elif (rs - {a[1][0]}) & carried:
                                    M.add(bb)
            if not M:
                why.append("the exit test at %s depends on nothing the loop changes" % b.blocks[e]["sp"])
                continue
            d = direction(c, e, reach, blocks, succ, h)
            if d:
                why.append(d)
                continue
            useful.append(e)
            prog_blocks |= M
        if not useful:
            return ("refuted", where + ": " + "; ".join(why or ["no exit test"]), "noprogress")
        if path_round(h, reach, succ, set(useful)):
            return ("refuted", where + ": a round can pass without reaching an exit test that can ever be taken" + (
                (" (" + "; ".join(why) + ")") if why else ""), "untested")
        if path_round(h, reach, succ, prog_blocks):
            return ("refuted", where + ": a round can pass without changing anything the exit test depends on", "stuck")
        res.append(len(useful))
    return ("proved", where, "")


NEG = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def direction(c, e, reach, blocks, succ, h):
    """text when the tested counter certainly moves away from (or over) its bound"""
    b = c.b
    t = b.blocks[e]["t"]
    if t[1][0] == "const" or t[1][1][1]:
        return None
    l = t[1][1][0]
    cond = None
    inner = [d for d in c.defs.get(l, ()) if d[0] in reach]
    if t[4].get("k") == "bool" and len(c.defs.get(l, [])) == 1 and len(inner) == 1 and inner[0][1] == "st" and inner[0][2][2][0] == "bin":
        op, x, y = inner[0][2][2][1:4]
        if op not in NEG:
            return None
        out = [v for v, tg in t[2] if tg not in blocks]
        other_out = t[3] not in blocks
        if out == [0] and not other_out:
            op = NEG[op]
        elif not (other_out and not out):
            return None
        cond = (op, resolve(c, x, reach), resolve(c, y, reach))
    elif t[4].get("k") == "int":
        out = [v for v, tg in t[2] if tg not in blocks]
        if len(out) == 1 and t[3] in blocks:
            cond = ("Eq", resolve(c, t[1], reach), ("const", out[0]))
    if cond is None or cond[1] is None or cond[2] is None:
        return None
    op, x, y = cond
    for op, v, bd in ((op, x, y), (SWAP[op], y, x)):
        if v[0] != "local":
            continue
        ds = [d for d in c.defs.get(v[1], ()) if d[0] in reach]
        if not ds:
            continue
        steps = [step_of(c, v[1], d, reach) for d in ds]
        if any(s is None or s == 0 for s in steps):
            if any(s == 0 for s in steps):
                return "the counter tested at %s is never advanced" % b.blocks[e]["sp"]
            return None
        up = all(s > 0 for s in steps)
        down = all(s < 0 for s in steps)
        if bd[0] == "local":
            bs = back_slice(c, bd[1], reach)
            if any(dd[0] in reach and x2 in carried_locals(c, reach) for x2 in bs for dd in c.defs.get(x2, ())):
                return None
        sp = b.blocks[e]["sp"]
        if op in ("Ge", "Gt") and down:
            return "the counter tested at %s only decreases but the loop ends when it is large" % sp
        if op in ("Le", "Lt") and up:
            return "the counter tested at %s only increases but the loop ends when it is small" % sp
        if op == "Eq":
            init = [d for d in c.defs.get(v[1], ()) if d[0] not in reach]
            i0 = [resolve(c, d[2][2][1], set()) for d in init if d[1] == "st" and d[2][2][0] == "use" and not d[2][1][1]]
            i0 = i0[0][1] if len(i0) == 1 and len(init) == 1 and i0[0] and i0[0][0] == "const" else None
            if bd[0] == "const":
                k = bd[1]
                if k == 0 and up:
                    return "the counter tested at %s only increases but the loop ends when it is 0" % sp
                if i0 is not None and (up or down) and len(set(steps)) == 1:
                    if (k - i0) % abs(steps[0]) or (k - i0) * steps[0] < 0:
                        return "the counter tested at %s steps past its bound" % sp
            else:
                if (up or down) and any(abs(s) > 1 for s in steps):
                    return "the counter tested at %s can step over its bound" % sp
                if down and i0 == 0:
                    return "the counter tested at %s decreases from 0 but the loop ends at a positive bound" % sp
    return None


STD = ("core::", "alloc::", "std::", "ndarray::", "bitvec::", "image::", "bytes::", "hashbrown::")


def finite(t, depth=0):
    """an iterator of this type certainly ends: library iterators over collections and ranges, and adaptors of those"""
    if t is None or depth > 14:
        return False
    if t["k"] in ("ref", "ptr"):
        return finite(t["to"], depth + 1)
    if t["k"] != "adt":
        return t["k"] in ("int", "float", "bool", "char", "closure", "fndef", "tuple", "slice", "str", "array", "fnptr")
    p = t["path"]
    if p in INFINITE or p in UNKNOWN:
        return False
    if p in LIMITERS:
        return not t["args"] or finite(t["args"][0], depth + 1) or infinite(t["args"][0], depth + 1)
    if p.endswith("::zip::Zip"):
        return any(finite(a, depth + 1) for a in t["args"][:2])
    if p.startswith("core::iter::"):
        return all(finite(a, depth + 1) for a in t["args"][:2])
    return p.startswith(STD)


def walks(c, h, blocks):
    """every round takes the next item of a finite iterator, and the loop is left when there is none"""
    b = c.b
    for e in blocks:
        t = b.blocks[e]["t"]
        if t[0] != "switch" or t[1][0] == "const" or t[1][1][1] or path_round(h, blocks, c.succ, {e}):
            continue
        if [v for v, tg in t[2] if tg not in blocks] != [0] and not (t[3] not in blocks and [v for v, _ in t[2]] == [1]):
            continue
        ds = c.defs.get(t[1][1][0], ())
        if len(ds) != 1 or ds[0][1] != "st" or ds[0][2][2][0] != "discr" or ds[0][2][2][1][1]:
            continue
        cs = c.defs.get(ds[0][2][2][1][0], ())
        if len(cs) != 1 or cs[0][1] != "call" or cs[0][0] not in blocks:
            continue
        call = cs[0][2]
        f = call[1][1].get("fn") if call[1][0] == "const" else None
        if not f or f["name"] != "next" or not f.get("trait", "").endswith("Iterator") or not call[2] or not finite(optype(b, call[2][0])):
            continue
        if call[2][0][0] == "const" or call[2][0][1][1]:
            continue
        rs = c.roots(call[2][0][1][0])
        if any(bb in blocks and b.locals[x]["k"] == "adt" and not (k == "call" and d is call) for x in rs for bb, k, d in c.defs.get(x, ())):
            continue
        return True
    return False


def carried_locals(c, reach):
    return {x for x, ds in c.defs.items() if any(d[0] in reach for d in ds) and (
        x <= c.b.argc or any(d[0] not in reach for d in ds))}


# ------------------------------------------------------------------------------ recursion

def dominators(c):
    nodes = sorted(c.live)
    dom = {n: set(nodes) for n in nodes}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for n in nodes:
            if n == 0:
                continue
            ps = [dom[p] for p in c.pred[n]]
            d = set.intersection(*ps) if ps else set()
            d = d | {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    return dom


def reaches(c, a, b, avoid=()):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x in avoid:
            continue
        seen.add(x)
        st.extend(c.succ[x])
    return False


def recursion_sites(P):
    """direct and mutual recursion between local bodies: (body, call, cycle)"""
    g = P.callgraph()
    out = []
    for b in P.fns():
        for c in b.calls():
            if c.fn is None:
                continue
            k = c.fn.get("reskey") or c.fn["key"]
            if k in P.bodies:
                if k == b.key:
                    out.append((b, c, True))
                elif b.key in P.reach([k]):
                    out.append((b, c, False))
    return out


def expr_dec(c, op, p, depth=0):
    """operand = parameter p minus a positive constant (or divided): 'dec'; equal: 'same'; else None"""
    if op[0] == "const" or depth > 10:
        return None
    if op[1][1] and not (len(op[1][1]) == 1 and op[1][1][0][0] == "field" and op[1][1][0][1] == 0):
        return None
    l = op[1][0]
    if l == p and not op[1][1]:
        return "same"
    ds = c.defs.get(l, [])
    if len(ds) != 1 or ds[0][1] != "st":
        return None
    rv = ds[0][2][2]
    if rv[0] == "use":
        return expr_dec(c, rv[1], p, depth + 1)
    if rv[0] == "bin":
        a = expr_dec(c, rv[2], p, depth + 1)
        k = rv[3][1].get("int", rv[3][1].get("float")) if rv[3][0] == "const" else None
        if a is None:
            return None
        if k is not None:
            k = float(k)
            if rv[1].startswith("Sub"):
                return "dec" if k > 0 else ("same" if k == 0 and a == "same" else "other")
            if rv[1].startswith("Add"):
                return "dec" if k < 0 else ("same" if k == 0 and a == "same" else "other")
            if rv[1].startswith(("Div", "Shr")) and k > 1:
                return "dec"
        return "other"
    return None


def bounded_below(c, call, p, dom, int_unsigned):
    """a test on the way to the call that excludes everything below a bound for parameter p"""
    for d in dom[call.bb]:
        t = c.b.blocks[d]["t"]
        if t[0] != "switch" or t[1][0] == "const":
            continue
        l = t[1][1][0]
        sl = back_slice(c, l, c.live)
        if p not in sl:
            continue
        arms = [(v, tg) for v, tg in t[2]] + [(None, t[3])]
        takes = [v for v, tg in arms if tg == call.bb or reaches(c, tg, call.bb, {d})]
        if t[4].get("k") == "int":
            if int_unsigned and 0 not in takes:
                return True
            if None not in takes and takes:
                return True
            continue
        if t[4].get("k") != "bool" or len(takes) != 1:
            continue
        val = takes[0] != 0
        ds = c.defs.get(l, [])
        if len(ds) != 1:
            continue
        if ds[0][1] == "call":
            f = ds[0][2][1][1].get("fn", {})
            n = f.get("name")
            if (n in ("is_sign_negative", "is_negative", "lt", "le", "is_empty") and not val) or (n in ("gt", "ge", "is_sign_positive", "is_positive") and val):
                return True
            continue
        rv = ds[0][2][2]
        if rv[0] == "un" and rv[1] == "Not":
            continue
        if rv[0] != "bin" or rv[1] not in NEG:
            continue
        op = rv[1] if val else NEG[rv[1]]
        left = rv[2][0] != "const" and p in back_slice(c, rv[2][1][0], c.live)
        if not left:
            op = SWAP[op]
        if op in ("Ge", "Gt"):
            return True
        if op == "Ne" and int_unsigned:
            return True
    return False


class Rounds:
    """loops met when functions are executed over terms: the function of the loop, or else what calls it"""
    # what the statement leaves out: a transform of no levels at all
    PRE = {"embedding::haar::dwt_2d": lambda a: T.ge0(T.sub(a[1], T.I(1)))}

    def __init__(self, ctx):
        self.ctx, self.seen = ctx, {}
        self.callers = {}
        for k, ss in ctx.P.callgraph().items():
            for x in ss:
                self.callers.setdefault(x, set()).add(k)
        self.end = time.time() + 240

    def of(self, b, h):
        """(closed form known: True / False / None, how it never ends, why not known)"""
        name = "%s:bb%d" % (b.friendly, h)
        todo, done, met, why = [b.key], set(), None, None
        for _ in range(7):
            nxt = []
            for k in todo:
                if k in done:
                    continue
                done.add(k)
                x = self.ctx.P.bodies[k]
                if x.kind == "fn" and time.time() < self.end:
                    r = self.run(x)
                    for n, text in r[1]:
                        if n == name:
                            return False, text, None
                    if name in r[0]:
                        if r[0][name]:
                            return True, None, None
                        met = False
                    why = why or r[2]
                nxt += sorted(self.callers.get(k, ()))
            if met is not None:
                break
            todo = nxt
        return met, None, why

    def run(self, x):
        if x.key not in self.seen:
            try:
                self.seen[x.key] = ends.loops_of(self.ctx, x, self.end, pre=self.PRE.get(x.friendly))
            except RecursionError as e:
                self.seen[x.key] = ({}, [], str(e))
        return self.seen[x.key]


def c25(ctx):
    P = ctx.P
    ctx.rule("every loop: each way round passes an exit test that depends on loop-carried state; each way round changes that state; a counter "
             "never moves away from, or steps over, its bound; endless iterators are never driven or consumed")
    ctx.rule("every recursive call passes a strictly smaller argument and is reached only above a tested lower bound")
    PF = prog.load(facts.ensure_fixture())
    fx = 0
    for b in PF.fns():
        c = Cfg(b)
        for h, bl in c.loops():
            if check_loop(c, h, bl, PF)[0] == "refuted":
                fx += 1
        fx += len(endless_consumers(b))
    if fx < 2:
        ctx.violation("fixture:endless", "the loop rules no longer match their positive examples (%d of 2)" % fx)
    ctx.count("positive examples matched", fx)
    nl = 0
    rounds = Rounds(ctx)
    for b in P.fns():
        if b.crate == "web" and b.expanded:
            continue
        c = Cfg(b)
        per = 0
        for h, bl in c.loops():
            nl += 1
            per += 1
            v, text, k = check_loop(c, h, bl, P)
            key = "loop:%s:%d" % (b.friendly, per)
            if v == "proved" and walks(c, h, bl):
                ctx.proved(key, text + ": walks a finite iterator")
                continue
            if v != "proved" and k in ("noexit", "noprogress", "untested"):
                ctx.violation(key + ":" + k, text)
                continue
            counted, bad, why = rounds.of(b, h)
            if bad:
                ctx.violation(key + ":circles", "%s: %s" % (text.split(": a round")[0], bad))
            elif counted:
                ctx.proved(key, text.split(": a round")[0] + ": the number of rounds has a closed form")
            elif v != "proved" and counted is None:
                ctx.violation(key + ":" + k, text)
            else:
                ctx.undecided(key, "%s: no bound of the number of rounds (%s)" % (text, why or "no closed form"))
        for call, t in endless_consumers(b):
            ctx.violation("endless:%s:%s" % (b.friendly, call.name), "%s at %s consumes an endless iterator (%s)" % (b.friendly, call.span, prog.tystr(t)))
    ctx.count("loops analysed", nl)
    ctx.floor("bodies scanned", len(P.fns()), 100)
    for b, call, direct in recursion_sites(P):
        if b.crate == "web" and b.expanded:
            continue
        c = Cfg(b)
        key = "recursion:%s" % b.friendly
        if not direct:
            ctx.undecided(key, "mutual recursion at %s" % call.span)
            continue
        kinds = {p: expr_dec(c, a, p) for p, a in enumerate(call.args, 1)}
        dec = [p for p, k in kinds.items() if k == "dec"]
        if all(k == "same" for k in kinds.values()):
            ctx.violation(key + ":same", "%s at %s calls itself with unchanged arguments" % (b.friendly, call.span))
            continue
        if not dec:
            ctx.undecided(key, "no argument of the recursive call at %s is recognisably smaller" % call.span)
            continue
        dom = dominators(c)
        okp = [p for p in dec if bounded_below(c, call, p, dom, _unsigned(b.locals[p]))]
        if okp:
            ctx.proved(key, "%s: argument %d decreases above a tested bound" % (call.span, okp[0]))
        else:
            ctx.violation(key + ":unbounded", "%s at %s: the recursion decreases argument %d without any lower bound on the way to the call" % (
                b.friendly, call.span, dec[0]))


def _unsigned(t):
    return t.get("k") == "int" and t["n"].startswith("u")


def endless_consumers(b):
    out = []
    for call in b.calls():
        if call.name in CONSUMERS and call.fn and (call.fn.get("trait", "").endswith("Iterator") or "iterator::Iterator" in (call.path or "")) and call.args:
            t = optype(b, call.args[0])
            if infinite(t):
                out.append((call, t))
    return out


CHECKS = {"C25": c25}
