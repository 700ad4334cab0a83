"""Value-graph construction: an abstract interpretation of MIR over the term domain.

Every block is visited once per context (no path enumeration): the arms of a branch are joined at
their nearest common post-dominator by gating (if-then-else) terms, loops are summarised by closed
forms of their loop-carried values (induction variables, appended sequences, pointwise updates) or
by an uninterpreted fold.  Shared references denote the value they refer to; mutable references
are cell names with access paths.
"""
import itertools
import re

from . import terms as T


class Unsup(Exception):
    """the value graph of this construct is not built; results become undecided"""


class State:
    __slots__ = ("cells", "facts")

    def __init__(self, cells=None, facts=T.NOFACTS):
        self.cells = cells if cells is not None else {}
        self.facts = facts

    def copy(self):
        return State(dict(self.cells), self.facts)

    def with_facts(self, *fs):
        s = self.copy()
        s.facts = s.facts.plus(*fs)
        return s


class Frame:
    __slots__ = ("id", "body", "cfg", "active", "subst")

    def __init__(self, fid, body, cfg, subst):
        self.id, self.body, self.cfg, self.subst = fid, body, cfg, subst
        self.active = frozenset()


# ---------------------------------------------------------------- control-flow facts of a body

class Cfg:
    def __init__(self, body):
        self.body = body
        live = body.live_blocks()
        self.succ = {b: [s for s in body.succs(b) if s is not None and s in live] for b in live}
        self.pred = {b: [] for b in live}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        # blocks that can reach a return
        rets = [b for b in live if body.blocks[b]["t"][0] == "return"]
        seen, st = set(rets), list(rets)
        while st:
            for p in self.pred[st.pop()]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        self.returns = seen
        self.dom = self._dom(0, self.succ, self.pred, live)
        self.pdom = self._pdom(rets)
        self.loops = {}
        for b in live:
            for s in self.succ[b]:
                if s in self.dom[b]:
                    body_blocks = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body_blocks:
                            body_blocks.add(x)
                            st.extend(self.pred[x])
        self._livein = None

    @staticmethod
    def _dom(root, succ, pred, nodes):
        order, seen, st = [], set(), [(root, iter(succ[root]))]
        seen.add(root)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        dom = {n: None for n in order}
        dom[root] = {root}
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == root:
                    continue
                ps = [dom[p] for p in pred[n] if dom.get(p) is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        return dom

    def _pdom(self, rets):
        nodes = self.returns
        EXIT = -1
        succ = {b: [s for s in self.succ[b] if s in nodes] for b in nodes}
        for r in rets:
            succ[r] = [EXIT]
        succ[EXIT] = []
        pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        if not rets:
            return {}
        return self._dom(EXIT, pred, succ, set(succ))

    def join(self, targets):
        """nearest common post-dominator of the targets that can return, or None"""
        ts = [t for t in targets if t in self.returns]
        if not ts:
            return None
        c = set.intersection(*[self.pdom[t] for t in ts]) - {-1}
        if not c:
            return None
        # the nearest: the one post-dominated by all the others
        for x in c:
            if all(y in self.pdom[x] for y in c):
                return x
        return None

    def livein(self, block):
        if self._livein is None:
            self._livein = self._liveness()
        return self._livein[block]

    def _liveness(self):
        body = self.body
        use, kill = {}, {}
        borrowed = set()

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == "index":
                    u.add(e[1])

        def op(o, u):
            if o[0] in ("copy", "move"):
                pl(o[1], u)

        def walk(x, u):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], list):
                    pl(x[1], u)
                    return
                if x and x[0] in ("ref", "rawptr"):
                    p = x[2] if x[0] == "ref" else x[1]
                    pl(p, u)
                    if not any(e[0] == "deref" for e in p[1]):
                        borrowed.add(p[0])
                    return
                if x and x[0] == "discr":
                    pl(x[1], u)
                    return
                for y in x:
                    walk(y, u)
            elif isinstance(x, dict):
                return

        for b in self.succ:
            u, k = set(), set()
            for s in body.blocks[b]["st"]:
                if s[0] == "assign":
                    us = set()
                    walk(s[2], us)
                    if s[1][1]:
                        pl(s[1], us)
                    u |= us - k
                    if not s[1][1]:
                        k.add(s[1][0])
                elif s[0] == "setdiscr":
                    us = set()
                    pl(s[1], us)
                    u |= us - k
            t = body.blocks[b]["t"]
            us = set()
            if t[0] == "switch":
                op(t[1], us)
            elif t[0] == "assert":
                op(t[1], us)
            elif t[0] == "call":
                op(t[1], us)
                for a in t[2]:
                    op(a, us)
                if t[3][1]:
                    pl(t[3], us)
            elif t[0] == "return":
                us.add(0)
            u |= us - k
            if t[0] == "call" and not t[3][1]:
                k.add(t[3][0])
            use[b], kill[b] = u, k
        # inputs held by reference stay reachable
        li = {b: set() for b in self.succ}
        ch = True
        while ch:
            ch = False
            for b in self.succ:
                o = set()
                for s in self.succ[b]:
                    o |= li[s]
                n = use[b] | (o - kill[b])
                if n != li[b]:
                    li[b] = n
                    ch = True
        return {b: li[b] | borrowed for b in li}


_cfgs = {}


def cfg_of(body):
    c = _cfgs.get(body.key)
    if c is None or c.body is not body:
        c = _cfgs[body.key] = Cfg(body)
    return c


# ---------------------------------------------------------------- mutable references

def mref(cell, path=()):
    return T.mk("mref", cell, path)


def is_mref(t):
    return t.op == "mref"


def sort_of(ty):
    """term sort of a MIR type"""
    if ty is None:
        return "?"
    k = ty["k"]
    if k == "int":
        return ty["n"]
    if k == "float":
        return ty["n"]
    if k == "bool":
        return "bool"
    if k == "char":
        return "u32"
    if k == "str":
        return "seq:u8"
    if k in ("ref", "ptr"):
        return sort_of(ty["to"])
    if k in ("slice", "array"):
        return "seq:" + sort_of(ty["of"])
    if k == "adt":
        p = ty["path"].split("::")[-1]
        if p == "Vec" or p == "Box":
            a = [x for x in ty["args"] if x["k"] != "adt" or x["path"].split("::")[-1] not in ("Global",)]
            s = sort_of(a[0]) if a else "?"
            return "seq:" + s if p == "Vec" else s
        if p in ("String", "OsString", "OsStr", "Path", "PathBuf"):
            return "seq:u8"
        if p in ("BitVec", "BitSlice", "BitArray", "BitBox"):
            return "seq:bool"
        if p == "BitRef":
            return "bool"
        if p == "Complex":
            return "cplx"
        if p == "ArrayBase":
            return "mat:" + (sort_of(ty["args"][0]["args"][0]) if ty["args"] and ty["args"][0].get("args") else "?")
        return p
    return k


FLOATS = ("f64", "f32")


INTERIOR = ("core::cell::Cell", "core::cell::RefCell", "core::cell::UnsafeCell", "core::sync::atomic::Atomic", "std::sync::poison::mutex::Mutex",
            "std::sync::poison::rwlock::RwLock", "std::sync::once_lock::OnceLock", "core::cell::once::OnceCell")


def interior(ty):
    """a value that is changed behind shared references"""
    return ty.get("k") == "adt" and ty["path"] in INTERIOR


def statics(P):
    """key -> {"ty", "init", "state"} of every static and thread-local"""
    s = getattr(P, "_statics", None)
    if s is None:
        s = {}
        for i in P.items:
            ty = i.get("ty") or {}
            if i["kind"].startswith("Static") and not i["key"].endswith("__RUST_STD_INTERNAL_VAL"):
                s[i["key"]] = {"ty": ty, "init": i["key"], "state": bool(i.get("mut")) or interior(ty)}
            elif ty.get("k") == "adt" and ty["path"] == "std::thread::local::LocalKey":
                init = i["key"] + "::__rust_std_internal_init_fn"
                s[i["key"]] = {"ty": ty["args"][0], "init": init, "state": True}
        P._statics = s
    return s


def state_sym(key, i):
    ty = i["ty"]
    while ty.get("k") == "adt" and ty["path"] in INTERIOR and "Once" not in ty["path"]:
        ty = ty["args"][0]
    s = T.sym("state:" + key, sort_of(ty) if ty.get("k") != "adt" or "Once" not in ty["path"] else "Option")
    return s


# operators written for a type of the sources themselves mean what their bodies say
OWN_OPS = re.compile(r"<.* as core::(?:ops::(?:index|arith|bit|deref)::\w+|cmp::\w+|default::Default|convert::\w+|iter::traits::\w+::\w+)>::\w+$")


class Engine:
    def __init__(self, P, boundary=(), models=None, max_depth=24):
        from . import models as M
        self.P = P
        self.lazies = set()
        self.lent = set()
        self.boundary = dict(boundary) if isinstance(boundary, dict) else {b: None for b in boundary}
        self.fid = itertools.count(1)
        self.heap = itertools.count(1)
        self.models = M
        self.extra = models or {}
        self.panics = []      # (facts, cond, kind, span, function)
        self.watch = None     # a cell whose content is noted at every panic edge
        self.snaps = []
        self.events = []      # (facts, name, args, span)
        self.whiles = []      # loops whose number of rounds has no closed form
        self.rounds = {}      # (function, loop header) -> every number of rounds seen has a closed form
        self.opaque = {}      # name -> count: calls left uninterpreted
        self.mute = 0
        self.stack = []
        self.max_depth = max_depth
        self.analysed = set()
        self.loops_done = 0
        self.result_ty = None  # type of the place the current call writes

    # -- cells ---------------------------------------------------------------
    def load(self, st, r):
        """value behind a mutable reference"""
        if r.op == "ite":
            return T.ite(r.args[0], self.load(st, r.args[1]), self.load(st, r.args[2]))
        cell, path = r.args
        v = st.cells.get(cell)
        if v is None:
            raise Unsup("read of unknown cell %r" % (cell,))
        for k, e in enumerate(path):
            while v.op == "mref":
                v = self.load(st, v)
            v = self.step(v, e)
        return v

    def val(self, st, t):
        n = 0
        while True:
            if t.op == "mref":
                t = self.load(st, t)
            elif t.op == "ite" and (t.args[1].op == "mref" or t.args[2].op == "mref"):
                t = T.ite(t.args[0], self.val(st, t.args[1]), self.val(st, t.args[2]))
            else:
                return t
            n += 1
            if n > 50:
                raise Unsup("cyclic reference")

    def target(self, st, r):
        """follow references to references: the last reference before the value"""
        while True:
            v = self.load(st, r)
            if v.op != "mref":
                return r
            r = v

    @staticmethod
    def step(v, e):
        k = e[0]
        if k == "f":
            return T.fld(v, e[1], e[2], e[3])
        if k == "i":
            return T.at(v, e[1])
        if k == "sub":
            return T.submat(v, e[1], e[2], e[3], e[4])
        if k == "row":
            j = T.fresh("j", "nat")
            return T.tab(T.cols(v), T.lam(j, T.at2(v, e[1], j)))
        if k == "col":
            j = T.fresh("j", "nat")
            return T.tab(T.rows(v), T.lam(j, T.at2(v, j, e[1])))
        if k == "el":
            return T.at2(v, e[1], e[2])
        if k == "seqsl":
            return T.slc(v, e[1], e[2])
        if k == "px":
            return T.at2(v, e[2], e[1])
        raise Unsup("path " + k)

    def put(self, v, path, x, st):
        """v with the part at path replaced by x"""
        if not path:
            return x
        e = path[0]
        if e[0] in ("row", "col") and len(path) > 1 and path[1][0] == "i":
            # one element of a row is one cell of the matrix
            return self.put(v, (("el",) + ((e[1], path[1][1]) if e[0] == "row" else (path[1][1], e[1])),) + tuple(path[2:]), x, st)
        old = self.step(v, e)
        if old.op == "mref" and len(path) > 1:
            # the path continues behind a reference stored here
            self.store(st, self.through(old, path[1:]), x)
            return v
        n = self.put(old, path[1:], x, st)
        k = e[0]
        if k == "f":
            return T.setfld(v, e[1], e[2], n)
        if k == "i":
            return T.store(v, e[1], n)
        if k == "sub":
            return T.paste(v, e[1], e[2], n)
        if k == "row":
            return T.paste(v, e[1], T.I(0), T.shape(T.I(1), T.cols(v), n))
        if k == "col":
            return T.paste(v, T.I(0), e[1], T.shape(T.rows(v), T.I(1), n))
        if k in ("el", "px"):
            r, c = (e[1], e[2]) if k == "el" else (e[2], e[1])
            return T.store2(v, r, c, n)
        if k == "seqsl":
            return T.cat(T.slc(v, T.I(0), e[1]), n, T.slc(v, e[2], T.length(v)))
        raise Unsup("path " + k)

    @staticmethod
    def through(r, path):
        return mref(r.args[0], r.args[1] + tuple(path))

    def store(self, st, r, x):
        if r.op == "ite":
            a, b = r.args[1], r.args[2]
            self.store(st, a, T.ite(r.args[0], x, self.load(st, a)))
            self.store(st, b, T.ite(r.args[0], self.load(st, b), x))
            return
        if r.op != "mref":
            raise Unsup("store through %s" % r.op)
        cell, path = r.args
        if cell[0] == "heap" and path and all(e[0] == "f" for e in path):
            path = ()
        if cell not in st.cells and path:
            raise Unsup("store into unknown cell")
        st.cells[cell] = self.put(st.cells[cell], path, x, st) if path else x

    def new_cell(self, st, v, kind="cell"):
        c = (kind, next(self.heap))
        st.cells[c] = v
        return mref(c)

    # -- places --------------------------------------------------------------
    def proj(self, fr, st, v, e, variant):
        k = e[0]
        if k == "field":
            if v.op == "mref":
                # a box or a pointer wrapper: transparent
                return v
            if v.op == "clo":
                return v.args[1][e[1]]
            return T.fld(v, variant, e[1], sort_of(e[2]) if len(e) > 2 else None)
        if k == "index":
            return T.at(v, self.val(st, st.cells[(fr.id, e[1])]))
        if k == "cindex":
            i = T.sub(T.length(v), T.I(e[1])) if e[2] else T.I(e[1])
            return T.at(v, i)
        if k == "subslice":
            lo, hi, fe = e[1], e[2], (e[3] if len(e) > 3 else True)
            n = T.length(v)
            return T.slc(v, T.I(lo), T.sub(n, T.I(hi)) if fe else T.I(hi))
        raise Unsup("projection " + k)

    def read(self, fr, st, place):
        v = st.cells.get((fr.id, place[0]))
        if v is None:
            v = T.mk("undef")
        variant = None
        for n, e in enumerate(place[1]):
            k = e[0]
            if k == "deref":
                if v.op == "mref" or v.op == "ite" and v.args[1].op == "mref":
                    v = self.load(st, v)
                variant = None
            elif k == "downcast":
                variant = e[1]
            else:
                if v.op == "ite" and v.args[1].op == "mref":
                    v = self.load(st, v)
                v = self.proj(fr, st, v, e, variant)
                variant = None
        return v

    def lval(self, fr, st, place):
        """the mutable reference denoting a place, or the plain value when it lies behind a shared reference"""
        r = mref((fr.id, place[0]))
        variant = None
        if not place[1]:
            return r
        cur = st.cells.get((fr.id, place[0]))
        if cur is None:
            cur = T.mk("undef")
        plain = False
        for e in place[1]:
            k = e[0]
            if k == "deref":
                if cur.op == "mref" or (cur.op == "ite" and cur.args[1].op == "mref"):
                    r, plain = cur, False
                    cur = self.load(st, cur) if cur.op == "ite" or cur.args[0] in st.cells else T.mk("undef")
                else:
                    plain = True
                variant = None
                continue
            if k == "downcast":
                variant = e[1]
                continue
            if k == "field" and cur.op == "mref":
                variant = None
                r, plain = cur, False
                continue
            nxt = self.proj(fr, st, cur, e, variant)
            if k == "field":
                pe = ("f", variant, e[1], sort_of(e[2]) if len(e) > 2 else None)
            elif k == "index":
                pe = ("i", self.val(st, st.cells[(fr.id, e[1])]))
            elif k == "cindex":
                pe = ("i", T.sub(T.length(cur), T.I(e[1])) if e[2] else T.I(e[1]))
            else:
                raise Unsup("reference into " + k)
            if r.op == "ite":
                r = T.ite(r.args[0], self.through(r.args[1], [pe]), self.through(r.args[2], [pe]))
            else:
                r = self.through(r, [pe])
            cur = nxt
            variant = None
        return cur if plain else r

    def write(self, fr, st, place, x):
        if not place[1]:
            st.cells[(fr.id, place[0])] = x
            return
        r = self.lval(fr, st, place)
        if r.op not in ("mref", "ite"):
            raise Unsup("write behind a shared reference")
        if r.op == "mref" and r.args[0] not in st.cells:
            if r.args[1] and all(e[0] == "f" for e in r.args[1]) and r.args[0][0] != "heap":
                # field-wise initialisation
                st.cells[r.args[0]] = T.mk("part", ())
        if r.op == "mref" and st.cells.get(r.args[0]) is not None and st.cells[r.args[0]].op in ("part", "undef") and \
                len(r.args[1]) == 1:
            cur = dict(st.cells[r.args[0]].args[0]) if st.cells[r.args[0]].op == "part" else {}
            cur[r.args[1][0][2]] = x
            ks = sorted(cur)
            st.cells[r.args[0]] = T.tup(*[cur[k] for k in ks]) if ks == list(range(len(ks))) and len(ks) > 1 else \
                T.mk("part", tuple((k, cur[k]) for k in ks))
            return
        self.store(st, r, x)

    # -- types ---------------------------------------------------------------
    def sub_ty(self, fr, ty):
        if ty and ty["k"] == "param" and fr.subst:
            return fr.subst.get(ty["n"], ty)
        return ty

    def place_ty(self, fr, place):
        ty = self.sub_ty(fr, fr.body.locals[place[0]])
        for e in place[1]:
            k = e[0]
            if k == "deref":
                ty = ty.get("to") or (ty["args"][0] if ty.get("args") else ty)
            elif k == "field":
                ty = self.sub_ty(fr, e[2]) if len(e) > 2 else {"k": "other"}
            elif k in ("index", "cindex"):
                ty = ty.get("of") or {"k": "other"}
        return ty

    def op_ty(self, fr, o):
        if o[0] in ("copy", "move"):
            return self.place_ty(fr, o[1])
        c = o[1]
        ty = c.get("ty")
        if ty is None:
            if "bool" in c:
                return {"k": "bool"}
            if "float" in c:
                return {"k": "float", "n": "f64"}
        return ty or {"k": "other"}

    # -- statics -------------------------------------------------------------
    def static(self, st, key, ty=None):
        """a read-only static is its value, any other one a cell whose content earlier calls left behind"""
        i = statics(self.P).get(key)
        if i is None:
            return T.mk("app", "static:" + str(key), sort_of(ty), ())
        if not i["state"]:
            return self.initially(key)
        cell = ("static", key)
        if cell not in st.cells:
            st.cells[cell] = state_sym(key, i)
        return mref(cell)

    def initially(self, key):
        """what a static holds at the start of the program"""
        b = self.P.const_body(statics(self.P)[key]["init"])
        if b is None:
            raise Unsup("initial value of " + key)
        st = State()
        v, s = self.call_body(b, [T.UNIT] * b.argc, st, {})
        if v is None:
            raise Unsup("initial value of " + key)
        return self.val(s, v)

    # -- operands and rvalues ------------------------------------------------
    def const(self, fr, st, c):
        if "int" in c:
            return T.I(int(c["int"]))
        if "float" in c:
            v = T.F(parse_float(c["float"]))
            return T.f32(v) if (c.get("ty") or {}).get("n") == "f32" else v
        if "bool" in c:
            return T.B(c["bool"])
        if "str" in c:
            return T.S(c["str"])
        if "bytes" in c:
            return T.lst(*[T.I(b) for b in c["bytes"]])
        if "fn" in c:
            return T.mk("fnv", FnRef(c["fn"]))
        if isinstance(c.get("named"), str) and "str" not in c and "'indirect'" in str(c.get("fields", c)):
            # a constant with parts the compiler keeps elsewhere: what its definition computes
            b = self.P.const_body(c["named"])
            if b is not None:
                v, s2 = self.call_body(b, [T.UNIT] * b.argc, State(), {})
                if v is not None:
                    return self.val(s2, v)
        if "fields" in c:
            fs = [self.const(fr, st, x[1] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], dict) else x)
                  for x in c["fields"]]
            ty = c.get("ty") or {}
            if ty.get("k") == "tuple":
                return T.tup(*fs)
            if ty.get("k") == "array":
                return T.lst(*fs)
            name = ty.get("path", "?")
            if c.get("variant") is not None:
                name += "::" + c["variant"]
            return T.ctor(name, fs, c.get("vidx") or 0)
        if "promoted" in c:
            b = self.P.const_body(c["promoted"])
            if b is None:
                raise Unsup("promoted")
            v, _ = self.call_body(b, [], State(), {})
            return v
        if "zst" in c:
            ty = c["zst"] if isinstance(c["zst"], dict) else (c.get("ty") or {})
            if ty.get("k") == "closure":
                return T.mk("clo", ty["def"], ())
            if ty.get("k") == "adt":
                p = ty["path"]
                if c.get("variant"):
                    p += "::" + c["variant"]
                return T.ctor(p, [], c.get("vidx") or 0)
            if ty.get("k") == "array":
                return T.EMPTY
            return T.UNIT
        if "char" in c:
            return T.I(c["char"] if isinstance(c["char"], int) else ord(c["char"]))
        if "static" in c:
            return self.static(st, c["static"], c.get("ty"))
        if "fnptr" in c and c["fnptr"].endswith("::call_once") and c.get("fnargs") and c["fnargs"][0].get("k") == "closure":
            return T.mk("clo", c["fnargs"][0]["def"], ())
        if "ptr" in c or "alloc" in c or True:
            return T.app("const:" + str(sorted((k, str(v)) for k, v in c.items() if k != "ty"))[:200], sort_of(c.get("ty")))

    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            return self.read(fr, st, o[1])
        return self.const(fr, st, o[1])

    def rvalue(self, fr, st, rv):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "repeat":
            n = rv[2]
            n = T.I(n) if isinstance(n, int) else (T.I(int(n)) if isinstance(n, str) and n.isdigit() else T.fresh("n", "usize"))
            v = self.operand(fr, st, rv[1])
            return T.tab(n, T.mk("lam", T._shift(v, 1)))
        if k == "ref":
            if rv[1] or interior(self.place_ty(fr, rv[2])):
                return self.lval(fr, st, rv[2])
            return self.read(fr, st, rv[2])
        if k == "rawptr":
            return self.lval(fr, st, rv[1])
        if k == "cast":
            return self.cast(fr, st, rv)
        if k == "bin":
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            ty = self.op_ty(fr, rv[2])
            while ty["k"] in ("ref", "ptr"):
                ty = ty["to"]
            return binop(rv[1], self.val(st, a), self.val(st, b), ty)
        if k == "un":
            a = self.val(st, self.operand(fr, st, rv[2]))
            ty = self.op_ty(fr, rv[2])
            if rv[1] == "Not":
                if ty["k"] == "bool" or a.op in T.BOOLOPS:
                    return T.bnot(a)
                lo, hi = T.INTR.get(ty.get("n"), (None, None))
                if lo == 0:
                    return T.sub(T.I(hi), a)
                return T.sub(T.neg(a), T.I(1))
            if rv[1] == "Neg":
                return T.fneg(a) if ty["k"] == "float" else T.neg(a)
            if rv[1] == "PtrMetadata":
                return T.length(a)
            raise Unsup("unary " + rv[1])
        if k == "discr":
            return T.discr(self.val(st, self.read(fr, st, rv[1])))
        if k == "array":
            return T.lst(*[self.operand(fr, st, x) for x in rv[2]])
        if k == "tuple":
            if not rv[1]:
                return T.UNIT
            return T.tup(*[self.operand(fr, st, x) for x in rv[1]])
        if k == "adt":
            ops = [self.operand(fr, st, x) for x in rv[6]]
            name = rv[1] + ("::" + rv[2] if rv[4] else "")
            return T.ctor(name, ops, rv[3])
        if k == "closure":
            return T.mk("clo", rv[1], tuple(self.operand(fr, st, x) for x in rv[2]))
        raise Unsup("rvalue " + k)

    def cast(self, fr, st, rv):
        kind, o, ty = rv[1], rv[2], self.sub_ty(fr, rv[3])
        v = self.operand(fr, st, o)
        if kind == "IntToInt":
            v = self.val(st, v)
            src = self.op_ty(fr, o)
            if v.op in T.BOOLOPS or src["k"] == "bool":
                v = T.ite(v, T.I(1), T.I(0))
            if ty["k"] == "int":
                if v.op == "ctor":
                    v = T.I(v.args[2])
                elif src["k"] == "adt":
                    v = T.discr(v)
                return T.icast(ty["n"], v)
            return v
        if kind == "FloatToInt":
            return T.f2i(ty["n"], self.val(st, v))
        if kind == "IntToFloat":
            if ty["n"] == "f32":
                return T.f32(T.i2f(self.val(st, v)))
            return T.i2f(self.val(st, v))
        if kind == "FloatToFloat":
            if ty["n"] == "f32":
                return T.f32(self.val(st, v))
            return self.val(st, v)
        return v

    # -- functions -----------------------------------------------------------
    def call_body(self, body, args, st, subst):
        if len(self.stack) > self.max_depth or self.stack.count(body.key) > 1 or self.flat and self.stack and body.kind != "closure":
            if self.deep:
                return self.opaque_fn(body, args, st)
            raise Unsup("call depth at " + body.friendly)
        fr = Frame(next(self.fid), body, cfg_of(body), subst)
        self.stack.append(body.key)
        self.analysed.add(body.friendly)
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.cells[(fr.id, i + 1)] = a
            outs = self.run(fr, 0, st, frozenset())
            outs = [o for o in outs if o[0] == "ret"]
            if not outs:
                return None, None
            _, _, s2 = self.merge(outs, st)
            v = s2.cells.get((fr.id, 0), T.UNIT)
            for c in [c for c in s2.cells if c[0] == fr.id]:
                del s2.cells[c]
            return v, s2
        finally:
            self.stack.pop()

    def merge(self, outs, base=None):
        """join outcomes of one target: (target, cond, state)"""
        if len(outs) == 1:
            return outs[0]
        t = outs[0][0]
        keys = {}
        for _, _, s in outs:
            for c in s.cells:
                keys.setdefault(c, None)
        # facts common to all
        fs = set(outs[0][2].facts.fs)
        for _, _, s in outs[1:]:
            fs &= s.facts.fs
        facts = T.Facts(fs)
        cells = {}
        for c in keys:
            vs = [(cd, s.cells.get(c)) for _, cd, s in outs]
            have = [(cd, v) for cd, v in vs if v is not None]
            r = have[-1][1]
            for cd, v in reversed(have[:-1]):
                if v is not r:
                    with T.under(facts):
                        r = T.ite(cd, v, r)
            cells[c] = r
        cond = T.bor(*[cd for _, cd, _ in outs])
        return (t, cond, State(cells, facts))

    def run(self, fr, b, st, stops, first=False):
        """interpret from block b until a stop block or the return: outcomes (target, cond, state)"""
        done = []
        cond = T.TRUE
        while True:
            if b in stops and not first:
                done.append((b, cond, st))
                return done
            if b in fr.cfg.loops and b not in fr.active:
                outs = self.loop(fr, b, st)
                arms = [(c, s, t) for t, c, s in outs]
            else:
                first = False
                arms = self.block(fr, b, st)
            first = False
            if len(arms) == 1:
                _, st, b = arms[0]
                if b == "ret":
                    done.append(("ret", cond, st))
                    return done
                continue
            if not arms:
                return done
            targets = [t for _, _, t in arms if t != "ret"]
            j = fr.cfg.join(targets) if all(t != "ret" for _, _, t in arms) else None
            stops2 = stops | {j} if j is not None else stops
            by = {}
            for c, s, t in arms:
                if t == "ret":
                    res = [("ret", T.TRUE, s)]
                else:
                    res = self.run(fr, t, s, stops2)
                for (t2, c2, s2) in res:
                    by.setdefault(t2, []).append((t2, T.band(c, c2), s2))
            outs = [self.merge(x, st) for x in by.values()]
            outs = [o for o in outs if o[1] is not T.FALSE]
            if not outs:
                return done
            if len(outs) == 1:
                if outs[0][0] == j and j not in stops:
                    _, _, st = outs[0]
                    b = j
                    continue
                done.append((outs[0][0], cond, outs[0][2]))
                return done
            nxt = [o for o in outs if o[0] == j and j not in stops]
            for o in outs:
                if o not in nxt:
                    done.append((o[0], T.band(cond, o[1]), o[2]))
            if not nxt:
                return self.regroup(done)
            cond = T.band(cond, nxt[0][1])
            st, b = nxt[0][2], j

    def regroup(self, outs):
        by = {}
        for o in outs:
            by.setdefault(o[0], []).append(o)
        return [self.merge(x) for x in by.values()]

    def block(self, fr, b, st):
        """one block: list of (cond, state, next block | 'ret')"""
        x = fr.body.blocks[b]
        st = st.copy()
        with T.under(st.facts):
            for s in x["st"]:
                if s[0] == "assign":
                    self.write(fr, st, s[1], self.rvalue(fr, st, s[2]))
                elif s[0] == "setdiscr":
                    raise Unsup("setdiscr")
        t = x["t"]
        k = t[0]
        if k == "goto":
            return [(T.TRUE, st, t[1])]
        if k == "return":
            return [(T.TRUE, st, "ret")]
        if k == "unreachable":
            return []
        if k == "drop":
            return [(T.TRUE, st, t[2])]
        if k == "assert":
            with T.under(st.facts):
                c = self.val(st, self.operand(fr, st, t[1]))
                okc = c if t[2] else T.bnot(c)
            if t[3] in ("other",):
                return [(T.TRUE, st, t[4])]
            return self.check(fr, st, okc, str(t[3]), x["sp"], t[4])
        if k == "switch":
            with T.under(st.facts):
                v = self.val(st, self.operand(fr, st, t[1]))
                if v.op == "undef":
                    raise Unsup("branch on an undefined value")
                arms, rest = [], T.TRUE
                isb = v.op in T.BOOLOPS or self.op_ty(fr, t[1])["k"] == "bool"
                for n, bb in t[2]:
                    c = (v if n else T.bnot(v)) if isb else T.eq(v, T.I(n))
                    arms.append((T.band(rest, c), bb))
                    rest = T.band(rest, T.bnot(c))
                if t[3] is not None:
                    arms.append((rest, t[3]))
            out = []
            for c, bb in arms:
                if c is T.FALSE or fr.body.blocks[bb]["t"][0] == "unreachable" and not fr.body.blocks[bb]["st"]:
                    continue
                out.append((c, st.with_facts(c) if c is not T.TRUE else st, bb))
            return out
        if k == "call":
            with T.under(st.facts):
                f = self.operand(fr, st, t[1])
                args = [self.operand(fr, st, a) for a in t[2]]
            self.result_ty = self.place_ty(fr, t[3])
            v, s2 = self.call(fr, st, f, args, x["sp"], t[1])
            if v is None or t[4] is None:
                return []
            with T.under(s2.facts):
                self.write(fr, s2, t[3], v)
            return [(T.TRUE, s2, t[4])]
        raise Unsup("terminator " + k)

    def check(self, fr, st, okc, kind, span, nxt):
        """continue at nxt under okc; otherwise the program panics"""
        if okc is T.TRUE:
            return [(T.TRUE, st, nxt)]
        self.panic(st, T.bnot(okc), kind, span)
        if okc is T.FALSE:
            return []
        return [(T.TRUE, st.with_facts(okc), nxt)]

    def panic(self, st, cond, kind, span):
        if not self.mute:
            self.panics.append((st.facts, cond, kind, span, self.stack[-1] if self.stack else "?"))
            self.snaps.append(st.cells.get(self.watch))

    # -- calls ---------------------------------------------------------------
    def call(self, fr, st, f, args, span, operand=None):
        """f: function value term; returns (value, state) or (None, None) when it diverges"""
        if f.op == "fnv":
            return self.call_named(fr, st, f.args[0].j, args, span)
        if f.op == "clo":
            return self.call_closure(st, f, args)
        return self.call_value(st, f, args)

    def call_value(self, st, f, args):
        """a call through a value that may be one of several functions"""
        f = self.val(st, f)
        if f.op in ("clo", "fnv"):
            return self.call_closure(st, f, args)
        if f.op == "ite":
            c = f.args[0]
            outs = []
            for k, g in ((c, f.args[1]), (T.bnot(c), f.args[2])):
                s = st.with_facts(k)
                v, s = self.call_value(s, g, [T.renorm(a) if a.op not in ("mref", "clo", "fnv") else a for a in args])
                outs.append((k, v, s))
            (k, v, s), (_, w, s2) = outs
            if v is None and w is None:
                return None, None
            if v is None or w is None:
                return (w, s2) if v is None else (v, s)
            st = st.copy()
            for key in st.cells:
                a, b = s.cells.get(key), s2.cells.get(key)
                if a is None or b is None:
                    continue
                st.cells[key] = a if a is b else T.ite(k, a, b)
            for q in (s, s2):
                for key, val in q.cells.items():
                    st.cells.setdefault(key, val)
            return T.ite(k, v, w), st
        return self.unknown("indirect call", args, "?", st)

    def call_closure(self, st, clo, args):
        clo = self.val(st, clo)
        if clo.op == "fnv":
            return self.call_named(None, st, clo.args[0].j, args, "?")
        if clo.op != "clo":
            return self.unknown("closure", [clo] + list(args), "?", st)
        b = self.P.bodies.get(clo.args[0])
        if b is None:
            return self.unknown("closure " + clo.args[0], args, "?", st)
        return self.call_body(b, [clo] + list(args), st, {})

    def resolve_args(self, fr, fj):
        a = fj.get("resargs", fj.get("args", []))
        if fr is not None and fr.subst:
            a = [self.sub_ty(fr, x) for x in a]
        return a

    def call_named(self, fr, st, fj, args, span):
        path = fj.get("res") or fj["path"]
        key = fj.get("reskey") or fj["key"]
        tyargs = self.resolve_args(fr, fj)
        if fj.get("ctor"):
            nm = fj["ctor_adt"]
            if fj.get("ctor_variant"):
                nm += "::" + fj["ctor_variant"]
            return T.ctor(nm, args, fj.get("ctor_vidx") or 0), st
        b = self.P.bodies.get(key)
        if fj.get("trait") and (not fj.get("res") or fj["res"] == path and str((fj.get("args") or [{}])[0].get("s", "")).startswith("dyn ")):
            # a method of a trait, called on a value whose type is not written down: the implementation of what the value is, or the only one there is
            over = self.implementations(path)
            if over:
                v = self.val(st, args[0]) if args else T.UNIT
                own = [x for x in over if v.op == "ctor" and x.friendly.startswith("<%s as " % v.args[0])]
                if len(own) == 1 or b is None and len(over) == 1:
                    b = (own or over)[0]
                elif b is not None and v.op == "ctor" and not own and str(v.args[0]).split("::")[0] in self.P.crates and all(re.match(r"<[\w:]+ as ", x.friendly) for x in over):
                    pass        # the method as the trait itself writes it
                elif b is not None:
                    return self.unknown(path, args, self.ret_sort(fj), st)
        if b is not None:
            bn = self.boundary.get(b.friendly, 0)
            if bn is None:
                return self.opaque_fn(b, args, st)
            if bn != 0:
                r = bn(self, st, args)
                if r is not NotImplemented:
                    return r
        h = self.extra.get(path) or (None if b is not None and OWN_OPS.match(path) else self.models.lookup(path, fj, args))
        if h is not None:
            with T.under(st.facts):
                ctx = Call(self, fr, st.copy(), fj, path, args, tyargs, span)
                r = h(ctx)
            if r is None:
                return None, None
            if isinstance(r, tuple):
                return r
            return r, ctx.st
        if b is not None:
            if b.kind == "closure":
                # the call operators take their arguments as one tuple; the body has them one by one
                with T.under(st.facts):
                    return self.call_body(b, [args[0]] + [T.fld(args[1], None, k) for k in range(b.argc - 1)], st, {})
            subst = {}
            names = b.j.get("generics") or []
            for n, t in zip(names, tyargs):
                subst[n] = t
            return self.call_body(b, args, st, subst)
        return self.unknown(path, args, self.ret_sort(fj), st)

    def implementations(self, path):
        """bodies of the implementations of a trait's method"""
        if self.P_over is None:
            self.P_over = {}
            for x in self.P.bodies.values():
                m = re.match(r"<.* as (.*)>(::\w+)$", x.friendly)
                if m:
                    self.P_over.setdefault(m.group(1) + m.group(2), []).append(x)
        return self.P_over.get(path, ())

    P_over = None
    flat = False     # so does every call
    deep = False     # calls nested too deeply give unknown values

    def ret_sort(self, fj):
        r = fj.get("ret")
        return sort_of(r) if r else "?"

    def opaque_fn(self, b, args, st):
        with T.under(st.facts):
            vs = []
            st = st.copy()
            for a in args:
                vs.append(self.val(st, a))
            self.event(st, b.friendly, vs, b.span)
            r = T.app(b.friendly, sort_of(b.locals[0]), *vs)
            for k, a in enumerate(args):
                if a.op == "mref":
                    self.store(st, self.target(st, a), T.app(b.friendly + "!%d" % k, sort_of(b.locals[k + 1]), *vs))
        return r, st

    def unknown(self, path, args, sort, st):
        """an uninterpreted function of its arguments; it may write through the mutable references it is given"""
        self.opaque[path] = self.opaque.get(path, 0) + 1
        with T.under(st.facts):
            st = st.copy()
            vs = [self.val(st, a) for a in args]
            for k, a in enumerate(args):
                if a.op == "mref":
                    self.store(st, self.target(st, a), T.app("%s!%d" % (path, k), "?", *vs))
                elif a.op == "clo" and any(c.op == "mref" for c in a.args[1]):
                    raise Unsup("closure with captured state passed to " + path)
        return T.app(path, sort, *vs), st

    def event(self, st, name, args, span):
        if not self.mute:
            self.events.append((st.facts, name, tuple(args), span))

    # -- loops ---------------------------------------------------------------
    def loop(self, fr, h, st):
        cfg = fr.cfg
        body = cfg.loops[h]
        exits = {s for b in body for s in cfg.succ[b] if s not in body}
        st = st.copy()
        live = cfg.livein(h)
        for c in [c for c in st.cells if c[0] == fr.id and c[1] not in live]:
            del st.cells[c]
        if self.lazies and len([e for e in exits if e in cfg.returns]) > 1 and any(
                v.op == "ctor" and any(T.has(v, l) for l in self.lazies) for v in st.cells.values()):
            raise Unsup("a lazy map that may panic, in a loop with several ways out")
        saved = fr.active
        fr.active = saved | {h}
        try:
            stops = frozenset({h} | {e for e in exits if e in cfg.returns})

            def step(s, i):
                outs = self.regroup(self.run(fr, h, s, stops, first=True))
                latch = [o for o in outs if o[0] == h]
                return (latch[0] if latch else None), [o for o in outs if o[0] != h], None

            r = self.summarise(st, step, None, "%s:bb%d" % (fr.body.friendly, h))
            return r[1]
        finally:
            fr.active = saved

    def iterate(self, st, n, step, what=""):
        """n rounds of step(state, i) -> (value, state) | (None, None): (state, lam i. value) """

        def stp(s, i):
            v, s2 = step(s, i)
            if v is None:
                return None, [], None
            return ("next", T.TRUE, s2), [], v

        return self.summarise(st, stp, n, what)

    def probe(self, f):
        self.mute += 1
        ev = len(self.events)
        try:
            return f()
        finally:
            self.mute -= 1

    PEEL = 9

    def peel(self, st, step, n):
        """a loop whose few rounds are all decided: unrolled"""
        if n is not None and not (T.is_int(n) and n.args[0] <= self.PEEL):
            return None
        marks = (len(self.panics), len(self.events), dict(self.opaque))
        vals = []
        for k in range((n.args[0] if n is not None else self.PEEL) + 1):
            if n is not None and k >= n.args[0]:
                if not vals:
                    return st, None, None
                j = T.fresh("k", "nat")
                return st, None, T.lam(j, T.at(T.lst(*vals), j))
            latch, exits, value = step(st, T.I(k))
            if latch is None:
                if n is not None:
                    return st, None, T.lam(T.fresh("k", "nat"), T.mk("undef"))
                return None, exits, None
            if latch[1] is not T.TRUE:
                break
            st = latch[2]
            vals.append(value)
        del self.panics[marks[0]:]
        del self.snaps[marks[0]:]
        del self.events[marks[1]:]
        self.opaque = marks[2]
        return None

    def summarise(self, st, step, n, what):
        """Closed form of a loop.

        step(state, i) -> (latch outcome | None, exit outcomes, value).
        With n given: exactly n rounds, result (state after, None, value lambda).
        Otherwise the rounds continue while the latch condition holds: (None, exit outcomes, None).
        """
        self.loops_done += 1
        r = self.peel(st, step, n)
        if r is not None:
            if not self.mute:
                self.rounds.setdefault(what, True)
            return r
        i = T.fresh("i", "nat")
        base = st
        cells = dict(st.cells)
        leaves = {}
        latch = exits = value = None
        for _ in range(12):
            s1 = State(dict(cells), base.facts.plus(T.lt(i, n)) if n is not None else base.facts)
            latch, exits, value = self.probe(lambda: step(s1, i))
            if latch is None:
                if n is not None:
                    # every round panics
                    if n is T.I(0):
                        return base, None, None
                    step(State(dict(base.cells), base.facts.plus(T.lt(i, n))), i)
                    return base, None, T.lam(i, T.mk("undef"))
                if not self.mute:
                    self.rounds.setdefault(what, True)
                _, exits, _ = step(base.copy(), i)
                return None, exits, None
            changed = False
            for c in list(cells):
                nv = latch[2].cells.get(c)
                if nv is None:
                    continue
                g = self.generalise(cells[c], nv, leaves)
                if g is not cells[c]:
                    cells[c] = g
                    changed = True
            if not changed:
                break
        else:
            raise Unsup("loop state does not stabilise: " + what)
        leaves = {l: v for l, v in leaves.items() if any(T.has(x, l) for x in cells.values())}
        upd = {}
        for c in cells:
            self.leafvals(cells[c], latch[2].cells.get(c, cells[c]), leaves, upd)
        ini = {}
        for c in cells:
            self.leafvals(cells[c], base.cells[c], leaves, ini)
        cont = latch[1]
        solved = {}
        with T.under(base.facts):
            self.solve(upd, ini, i, solved, n)
            if n is None:
                cl = T.subst(cont, solved)
                free = [l for l in leaves if l not in solved and T.has(cl, l)]
                if free:
                    # the test looks at values without a closed form: folds over the rounds so far
                    need, ch = set(free), True
                    while ch:
                        more = {x for l in need for x in leaves if x not in solved and x not in need and x in upd and T.has(T.subst(upd[l], solved), x)}
                        need |= more
                        ch = bool(more)
                    closed = dict(solved)
                    self.fold_leaves([l for l in leaves if l in need], dict(upd), ini, i, closed, None)
                    cl = T.subst(cont, closed)
                N = self.trip(cl, i)
                if N is None:
                    return None, self.havoc(base, cells, leaves, exits, cl, i, what), None
            else:
                N = n
            if n is None and not self.mute:
                self.rounds[what] = self.rounds.get(what, True) and not has_trip(N)
            # refine under i < N
            simple = {l: v for l, v in solved.items() if self.is_simple(v)}
            facts2 = base.facts.plus(T.lt(i, N))
            # closed forms must hold for i = N too
            facts_le = base.facts.plus(T.le(i, N))
            for l, v in solved.items():
                if l not in simple and isseq(v):
                    same = T.eq(T.length(l), T.length(v))
                    facts2, facts_le = facts2.plus(same), facts_le.plus(same)
            with T.under(facts2):
                narrowed = {l: T.renorm(v) for l, v in simple.items()}
                s2 = State({c: T.subst(v, narrowed) for c, v in cells.items()}, facts2)
        latch, exits2, value = self.probe(lambda: step(s2, i))
        if latch is None:
            raise Unsup("loop refinement")
        upd2 = {}
        cells2 = s2.cells
        for c in cells:
            self.leafvals(cells[c], latch[2].cells.get(c, cells2[c]), leaves, upd2)
        with T.under(facts_le):
            solved2 = dict(simple)
            self.solve({l: u for l, u in upd2.items() if l not in simple}, ini, i, solved2, N)
            rest = [l for l in leaves if l not in solved2]
            if rest:
                self.fold_leaves(rest, upd2, ini, i, solved2, N)
        # the final pass: record panics and events, with every leaf in closed form
        with T.under(facts2):
            s3 = State({c: T.subst(v, {l: narrowed.get(l, w) for l, w in solved2.items()}) for c, v in cells.items()}, facts2)
        if not self.mute:
            latch3, _, value = step(s3, i)
        else:
            latch3, _, value = step(s3, i)
        fin = {}
        with T.under(base.facts):
            for l in leaves:
                fin[l] = self.at_n(solved2[l], i, N)
            sN = State({c: T.subst(v, fin) for c, v in cells.items()}, base.facts)
            vl = T.lam(i, value) if value is not None else None
        if n is not None:
            return sN, None, vl
        if N.op != "int":
            sN.facts = sN.facts.plus(T.ge0(N))
        if has_trip(N) and not self.mute:
            self.whiles.append((what, dict(leaves), ini, dict(upd), cont, base.facts, self.round_panics(cells, base, step, i)))
        latchN, outs, _ = self.probe(lambda: step(sN, N))
        # panics that can only happen in the round that leaves the loop were recorded above for all rounds
        if latchN is not None and latchN[1] is not T.FALSE:
            # the exit test was not decided by the closed form: drop the latch outcome
            pass
        outs = [(t, (T.TRUE if len(outs) == 1 else c), self.extend_folds(s, i)) for t, c, s in outs]
        return None, outs, None

    def round_panics(self, cells, base, step, i):
        """the panic edges of one round, over the values carried round the loop"""
        marks = (len(self.panics), len(self.events), dict(self.opaque), len(self.whiles))
        try:
            step(State(dict(cells), base.facts), i)
            return self.panics[marks[0]:]
        finally:
            del self.panics[marks[0]:]
            del self.snaps[marks[0]:]
            del self.events[marks[1]:]
            self.opaque = marks[2]
            del self.whiles[marks[3]:]

    def extend_folds(self, s, i):
        """A(fold(N, x, A)) = fold(N + 1, x, A)"""
        memo = {}
        for c, v in s.cells.items():
            f = [x for x in find_folds(v, memo)]
            for x in f:
                with T.under(s.facts):
                    nxt = T.inst(T.inst(x.args[2], x.args[0]), x)
                    if nxt is x or nxt.op == "fld":
                        continue
                    if v is nxt:
                        s.cells[c] = T.fold(T.add(x.args[0], T.I(1)), x.args[1], x.args[2], x.args[3])
                        break
        return s

    @staticmethod
    def at_n(v, i, N):
        return T.subst(v, {i: N})

    @staticmethod
    def is_simple(v):
        return T._intish(v) or v.op in T.BOOLOPS

    def generalise(self, cv, nv, leaves):
        if cv is nv or cv in leaves:
            return cv
        if nv.op == "undef":
            return cv
        if cv.op == "mref" or nv.op == "mref":
            raise Unsup("loop-carried reference")
        if cv.op == "ctor" and nv.op == "ctor" and cv.args[0] == nv.args[0] and len(cv.args[1]) == len(nv.args[1]):
            return T.mk("ctor", cv.args[0], tuple(self.generalise(a, b, leaves) for a, b in zip(cv.args[1], nv.args[1])), cv.args[2])
        if cv.op == "tup" and nv.op == "tup" and len(cv.args[0]) == len(nv.args[0]):
            return T.mk("tup", tuple(self.generalise(a, b, leaves) for a, b in zip(cv.args[0], nv.args[0])))
        s = leaf_sort(cv, nv)
        l = T.fresh("L", s)
        leaves[l] = cv
        if s.startswith("mat"):
            LEAFDIM[l] = (T.rows(cv), T.cols(cv))
        return l

    def leafvals(self, pat, v, leaves, out):
        if pat in leaves:
            out[pat] = v
            return
        if pat is v:
            return
        if pat.op == "ctor" and v.op == "ctor":
            for a, b in zip(pat.args[1], v.args[1]):
                self.leafvals(a, b, leaves, out)
        elif pat.op == "tup" and v.op == "tup":
            for a, b in zip(pat.args[0], v.args[0]):
                self.leafvals(a, b, leaves, out)

    # -- recurrences ---------------------------------------------------------
    def solve(self, upd, ini, i, solved, n):
        ch = True
        while ch:
            ch = False
            for l, u in upd.items():
                if l in solved:
                    continue
                u = T.subst(u, solved)
                others = [x for x in upd if x is not l and x not in solved and T.has(u, x)]
                if others:
                    continue
                v = self.recur(l, u, ini[l], i, n)
                if v is not None:
                    solved[l] = v
                    ch = True

    def recur(self, l, u, v0, i, n):
        """closed form of l_{i+1} = u(l_i, i), l_0 = v0"""
        if u is l:
            return v0
        if not T.has(u, l):
            prev = T.subst(u, {i: T.sub(i, T.I(1))})
            if u is v0 and not T.has(u, i):
                return v0
            return T.ite(T.eq(i, T.I(0)), v0, prev)
        if T._intish(v0) or T._intish(u):
            d = T.sub(u, l)
            if not T.has(d, l):
                if not T.has(d, i):
                    return T.add(v0, T.mul(d, i))
                if T.is_int(v0) and v0.args[0] == 0 and False:
                    return None
            # min(l + c, max(l, P)): a counter that saturates at P
            if u.op == "min" and len(u.args[0]) == 2:
                for a, b in (u.args[0], reversed(u.args[0])):
                    c = T.sub(a, l)
                    if T.is_int(c) and c.args[0] > 0 and b.op == "max" and l in b.args[0]:
                        rest = [x for x in b.args[0] if x is not l]
                        if len(rest) == 1 and not T.has(rest[0], l) and not T.has(rest[0], i):
                            return T.mn(T.add(v0, T.mul(c, i)), T.mx(rest[0], v0))
            if u.op == "max" and len(u.args[0]) == 2 and l in u.args[0]:
                b = [x for x in u.args[0] if x is not l][0]
                if b.op == "min" and len(b.args[0]) == 2:
                    inc = [x for x in b.args[0] if T.is_int(T.sub(x, l)) and T.sub(x, l).args[0] > 0]
                    lim = [x for x in b.args[0] if not T.has(x, l) and not T.has(x, i)]
                    if inc and lim:
                        return T.mn(T.add(v0, T.mul(T.sub(inc[0], l), i)), T.mx(lim[0], v0))
            return None
        e = as_append(u, l)
        if e is not None and not T.has(e, l):
            N = i
            k = T.fresh("k", "nat")
            with T.under(T.cur().plus(T.lt(k, i))):
                ek = T.renorm(T.subst(e, {i: k}))
            return T.cat(v0, T.flat(T.tab(i, T.lam(k, ek))))
        p = pointwise(u, l, v0, i)
        if p is not None:
            return p
        if u.op == "ite" and not T.has(u.args[0], l) and not T.has(u.args[0], i):
            # the same branch in every round
            c = u.args[0]
            with T.under(T.cur().plus(c)):
                a = self.recur(l, T.renorm(u.args[1]), v0, i, n)
            with T.under(T.cur().plus(T.bnot(c))):
                b = self.recur(l, T.renorm(u.args[2]), v0, i, n)
            if a is not None and b is not None:
                return T.ite(c, a, b)
        return None

    def fold_leaves(self, rest, upd, ini, i, solved, N):
        """leaves without a closed form: an uninterpreted fold over all of them together"""
        # group by dependence
        for l in rest:
            upd[l] = T.subst(upd[l], solved)
        todo = list(rest)
        while todo:
            # a minimal set closed under dependence
            best = None
            for l in todo:
                s = {l}
                ch = True
                while ch:
                    ch = False
                    for x in list(s):
                        for y in todo:
                            if y not in s and T.has(upd[x], y):
                                s.add(y)
                                ch = True
                if best is None or len(s) < len(best):
                    best = s
            grp = [l for l in todo if l in best]
            k, acc = T.fresh("k", "nat"), None
            if len(grp) == 1:
                l = grp[0]
                acc = T.fresh("acc", l.args[1])
                if l in LEAFDIM:
                    LEAFDIM[acc] = LEAFDIM[l]
                b = T.subst(upd[l], {l: acc, i: k})
                solved[l] = T.fold(i, ini[l], T.lam(k, T.lam(acc, b)), l.args[1])
            else:
                acc = T.fresh("acc", "tup")
                m = {l: T.fld(acc, None, n, l.args[1]) for n, l in enumerate(grp)}
                m2 = dict(m)
                m2[i] = k
                b = T.tup(*[T.subst(upd[l], m2) for l in grp])
                f = T.fold(i, T.tup(*[ini[l] for l in grp]), T.lam(k, T.lam(acc, b)), "tup")
                for n, l in enumerate(grp):
                    solved[l] = T.fld(f, None, n, l.args[1])
            todo = [l for l in todo if l not in best]
            for l in todo:
                upd[l] = T.subst(upd[l], solved)

    def trip(self, c, i):
        """number of rounds: least i with not c(i)"""
        if c is T.TRUE:
            return None
        if c is T.FALSE:
            return T.I(0)
        for x in (c.args[0] if c.op == "and" else (c,)):
            d = T.bor(*[y for y in x.args[0] if not T.has(y, i)]) if x.op == "or" else T.FALSE
            if d is not T.FALSE:
                rest = T.band(*[y for y in c.args[0] if y is not x]) if c.op == "and" else T.TRUE
                dep = T.bor(*[y for y in x.args[0] if T.has(y, i)])
                with T.under(T.cur().plus(d)):
                    a = self.trip(T.renorm(rest), i)
                with T.under(T.cur().plus(T.bnot(d))):
                    b = self.trip(T.renorm(T.band(dep, rest)), i)
                if a is not None and b is not None:
                    return T.ite(d, a, b)
                return T.first_trip(c, i)
        if c.op == "and":
            ns = [(x, self.trip(x, i)) for x in c.args[0]]
            if any(n is None for _, n in ns):
                return T.first_trip(c, i)
            open_ = [x for x, n in ns if has_trip(n)]
            if open_ and len(open_) < len(ns):
                # the other conjuncts bound the rounds in which these are looked at
                b = T.mx(T.I(0), T.mn(*[n for x, n in ns if x not in open_]))
                with T.under(T.cur().plus(T.lt(i, b))):
                    return T.first(b, T.lam(i, T.renorm(T.bnot(T.band(*open_)))))
            if open_:
                return T.first_trip(c, i)
            return T.mn(*[n for _, n in ns])
        if c.op == "ge0":
            p = T._poly(c.args[0])
            k = p.get((i,), 0)
            rest = T._mkpoly({m: x for m, x in p.items() if m != (i,)})
            if k < 0 and not T.has(rest, i):
                # rest - |k| i >= 0  <=>  i <= rest/|k| : rounds = floor(rest/|k|) + 1 if rest >= 0 else 0
                if k == -1:
                    return T.mx(T.I(0), T.add(rest, T.I(1)))
                return T.idiv(T.mx(T.I(0), T.add(rest, T.I(-k))), T.I(-k))
            if not T.has(c, i):
                return T.first_trip(c, i)
        if c.op == "not" and c.args[0].op == "eq0":
            p = T._poly(c.args[0].args[0])
            k = p.get((i,), 0)
            rest = T._mkpoly({m: x for m, x in p.items() if m != (i,)})
            if k in (1, -1) and not T.has(rest, i):
                v = rest if k == -1 else T.neg(rest)
                # leaves at i = v, when v >= 0 (otherwise the counter runs away)
                return v
        return T.first_trip(c, i)

    def havoc(self, base, cells, leaves, exits, cont, i, what):
        raise Unsup("trip count of loop " + what)


LEAFDIM = {}
T.LEAFDIM = LEAFDIM


def has_trip(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.op == "trip":
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(T.subterms(x))
    return False


def isseq(v):
    return v.op in ("cat", "tab", "flat", "list", "slice", "store") or (v.op == "sym" and v.args[1].startswith("seq:"))


def as_append(u, l):
    """e with u = cat(l, e), or None"""
    if u is l:
        return T.EMPTY
    if u.op == "cat" and u.args[0][0] is l:
        return T.cat(*u.args[0][1:])
    if u.op == "ite":
        a, b = as_append(u.args[1], l), as_append(u.args[2], l)
        if a is not None and b is not None and not T.has(u.args[0], l):
            return T.ite(u.args[0], a, b)
    return None


def bitwise(u, l, v0, i):
    """bits set one after the other in zeroed bytes"""
    if not (v0.op == "tab" and v0.args[1].op == "lam" and v0.args[1].args[0] is T.I(0)):
        return None
    c = T.TRUE
    if u.op == "ite" and l in u.args[1:]:
        c, u = (u.args[0], u.args[1]) if u.args[2] is l else (T.bnot(u.args[0]), u.args[2])
    q = T.idiv(i, T.I(8))
    if u.op != "store" or u.args[0] is not l or u.args[1] is not q:
        return None
    old, x = T.at(l, q), u.args[2]
    if x.op == "ite" and old in x.args[1:]:
        c, x = T.band(c, x.args[0] if x.args[2] is old else T.bnot(x.args[0])), x.args[1] if x.args[2] is old else x.args[2]
    if x.op != "bor" or old not in x.args:
        return None
    x = x.args[0] if x.args[1] is old else x.args[1]
    if x.op == "ite" and T.I(0) in x.args[1:]:
        c, x = T.band(c, x.args[0] if x.args[2] is T.I(0) else T.bnot(x.args[0])), x.args[1] if x.args[2] is T.I(0) else x.args[2]
    if x.op == "icast":
        x = x.args[1]
    j = T.imod(i, T.I(8))
    order = {T.pow2(j): "Lsb0", T.pow2(T.sub(T.I(7), j)): "Msb0"}.get(x)
    if order is None or T.has(c, l):
        return None
    k = T.fresh("k", "nat")
    bits = T.tab(i, T.lam(k, T.subst(c, {i: k})))
    return T.pack(T.cat(bits, T.tab(T.sub(T.mul(T.I(8), v0.args[0]), i), T.mk("lam", T.FALSE))), order)


def pointwise(u, l, v0, i):
    """stores at the i-th position that depend only on that position"""
    b = bitwise(u, l, v0, i)
    if b is not None:
        return b
    if u.op == "store" and u.args[0] is l:
        d = T.sub(u.args[1], i)
        if T.has(d, i) or T.has(d, l):
            return None
        x = u.args[2]
        k = T.fresh("k", "nat")
        if not T.has(T.subst(x, {T.at(l, u.args[1]): T.I(0)}), l):
            # position d + i
            vk = T.subst(T.subst(x, {T.at(l, u.args[1]): T.at(v0, u.args[1])}), {i: T.sub(k, d)})
            return T.tab(T.length(v0), T.lam(k, T.ite(T.band(T.le(d, k), T.lt(k, T.add(d, i))), vk, T.at(v0, k))))
        return None
    if u.op in ("paste", "store2", "mat"):
        return pointwise2(u, l, v0, i)
    return None


def pointwise2(u, l, v0, i):
    """matrix updates that write each position in at most one step: the whole walk as one matrix"""
    R, C = T.rows(v0), T.cols(v0)
    r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
    facts = T.cur().plus(T.lt(r, R), T.lt(c, C))
    with T.under(facts):
        w = written(u, l, r, c, i)
        if w is None:
            return None
        cond, cell, phi = w
        phi = phi if phi is not None else _step_of(cond, i)
        if phi is None or T.has(phi, l) or T.has(phi, i):
            return None
        cond = T.subst(cond, {i: phi})
        if T.has(cond, l):
            cond = _dims_only(cond, l, v0)
            if cond is None:
                return None
        cond = T.band(T.le(T.I(0), phi), T.lt(phi, i), cond)
    with T.under(facts.plus(cond)):
        cell = T.subst(cell, {i: phi})

        def unseen(a, b):
            """position (a, b) is not written before the step that writes (r, c)"""
            if a is r and b is c:
                return True
            at_ab = T.subst(phi, {r: a, c: b})
            return T.prove_ge0(T.sub(at_ab, phi))
        cell = _local(cell, l, v0, unseen, r, c)
        if cell is None:
            return None
    with T.under(facts):
        return T.mat(R, C, T.lam(r, T.lam(c, T.ite(cond, cell, T.at2(v0, r, c)))))


def written(u, l, r, c, i):
    """(condition, value, step) under which u differs from l at row r, column c"""
    if u.op == "paste" and u.args[0] is l:
        _, r0, c0, s = u.args
        H, W = T.rows(s), T.cols(s)
        cond = T.band(T.le(r0, r), T.lt(r, T.add(r0, H)), T.le(c0, c), T.lt(c, T.add(c0, W)))
        cell = T.at2(s, T.sub(r, r0), T.sub(c, c0))
        if H is T.I(1):
            cond = T.band(T.eq(r, r0), T.le(c0, c), T.lt(c, T.add(c0, W)))
            cell = T.at2(s, T.I(0), T.sub(c, c0))
        elif W is T.I(1):
            cond = T.band(T.eq(c, c0), T.le(r0, r), T.lt(r, T.add(r0, H)))
            cell = T.at2(s, T.sub(r, r0), T.I(0))
        return cond, cell, None
    if u.op == "store2" and u.args[0] is l:
        _, rr, cc, v = u.args
        if rr.op == "idiv" and cc.op == "imod" and rr.args == cc.args:
            # position number n = rr * W + cc
            n, W = rr.args
            d = T.sub(n, i)
            if T.has(d, i):
                return None
            return T.lt(c, W), v, T.sub(T.add(T.mul(r, W), c), d)
        return T.band(T.eq(rr, r), T.eq(cc, c)), v, None
    if u.op == "store2" and u.args[0].op == "store2":
        return _several(u, l, r, c, i)
    if u.op == "mat" and T.rows(u) is T.rows(l) and T.cols(u) is T.cols(l):
        z = T.at2(u, r, c)
        old = T.at2(l, r, c)
        if z.op == "ite" and z.args[2] is old:
            return z.args[0], z.args[1], None
        if z.op == "ite" and z.args[1] is old:
            return T.bnot(z.args[0]), z.args[2], None
    return None


def _several(u, l, r, c, i):
    """m stores in a step, at the positions m*i + d .. m*i + d + m-1 of a row-major walk"""
    stores = []
    while u.op == "store2":
        stores.append(u.args[1:])
        u = u.args[0]
    m = len(stores)
    if u is not l or any(rr.op != "idiv" or cc.op != "imod" or rr.args != cc.args or rr.args[1] is not stores[0][0].args[1] for rr, cc, _ in stores):
        return None
    W = stores[0][0].args[1]
    offs = [T.sub(rr.args[0], T.scale(i, m)) for rr, _, _ in stores]
    first = T._poly(offs[0]).get((), 0)
    base = T.sub(offs[0], T.I(first))
    if T.has(W, l) and W.op != "cols" or T.has(W, i) or T.has(base, i) or T.has(base, l) or any(not T.is_int(T.sub(o, base)) for o in offs):
        return None
    at = [T.sub(o, base).args[0] for o in offs]
    low = min(at)
    if sorted(at) != list(range(low, low + m)):
        return None
    d = T.add(base, T.I(low))
    k = T.sub(T.add(T.mul(r, W), c), d)
    cell = None
    for (rr, cc, v), a in zip(stores, at):
        v = T.subst(v, {T.at2(l, rr, cc): T.at2(l, r, c)})
        cell = v if cell is None else T.ite(T.eq(T.imod(k, T.I(m)), T.I(a - low)), v, cell)
    return T.lt(c, W), cell, T.idiv(k, T.I(m))


def _step_of(cond, i):
    """the only step at which cond can hold"""
    cs = cond.args[0] if cond.op == "and" else (cond,)
    for x in cs:
        if x.op != "eq0":
            continue
        p = T._poly(x.args[0])
        k = p.get((i,), 0)
        rest = T._mkpoly({m: z for m, z in p.items() if m != (i,)})
        if k in (1, -1) and not T.has(rest, i):
            return rest if k == -1 else T.neg(rest)
    return None


def _dims_only(t, l, v0):
    n = T.rewrite(t, lambda x: T.rows(v0) if x.op == "rows" and x.args[0] is l else (
        T.cols(v0) if x.op == "cols" and x.args[0] is l else None))
    return None if T.has(n, l) else n


def _local(cell, l, v0, okf, r, c):
    """cell with reads of the current matrix l replaced by v0, when they stay in the row/column being rewritten"""
    good = [True]

    def fn(x):
        if x.op == "at2" and x.args[0] is l:
            if okf(x.args[1], x.args[2]):
                return T.at2(v0, x.args[1], x.args[2])
            good[0] = False
        return None
    n = T.rewrite(cell, fn)
    if not good[0]:
        return None
    # whole-matrix mentions other than dimensions
    if T.has(n, l):
        n = T.rewrite(n, lambda x: T.rows(v0) if x.op == "rows" and x.args[0] is l else (
            T.cols(v0) if x.op == "cols" and x.args[0] is l else None))
        if T.has(n, l):
            return None
    return n


def leaf_sort(a, b):
    for x in (a, b):
        if x.op in T.BOOLOPS:
            return "bool"
    for x in (a, b):
        if x.op in ("mat", "store2", "paste", "submat", "shape"):
            return "mat"
        if x.op == "sym" and x.args[1].startswith("mat"):
            return x.args[1]
        if x.op in ("app", "fold") and isinstance(x.args[1 if x.op == "app" else 3], str) and x.args[1 if x.op == "app" else 3].startswith("mat"):
            return "mat"
    for x in (a, b):
        if T._intish(x):
            return "nat" if T.rng(a)[0] is not None and T.rng(a)[0] >= 0 and T.rng(b)[0] is not None and T.rng(b)[0] >= 0 else "int"
    for x in (a, b):
        if x.op in ("list", "tab", "cat", "slice", "flat", "store", "unpack", "pack", "rev", "bytes", "str"):
            s = T.elemsort(x)
            if s is None:
                e = T.at(x, T.fresh("e", "nat"))
                s = "bool" if e.op in T.BOOLOPS else ("int" if T._intish(e) else "f64" if e.op in (
                    "fadd", "fmul", "fdiv", "fsub", "fneg", "i2f", "fn", "flt") else "?")
            return "seq:" + s
        if x.op == "sym":
            return x.args[1]
    for x in (a, b):
        if x.op in ("fadd", "fmul", "fdiv", "fsub", "fneg", "i2f", "fn", "flt"):
            return "f64"
        if x.op == "app":
            return x.args[1]
    return "?"


def find_folds(v, memo):
    out = []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "fold":
            out.append(t)
        for x in T.subterms(t):
            go(x)
    go(v)
    return out


class FnRef:
    """hashable wrapper of a callee description"""
    _tab = {}

    def __new__(cls, j):
        k = (j.get("reskey") or j["key"], str(j.get("resargs", j.get("args"))))
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.j = j
            cls._tab[k] = o
        return o

    def __init__(self, j):
        pass

    def __str__(self):
        return self.j.get("res") or self.j["path"]

    def __repr__(self):
        return "FnRef(%s)" % self


class Call:
    """what a library model sees"""
    __slots__ = ("E", "fr", "st", "fj", "path", "args", "ty", "span", "used")

    def __init__(self, E, fr, st, fj, path, args, ty, span):
        self.E, self.fr, self.st, self.fj, self.path, self.args, self.ty, self.span = E, fr, st, fj, path, args, ty, span

    def v(self, k):
        return self.E.val(self.st, self.args[k])

    def require(self, c, kind):
        """the call panics unless c; False when it certainly panics"""
        if c is T.TRUE:
            return True
        self.E.panic(self.st, T.bnot(c), kind, self.span)
        if c is T.FALSE:
            return False
        self.st.facts = self.st.facts.plus(c)
        return True

    def set(self, k, x):
        self.E.store(self.st, self.E.target(self.st, self.args[k]), x)

    def call(self, clo, *args):
        v, s = self.E.call_closure(self.st, clo, list(args))
        if v is None:
            return None
        self.st = s
        return v


def parse_float(x):
    if isinstance(x, (int, float)):
        return float(x)
    return float(x)


CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}


def binop(op, a, b, ty):
    k = ty["k"]
    if k == "float" or a.op == "flt" or b.op == "flt":
        if op in CMP:
            return {"Eq": lambda: T.fcmp("feqc", a, b), "Ne": lambda: T.bnot(T.fcmp("feqc", a, b)),
                    "Lt": lambda: T.fcmp("fltc", a, b), "Le": lambda: T.fcmp("flec", a, b),
                    "Gt": lambda: T.fcmp("fltc", b, a), "Ge": lambda: T.fcmp("flec", b, a)}[op]()
        m = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}
        r = T.fop(m[op], a, b) if op != "Rem" else T.mk("frem", a, b)
        return T.f32(r) if ty.get("n") == "f32" else r
    if k == "bool" or a.op in T.BOOLOPS or b.op in T.BOOLOPS:
        if op in ("Eq",):
            return T.ite(a, b, T.bnot(b))
        if op in ("Ne", "BitXor"):
            return T.ite(a, T.bnot(b), b)
        if op == "BitAnd":
            return T.band(a, b)
        if op == "BitOr":
            return T.bor(a, b)
        if op in CMP:
            ia, ib = T.ite(a, T.I(1), T.I(0)), T.ite(b, T.I(1), T.I(0))
            return binop(op, ia, ib, {"k": "int", "n": "u8"})
    if op in CMP:
        if k not in ("int", "char") and not (T._intish(a) and T._intish(b)):
            e = T.eq(a, b)
            if op == "Eq":
                return e
            if op == "Ne":
                return T.bnot(e)
            raise Unsup("ordering of " + k)
        return {"Eq": lambda: T.eq0(T.sub(a, b)), "Ne": lambda: T.bnot(T.eq0(T.sub(a, b))), "Lt": lambda: T.lt(a, b),
                "Le": lambda: T.le(a, b), "Gt": lambda: T.lt(b, a), "Ge": lambda: T.le(b, a)}[op]()
    n = ty.get("n", "usize")
    lo, hi = T.INTR.get(n, T.INTR["u64"])
    base = op.replace("WithOverflow", "").replace("Unchecked", "")
    if base in ("Add", "Sub", "Mul"):
        r = {"Add": lambda: T.add(a, b), "Sub": lambda: T.sub(a, b), "Mul": lambda: T.mul(a, b)}[base]()
        if op.endswith("WithOverflow"):
            flags = []
            if base == "Sub" or lo < 0 and base != "Add":
                flags.append(T.lt(r, T.I(lo)))
            if hi < 2 ** 31:
                flags.append(T.lt(T.I(hi), r))
                if lo < 0:
                    flags.append(T.lt(r, T.I(lo)))
            if lo < 0 and hi >= 2 ** 31:
                flags = []      # 32 and 64 bit signed counters: assumed not to overflow
            return T.tup(r, T.bor(*flags))
        if op in ("Add", "Sub", "Mul"):
            return r
        return r
    if op == "Div":
        if T.is_nonneg(a) and T.is_nonneg(b):
            return T.idiv(a, b)
        return T.mk("tdiv", a, b)
    if op == "Rem":
        if T.is_nonneg(a) and T.is_nonneg(b):
            return T.imod(a, b)
        return T.mk("trem", a, b)
    if op == "BitAnd":
        return T.bits_and(a, b)
    if op == "BitOr":
        return T.bits_or(a, b)
    if op == "BitXor":
        return T.bits_xor(a, b)
    if op.startswith("Shl"):
        return T.shl(n, a, b) if not op.endswith("WithOverflow") else T.tup(T.shl(n, a, b), T.FALSE)
    if op.startswith("Shr"):
        return T.shr(a, b)
    raise Unsup("operator " + op)
