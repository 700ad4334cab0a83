"""Program index over the extracted facts: bodies, call sites, resolved call graph."""
import collections
import glob
import json
import os


class Call:
    __slots__ = ("body", "bb", "fn", "path", "name", "args", "dest", "target", "span", "operand", "expanded")

    def __repr__(self):
        return "%s @ %s" % (self.path, self.span)


class Body:
    def __init__(self, crate, j):
        self.crate = crate
        self.j = j
        self.key = j["key"]
        self.friendly = j["friendly"]
        self.kind = j["kind"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.parent = j.get("parent")
        self.expanded = j.get("expanded", False)
        self._calls = None
        self._ipd = {}

    def file(self):
        return self.span.rsplit(":", 1)[0]

    def succs(self, i, unwind=False):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if k in ("return", "unreachable"):
            return []
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def live_blocks(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def calls(self):
        """call sites on non-cleanup blocks reachable from the entry"""
        if self._calls is None:
            out = []
            for i in sorted(self.live_blocks()):
                x = self.blocks[i]
                t = x["t"]
                if t[0] != "call":
                    continue
                c = Call()
                c.body, c.bb, c.operand = self, i, t[1]
                f = t[1][1].get("fn") if t[1][0] == "const" else None
                c.fn = f
                c.path = (f.get("res") or f["path"]) if f else None
                c.name = f["name"] if f else None
                c.args, c.dest, c.target = t[2], t[3], t[4]
                c.span = x["sp"]
                c.expanded = x.get("exp")
                out.append(c)
            self._calls = out
        return self._calls


def consts_in(o, out):
    """all constant operands below a JSON node"""
    if isinstance(o, list):
        if len(o) == 2 and o[0] == "const" and isinstance(o[1], dict):
            out.append(o[1])
            for v in o[1].values():
                consts_in(v, out)
            return
        for x in o:
            consts_in(x, out)
    elif isinstance(o, dict):
        for x in o.values():
            consts_in(x, out)


def tystr(t):
    if t is None:
        return "?"
    k = t["k"]
    if k in ("int", "float", "param"):
        return t["n"]
    if k == "adt":
        a = ",".join(tystr(x) for x in t["args"])
        return t["path"] + ("<%s>" % a if a else "")
    if k == "ref":
        return ("&mut " if t["mut"] else "&") + tystr(t["to"])
    if k == "ptr":
        return ("*mut " if t["mut"] else "*const ") + tystr(t["to"])
    if k == "slice":
        return "[%s]" % tystr(t["of"])
    if k == "array":
        return "[%s;%s]" % (tystr(t["of"]), t["n"])
    if k == "tuple":
        return "(%s)" % ",".join(tystr(x) for x in t["of"])
    if k == "closure":
        return t["def"]
    if k == "fndef":
        return "fn " + t["def"]
    return t.get("s", k)


class Program:
    def __init__(self, facts_dir):
        self.dir = facts_dir
        self.crates = {}
        self.bodies = {}
        self.by_friendly = collections.defaultdict(list)
        self.items = []
        self.unsafe = []
        for f in sorted(glob.glob(os.path.join(facts_dir, "*.json"))):
            with open(f) as fh:
                j = json.load(fh)
            name = j["crate"]
            self.crates[name] = j
            for b in j["bodies"]:
                bd = Body(name, b)
                self.bodies[bd.key] = bd
                self.by_friendly[bd.friendly].append(bd)
            for i in j["items"]:
                i["crate"] = name
                self.items.append(i)
            for u in j["unsafe"]:
                u["crate"] = name
                self.unsafe.append(u)
        self.children = collections.defaultdict(list)
        for b in self.bodies.values():
            if b.parent:
                self.children[b.parent].append(b)

    def fns(self, kinds=("fn", "closure")):
        return [b for b in self.bodies.values() if b.kind in kinds]

    def find(self, friendly):
        """the body of that name, None when absent"""
        x = [b for b in self.by_friendly.get(friendly, []) if b.kind in ("fn", "closure")]
        return x[0] if x else None

    def functions_mentioned(self, body):
        """every function a body calls or takes as a value: (friendly path, key, fn json, span)"""
        out = []
        for i in body.live_blocks():
            x = body.blocks[i]
            cs = []
            consts_in(x["st"], cs)
            consts_in(x["t"], cs)
            for c in cs:
                f = c.get("fn")
                if f:
                    out.append((f.get("res") or f["path"], f.get("reskey") or f["key"], f, x["sp"]))
        return out

    def closures_in(self, body):
        out = []

        def walk(o):
            if isinstance(o, list):
                if o and o[0] == "closure" and len(o) > 1 and isinstance(o[1], str):
                    out.append(o[1])
                for x in o:
                    walk(x)
            elif isinstance(o, dict):
                if o.get("k") == "closure":
                    out.append(o["def"])
                for x in o.values():
                    walk(x)
        for i in body.live_blocks():
            walk(body.blocks[i]["st"])
            walk(body.blocks[i]["t"])
        return out

    def callgraph(self):
        """key -> set of local keys it may run (calls, closures created, function values taken)"""
        g = {}
        for b in self.bodies.values():
            s = set()
            for _, k, f, _ in self.functions_mentioned(b):
                if k in self.bodies:
                    s.add(k)
                elif f["key"] in self.bodies:
                    s.add(f["key"])
                # an unresolved trait method: every local implementation may be meant
                elif f.get("trait") and not f.get("res"):
                    for o in self.bodies.values():
                        if o.friendly.endswith(" as %s>::%s" % (f["trait"], f["name"])):
                            s.add(o.key)
            for k in self.closures_in(b):
                if k in self.bodies:
                    s.add(k)
            g[b.key] = s
        return g

    def reach(self, keys):
        g = self.callgraph()
        seen, st = set(keys), list(keys)
        while st:
            k = st.pop()
            for n in g.get(k, ()):
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return seen

    def const_body(self, key):
        return self.bodies.get(key)


_cache = {}


def load(facts_dir):
    if facts_dir not in _cache:
        _cache[facts_dir] = Program(facts_dir)
    return _cache[facts_dir]
