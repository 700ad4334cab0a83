"""C23, C24: the web module and the command line tool around the watermarking of an image."""
from .. import fsio as S
from .. import images as G
from .. import interp as N
from .. import oblig as O
from .. import terms as T
from .. import webio as W
from ..exec import Unsup
from ..models import isok, isopt, short
from .stego import find

WATERMARK, MARKED = "watermarking::watermark", "spec:watermark"
MODEL, PROCESS, ENTRY = "web::image_model::ImageModel", "web::watermarking_process::WatermarkingProcess", "web::get_watermarking_process"
MAIN = "cli::main"


def _marked(*args):
    return W.made(N.digest(*args))


N.INTERP[MARKED] = _marked


def imports(ctx):
    """functions of JavaScript the module imports: they return nothing and change nothing of the module"""
    out = {}
    for b in ctx.P.bodies.values():
        a, _, z = b.friendly.rpartition("::")
        if z.startswith("__wbg_") and a.startswith("web::logging"):
            out[a] = lambda E, st, args: (T.UNIT, st)
    return out


def _watermark(E, st, args):
    a = [E.val(st, x) for x in args]
    E.event(st, "watermark", a, "")
    return T.app(MARKED, "DynamicImage", *a), st


# ---------------------------------------------------------------- C23

BLOB, DEPTH, STEP = T.sym("blob", "seq:u8"), T.sym("depth", "f64"), T.sym("step", "f64")
GUESSED = T.app(W.GUESS, "Option", BLOB)
FORMAT = T.fld(GUESSED, "Some", 0, "ImageFormat")
DECODED = T.app(W.DECODE, "Result", BLOB, FORMAT)
SOURCE = T.fld(DECODED, "Ok", 0, "DynamicImage")


def _blobs():
    r = O.rnd("c23")
    out = []
    for k, (m, f) in enumerate(W.MAGIC * 4):
        n = r.choice([0, 1, 5, 40, 300])
        b = m + bytes(r.randrange(256) for _ in range(n))
        out.append({"blob": O.seq(b), "depth": r.choice([0.5, 1.0, 30.0, 100.0, 12.25]), "step": r.choice([1.0, 0.5, 2.0, 3.75, 0.1])})
    for b in (b"", b"no image", b"\x89PNG\r\n\x1a", b"\xff\xd8\xffdamaged", b"GIF88a"):
        out.append({"blob": O.seq(b), "depth": 10.0, "step": 1.0})
    return out


def c23(ctx):
    names = [ENTRY] + ["%s::%s" % (MODEL, f) for f in ("new", "get_width", "set_width", "get_height", "set_height", "get_data", "set_data")] + \
        ["%s::%s" % (PROCESS, f) for f in ("new", "get_source_format", "set_source_format", "get_source", "set_source", "get_watermarked", "set_watermarked")]
    if not all([ctx.anchor(n) is not None for n in names]) or ctx.anchor(WATERMARK) is None:
        return
    ctx.rule("the models the entry point returns, read through their accessors, are as value graphs those of the decoded bytes and of their watermarked version")
    bd = dict(imports(ctx), **{WATERMARK: _watermark})
    may = T.bor(T.bnot(isopt(GUESSED)), T.bnot(isok(DECODED)))
    state = {}

    def run():
        if "p" not in state:
            p = O.Prog(ctx, boundary=bd)
            v = p.call(ENTRY, BLOB, DEPTH, STEP)
            if v is None:
                raise Unsup("always panics")
            state["p"] = p, v
            ms = [e for e in p.E.events if e[1] == "watermark"]
            state["n"] = {e[2][3] for e in ms}
        return state["p"]

    def via(p, v, *fs):
        for f in fs:
            v = p.call(f, v)
            if v is None:
                raise Unsup("accessor panics")
        return v
    vals = _blobs()

    def ob(key, text, get, want, norm=None):
        def mk():
            p, v = run()
            return p, via(p, v, *get)
        O.decide(ctx, key, text, mk, want, vals, may=may, where=ENTRY, norm=norm)
    ob("format", "the format's name is that of the format detected in the bytes", ["%s::get_source_format" % PROCESS], T.app(W.DEBUG, "seq:u8", FORMAT))

    def count():
        c = sorted(t.args[0] for t in state.get("n", ()) if T.is_int(t))
        if not c:
            raise Unsup("number of features")
        return T.I(c[0])
    marked = lambda: T.app(MARKED, "DynamicImage", SOURCE, DEPTH, STEP, count())  # noqa: E731
    for name, get, img in (("source", "get_source", lambda: SOURCE), ("watermarked", "get_watermarked", marked)):
        g = ["%s::%s" % (PROCESS, get)]
        ob(name + "-width", "the width of the %s image is its own" % name, g + [MODEL + "::get_width"], lambda pr, img=img: G.width(img()))
        ob(name + "-height", "the height of the %s image is its own" % name, g + [MODEL + "::get_height"], lambda pr, img=img: G.height(img()))
        ob(name + "-data", "the samples of the %s image are its red, green, blue and alpha in order" % name, g + [MODEL + "::get_data"],
           lambda pr, img=img: G.samples(G.buffer(img(), "Rgba"), 4), norm=O.spread)
    # the same number of features as the command line tool
    key = "feature-count"
    ctx.count("obligations over value graphs")
    try:
        mine = {t.args[0] if T.is_int(t) else None for t in state.get("n", {None})}
        tool = {e[2][3].args[0] if T.is_int(e[2][3]) else None for e in _tool(ctx)[0].E.events if e[1] == "watermark"}
    except (Unsup, RecursionError, T.Budget) as e:
        mine, tool = {None}, str(e)
    if not tool or None in mine or isinstance(tool, str) or None in tool or len(tool) != 1:
        ctx.undecided(key, "number of features: not constant (%s, %s)" % (mine, tool))
    elif mine == tool:
        ctx.proved(key, "the same number of features as in the command line tool")
    else:
        ctx.violation(key, "%s: calculates %s features, the command line tool %s" % (ENTRY, sorted(mine), sorted(tool)))
    _accessors(ctx)


def _accessors(ctx):
    r = O.rnd("c23a")
    img = lambda n: T.ctor(MODEL, [T.sym(n + "w", "u32"), T.sym(n + "h", "u32"), T.sym(n + "d", "seq:u8")], 0)  # noqa: E731
    table = [(MODEL, [("width", T.sym("aw", "u32"), T.sym("bw", "u32")), ("height", T.sym("ah", "u32"), T.sym("bh", "u32")), ("data", T.sym("ad", "seq:u8"), T.sym("bd", "seq:u8"))]),
             (PROCESS, [("source_format", T.sym("af", "seq:u8"), T.sym("bf", "seq:u8")), ("source", None, None), ("watermarked", None, None)])]
    vals = []
    for _ in range(6):
        v = {}
        for a in "abcdef":
            for f in "wh":
                v[a + f] = r.randrange(2 ** 32)
            for f in "df":
                v[a + f] = O.seq([r.randrange(256) for _ in range(r.randrange(9))])
        vals.append(v)

    def model(n):
        p = O.Prog(ctx)
        v = p.call(MODEL + "::new", T.sym(n + "w", "u32"), T.sym(n + "h", "u32"), T.sym(n + "d", "seq:u8"))
        if v is None:
            raise Unsup("constructor panics")
        return v

    for ty, fields in table:
        def args(which, ty=ty, fields=fields):
            out = [f[which] for f in fields]
            if ty == PROCESS:
                out[1], out[2] = (model("a"), model("c")) if which == 1 else (model("b"), model("d"))
            return out
        name = short(ty)
        for k, f in enumerate(fields):
            def mk(k=k, f=f, args=args, ty=ty):
                p = O.Prog(ctx)
                v = p.call(ty + "::new", *args(1))
                return p, p.call("%s::get_%s" % (ty, f[0]), v)
            O.decide(ctx, "%s:new-%s" % (name, f[0]), "%s made with a %s has it" % (name, f[0]), mk, lambda pr, k=k, args=args: args(1)[k], vals, where=ty)
            for j, g in enumerate(fields):
                def mk2(k=k, f=f, g=g, args=args, ty=ty):
                    p = O.Prog(ctx)
                    c = p.cell(p.call(ty + "::new", *args(1)))
                    p.call("%s::set_%s" % (ty, f[0]), c, args(2)[k])
                    return p, p.call("%s::get_%s" % (ty, g[0]), p.val(c))
                O.decide(ctx, "%s:set-%s-get-%s" % (name, f[0], g[0]), "setting %s of %s %s" % (f[0], name, "replaces it" if j == k else "leaves %s alone" % g[0]), mk2,
                         lambda pr, k=k, j=j, args=args: args(2)[k] if j == k else args(1)[j], vals, where=ty)


# ---------------------------------------------------------------- C24

def _tool(ctx):
    memo = ctx.__dict__.setdefault("_tool", {})
    if "p" not in memo:
        p = O.Prog(ctx, boundary={WATERMARK: _watermark})
        try:
            p.call(MAIN)
            ctx.count("functions inlined", len(p.E.analysed))
            memo["p"] = p, p.E.events
        except Unsup as e:
            memo["p"] = e
    if isinstance(memo["p"], Unsup):
        raise memo["p"]
    return memo["p"]


def _loop(e):
    """loop counters an event depends on"""
    return sorted({s for t in list(e[0].fs) + list(e[2]) for s in N.symbols(t) if s is not S.ARGV}, key=lambda s: s.id)


RUNS = [("wm", None, ["a.png"]), ("wm", "out", ["a.png"]), ("wm", None, ["x/a.png", "y/b.jpg", "c.tiff"]), ("v1.2", "out", ["x/a.b.png", "../up/Q.JPG"]), ("", "out/", ["p.gif"]),
        ("w", ".", ["/abs/dir/n-m.bmp", "./rel.pgm", "d/with space.PNG"]), ("wm", "/data/out", ["one.jpeg", "two.jpeg"]), ("wm", "a/b/out", ["a.png", "b.png", "c.png", "a.jpg"]),
        ("e\u00e9", None, ["\u00fcber.png"]), ("wm", "fresh", ["a.png"]), ("wm", "dir/fresh2", ["x/a.png"]), ("png", "out", ["out/a.png", "png"[:0] + "b.c.d.tif"]), ("x y", "../out", ["s.ppm"]),
        ("_", None, ["a-b.c-d.png", "x/y/z.w/k.png"]), ("wm", "out", ["d.d/noise.jpg"]), ("long" * 20, "out", ["q" * 100 + ".png"]), ("s", "out", [".hidden.png"])]
MANY = ["in/%02d-%s.%s" % (i, "ab"[i % 2] * (1 + i % 5), ("png", "jpg", "bmp", "tiff", "gif", "PNG")[i % 6]) for i in range(12)]
LISTS = [["/abs/in/a.png"], ["a.png", "a.png"], ["x/a.png", "y/a.png"], ["x/a.png", "b.png", "y/a.png", "x/a.png"], ["a.png", "a.jpg"], ["../../b.bmp", "./b.bmp", "b.bmp"], ["out/a.png"], ["deep/er/and/deeper/c.gif"],
         ["A.png", "a.png"], ["a.tar.png", "a.png"], ["a b/c d.jpeg"], ["a.PNG", "a.Jpeg", "a.TIF"], ["..hidden.bmp"], ["d/e/../f.ppm"], ["n0.png", "n1.png", "n2.png", "n3.png", "n4.png", "n5.png", "n6.png", "n7.png", "n8.png"], ["/in/1.png", "in/1.png", "/2.jpg"], ["x/-wm.png"],
         MANY, ["z.pnm", "y.pbm", "x.pam"], ["1.2.3.4.png", "1.2.3.png"], ["x//y///z.png"], ["\u65e5\u672c.png", "\u65e5.jpg"]]
RUNS += [(s, o, inp) for n, inp in enumerate(LISTS) for s, o in (("wm", None), ("wm", "out"), ("wm", "/data/out"), (("copy", "wm.v2", "a-b", "PNG", "0")[n % 5], ("fresh", "out/", "../out", "a/b/out", ".")[n % 5]))]
SILENT = [(None, None, ["a.png"]), (None, "out", ["a.png", "b.jpg"]), (None, "fresh", ["x/a.png"]), (None, "out", ["a.b.tiff"]), ("wm", "out", [])]


def _argv(suffix, folder, inputs, order=0):
    a = [b"cli"]
    if order == 1:
        a += [x.encode() for x in inputs]
    if suffix is not None:
        a += [b"-s", suffix.encode()]
    if folder is not None:
        a += [b"-o", folder.encode()]
    if order != 1:
        a += [x.encode() for x in inputs]
    return {"argv": O.seq([O.seq(x) for x in a])}


def _usable(folder):
    return folder is None or N.INTERP["fs:is_dir"](S.back(folder)) or not N.INTERP["fs:exists"](S.back(folder))


def _where(suffix, folder, p):
    st, ex = S.stem_ext(S.file_name(p))
    n = "%s-%s.%s" % (st, suffix, ex)
    return S.absolute(n if folder is None else folder + "/" + n)


def _log(events, val, top=7):
    """events at constants: (kind, arguments, index in program order, loop values)"""
    out = []
    for n, e in enumerate(events):
        loops = _loop(e)
        if len(loops) > 2:
            raise N.Stuck("nested loops")
        todo = [dict(val)]
        for s in loops:
            todo = [dict(v, **{s.args[0]: k}) for v in todo for k in range(top)]
        for v in todo:
            f = N.Fold(v)
            try:
                if not all(f.ev(x) for x in sorted(e[0].fs, key=lambda t: t.id)):
                    continue
                out.append((e[1], [f.ev(x) for x in e[2]], n))
            except N.Undef:
                continue
    return out


def _holds(g):
    g = T.renorm(g)
    return g is T.TRUE or g in T.cur().fs or (g.op == "or" and any(x in T.cur().fs for x in g.args[0]))


def _entails(facts, goals):
    with T.under(facts):
        return [g for g in goals if not _holds(g)]


class Tool:
    """the events of the command line tool against what they have to be"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p, self.ev = _tool(ctx)
        parses = {t for e in self.ev for x in list(e[2]) + list(e[0].fs) for t in find(x, lambda t: t.op == "app" and t.args[0] == S.PARSE)}
        self.write = [e for e in self.ev if e[1] in (S.CREATE, S.ENCODE, S.MKDIR, S.OTHER)]
        self.create = [e for e in self.ev if e[1] == S.CREATE]
        self.encode = [e for e in self.ev if e[1] == S.ENCODE]
        self.mark = [e for e in self.ev if e[1] == "watermark"]
        self.bad = sorted({f for f in self.p.E.opaque if _fsish(f)} | {x for e in self.ev for t in list(e[2]) + list(e[0].fs) for x in N.opaques(t) if x not in N.INTERP})
        self.why = None
        self.sym = None
        if len(parses) == 1 and len(self.create) == len(self.encode) == len(self.mark) == 1:
            m = T.fld(parses.pop(), "Ok", 0)
            ms = find(T.tup(*self.create[0][0].fs), lambda t: t.op == "fld" and t.args[1] == "Ok" and t.args[0].op == "app" and t.args[0].args[0] == S.PARSE)
            m = ms[0] if ms else m
            free = find(T.tup(*self.create[0][0].fs, *self.create[0][2]), lambda t: t.op == "fld" and t.args[0] is m and t.args[2] == 2)
            i = _loop(self.create[0])
            if free and len(i) == 1 and _loop(self.encode[0]) == i and _loop(self.mark[0]) == i:
                self.sym = True
                self.m, self.free, self.i = m, free[0], i[0]
                self.s, self.o = T.app(S.OPT, "Option", m, T.S("s")), T.app(S.OPT, "Option", m, T.S("o"))
                self.inp = T.at(self.free, self.i)
                st = T.fld(T.app(S.STEM, "Option", self.inp), "Some", 0)
                ex = T.fld(T.app(S.SUFFIX, "Option", self.inp), "Some", 0)
                own = lambda t: self._own(t)  # noqa: E731
                n = T.cat(own(st), T.S("-"), own(T.fld(self.s, "Some", 0)), T.S("."), own(ex))
                self.path = T.ite(isopt(self.o), T.cat(own(T.fld(T.app(S.CANON, "Result", own(T.fld(self.o, "Some", 0))), "Ok", 0)), T.S("/"), n), n)

    def _own(self, t):
        """the same field with the sort the graph gives it"""
        if t.op != "fld":
            return t
        for x in find(T.tup(*self.create[0][2], *self.create[0][0].fs), lambda x: x.op == "fld" and x.args[0] is t.args[0] and x.args[1:3] == t.args[1:3]):
            return x
        return t

    def success(self):
        """everything the tool asks of its surroundings goes well"""
        a = [isok(self.m.args[0]), isopt(self.s), T.lt(self.i, T.length(self.free)), T.bnot(T.app(S.PRESENT, "bool", self.m, T.S("h")))]
        for x in set(find(T.tup(*[f for e in self.ev for f in e[0].fs]), lambda t: t.op == "app" and t.args[0] in (S.STEM, S.SUFFIX, W.EXT))):
            a.append(isopt(x))
        for x in set(find(T.tup(*[f for e in self.ev for f in e[0].fs]), lambda t: t.op == "app" and t.args[0] in (W.DECODE, S.CREATED, S.CANON, "fs:mkdir", "fs:encoded"))):
            a.append(isok(x))
        return a


def _fsish(f):
    """a library function without a model that may touch files"""
    return any(x in f for x in ("std::fs", "std::os", "std::process", "std::net", "tempfile", "std::thread", "libc")) or "std::io" in f and "stdio" not in f or \
        f.startswith("image::") and any(x in f for x in ("save", "write", "encode"))


def c24(ctx):
    if ctx.anchor(MAIN) is None or ctx.anchor(WATERMARK) is None:
        return
    ctx.rule("what the tool does to files, as guarded events over the command line: one creation per input, at the asked path, behind the watermarking of that input, "
             "filled with its result in the format of the name; no event without a suffix; no other event")
    T.BUDGET[0] = __import__("time").time() + 100
    try:
        t = Tool(ctx)
    except (Unsup, RecursionError, T.Budget) as e:
        for k in KEYS:
            ctx.count("obligations over value graphs")
            ctx.undecided(k, "not modelled: %s" % e)
        return
    finally:
        T.BUDGET[0] = 0
    ctx.count("file-system events", len(t.write))
    for k in KEYS:
        ctx.count("obligations over value graphs")
        try:
            ok = PROOF[k](t)
        except (Unsup, RecursionError, T.Budget) as e:
            ok = str(e)
        if ok is True and not t.bad:
            ctx.proved(k, KEYS[k])
            if __import__("os").environ.get("SIA_SELF"):
                w = _search(ctx, t, k)
                print("SELF", k, w if w else "ok")
            continue
        if t.bad:
            ctx.undecided(k, "%s: uninterpreted: %s" % (KEYS[k], ", ".join(t.bad[:5])))
            continue
        w = _search(ctx, t, k)
        if w is None:
            ctx.undecided(k, "%s: %s; no separating command line" % (KEYS[k], ok))
        elif w.startswith("stuck"):
            ctx.undecided(k, "%s: %s; folding %s" % (KEYS[k], ok, w))
        else:
            ctx.violation(k, "%s: %s" % (MAIN, w))


KEYS = {
    "no-suffix": "without a suffix nothing is created or changed",
    "one-file-each": "one file is created for every input and none otherwise",
    "name": "the file is named after the stem, the suffix and the extension, in the folder given",
    "content": "the file receives the watermarked version of that input in the format of its name",
    "after-success": "the file is created behind the watermarking of that input",
    "nothing-else": "nothing else is created, changed or removed, apart from the output folder",
}


def _p_nosuffix(t):
    if not t.sym:
        return "events not understood"
    for e in t.write:
        if _entails(e[0], [isopt(t.s)]):
            return "%s not guarded by the suffix" % e[1]
    return True


def _p_one(t):
    if not t.sym:
        return "%d places that create files" % len(t.create)
    e = t.create[0]
    if _entails(e[0], [T.lt(t.i, T.length(t.free))]):
        return "loop over something else"
    fs = T.NOFACTS.plus(*t.success())
    left = _guards(fs, e, t)
    return True if not left else "further conditions: " + ", ".join(T.show(x)[:80] for x in left[:2])


def _guards(fs, e, t):
    """conditions of an event that do not follow from everything going well"""
    left = _entails(fs, sorted(e[0].fs, key=lambda f: f.id))
    out = []
    for f in left:
        # an unusable output folder may be refused
        g = T.subst(f, {x: T.TRUE for x in find(f, lambda x: x.op == "app" and x.args[0] == "fs:is_dir" and T.has(x, t.o))})
        g = T.renorm(g)
        with T.under(fs.plus(T.lt(T.I(0), T.length(S.ARGV)))):
            if not _holds(g):
                out.append(f)
    return out


def _p_name(t):
    if not t.sym:
        return "events not understood"
    e = t.create[0]
    with T.under(e[0]):
        a, b = T.renorm(e[2][0]), T.renorm(t.path)
    O._show("name", "value", a)
    O._show("name", "asked", b)
    return True if a is b else "normal forms differ"


def _p_content(t):
    if not t.sym:
        return "events not understood"
    e = t.encode[0]
    left = _guards(T.NOFACTS.plus(*t.success()), e, t)
    if left:
        return "further conditions: " + T.show(left[0])[:80]
    with T.under(e[0]):
        img, file, f = [T.renorm(x) for x in e[2]]
        path = T.renorm(t.path)
        own = file.op == "fld" and file.args[0] is T.app(S.CREATED, "Result", path)
        fok = f.op == "fld" and f.args[0].op == "app" and f.args[0].args[0] == W.EXT and T.renorm(T.eq(f.args[0].args[2][0], T.fld(T.app(S.SUFFIX, "Option", path), "Some", 0, "seq:u8"))) is T.TRUE
    iok = img.op == "app" and img.args[0] == MARKED and img.args[2][0].op == "fld" and img.args[2][0].args[0].op == "app" and img.args[2][0].args[0].args[0] == W.DECODE and \
        img.args[2][0].args[0].args[2][0] is T.app(S.CONTENT, "seq:u8", t.inp) and not any(T.has(x, t.i) for x in img.args[2][1:])
    return True if own and fok and iok else "file %s, format %s, image %s" % (own, fok, iok)


def _p_after(t):
    if not t.sym:
        return "events not understood"
    w, c, e = t.mark[0], t.create[0], t.encode[0]
    if t.ev.index(w) > t.ev.index(c):
        return "created before the watermarking"
    if _entails(c[0], list(w[0].fs)):
        return "creation not behind the watermarking"
    with T.under(e[0]):
        same = T.renorm(e[2][0]) is T.renorm(T.app(MARKED, "DynamicImage", *w[2]))
    return True if same else "another image is written"


def _p_else(t):
    if not t.sym:
        return "events not understood"
    for e in t.write:
        if e[1] == S.OTHER:
            return "further changes"
        if e[1] == S.MKDIR:
            with T.under(e[0]):
                if T.renorm(e[2][0]) is not T.renorm(t._own(T.fld(t.o, "Some", 0))):
                    return "another folder is created"
    return True


PROOF = {"no-suffix": _p_nosuffix, "one-file-each": _p_one, "name": _p_name, "content": _p_content, "after-success": _p_after, "nothing-else": _p_else}


def _cmd(suffix, folder, inputs):
    return "for the command line %s%s%s" % ("" if suffix is None else "-s '%s' " % suffix[:20], "" if folder is None else "-o '%s' " % folder, " ".join("'%s'" % x[:30] for x in inputs))


def _search(ctx, t, key):
    """constants at which the events are not what is asked: a description, or None"""
    out = t.p.out(T.UNIT)
    try:
        if key == "no-suffix":
            for s, o, inp in SILENT:
                if not _usable(o):
                    continue
                for k, a, n in _log(t.write, _argv(s, o, inp)):
                    return "%s of %s %s" % (k, _arg(a), _cmd(s, o, inp))
            return None
        for s, o, inp in RUNS:
            if not _usable(o):
                continue
            for order in (0, 1):
                val = _argv(s, o, inp, order)
                at = _cmd(s, o, inp)
                log = _log(t.ev, val, max(7, len(inp) + 2))
                want = [_where(s, o, p) for p in inp]
                made = [S.absolute(S.txt(a[0])) for k, a, n in log if k == S.CREATE]
                pn = O.panics_at(out, val)
                if key == "one-file-each":
                    if pn:
                        return "stops (%s at %s) %s" % (pn[0], pn[1], at)
                    if len(made) != len(want):
                        return "creates %d files %s" % (len(made), at)
                elif pn or len(made) != len(want):
                    continue
                if key == "name":
                    for a, b in zip(sorted(made), sorted(want)):
                        if a != b:
                            return "creates %s instead of %s %s" % (a, b, at)
                if key == "content":
                    marks = [a for k, a, n in log if k == "watermark"]
                    got = {}
                    for k, a, n in log:
                        if k == S.ENCODE:
                            w = a[1]
                            got.setdefault(S.absolute(S.txt(w.fs[0])) if isinstance(w, N.Ctor) and w.name == S.FILE else "?", []).append(a)
                    for j, (p, q) in enumerate(zip(inp, want)):
                        a = got.get(q, [])
                        if q not in made:
                            continue
                        if len(a) != want.count(q):
                            return "%s is written %d times %s" % (q, len(a), at)
                        a = a[want[:j].count(q):]
                        b = S._magic(S.back(p))
                        img = W._decode(b, W._guess(b).fs[0]).fs[0]
                        par = marks[0][1:] if marks else None
                        if par is None or not N.same(a[0][0], _marked(img, *par)):
                            return "%s does not receive the watermarked version of %s %s" % (q, p, at)
                        f = W._ext(S.back(S.stem_ext(S.file_name(q))[1]))
                        if not isinstance(a[0][2], N.Ctor) or a[0][2].vidx != f.fs[0].vidx or short(a[0][2].name) not in W.FORMATS:
                            return "%s is encoded as %s %s" % (q, N.brief(a[0][2]), at)
                if key == "after-success":
                    for k, a, n in log:
                        if k != S.CREATE or S.absolute(S.txt(a[0])) not in want:
                            continue
                        b = S._magic(S.back(inp[want.index(S.absolute(S.txt(a[0])))]))
                        img = W._decode(b, W._guess(b).fs[0]).fs[0]
                        if not any(x == "watermark" and m < n and N.same(y[0], img) for x, y, m in log):
                            return "%s is created before its watermarking %s" % (S.txt(a[0])[:60], at)
                if key == "nothing-else":
                    for k, a, n in log:
                        if k == S.OTHER:
                            return "%s on %s %s" % (bytes(a[0].all()).decode(), S.txt(a[1])[:60], at)
                        if k == S.MKDIR and (o is None or S.absolute(S.txt(a[0])) != S.absolute(o)):
                            return "creates the folder %s %s" % (S.txt(a[0])[:60], at)
        return None
    except (N.Stuck, RecursionError) as e:
        return "stuck (%s)" % e


def _arg(a):
    try:
        return S.txt(a[0])[:60]
    except N.Stuck:
        return "a file"


_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C23": _VG + "the returned models read through their accessors as terms over the bytes; constructor, reading and replacing of every field composed pairwise.",
    "C24": "Effect analysis over value graphs of typed MIR: file-system events of the tool with their guards, order and arguments (paths as terms over the command line), no execution, no solver.",
}
ASSUME = {
    "C23": ["detecting and decoding a format are functions of the bytes; a JavaScript byte array is the sequence of its bytes; imported logging changes nothing"],
    "C24": ["paths are valid UTF-8; the file system gives the same answer while the tool runs; getopts reads the declared short options as documented"],
}
CHECKS = {"C23": c23, "C24": c24}
