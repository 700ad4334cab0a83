"""C07, C08: how an image is taken apart into channels and put together again."""
import hashlib

from .. import crypt
from .. import images as G
from .. import interp as N
from .. import oblig as O
from .. import spec
from .. import terms as T
from ..exec import LEAFDIM, Unsup
from .stego import find

WATERMARK, CHANNEL = "watermarking::watermark", "watermarking::process::watermark_channel"
WMCH = "spec:watermark_channel"
T.MATDIM[WMCH] = lambda t, k: T._dim(t.args[2][0], k)


def _marked(ch, *params):
    """some channel of the same size, determined by all arguments"""
    ch = N.matof(ch)
    h = N.digest(ch, *params)

    def cell(i, j):
        return spec.luma(hashlib.blake2b(h + b"%d,%d" % (i, j), digest_size=1).digest()[0])
    return N.Mat(ch.r, ch.c, cell)


N.INTERP[WMCH] = _marked
ARGS = IMG, DEPTH, STEP, COUNT = T.sym("image", "DynamicImage"), T.sym("depth", "f64"), T.sym("step", "f64"), T.sym("n", "usize")
W, H = G.width(IMG), G.height(IMG)
X, Y = T.sym("x", "u32"), T.sym("y", "u32")


def _again(px, k, p, levels, r):
    """the picture with one of its channels replaced by the watermarked version of a channel"""
    n = 3 if k in (2, 3) else 1
    ch = [N.Mat(len(px), len(px[0]), lambda i, j, c=c: spec.luma(px[i][j][c])) for c in range(n)]
    a, b = r.randrange(n), r.randrange(n)
    m = _marked(ch[a], p["depth"], p["step"], p["n"], levels)
    cells = [[m.get(i, j).fs[0].get(0) for j in range(len(px[0]))] for i in range(len(px))]
    return [[[cells[i][j] if c == b else x for c, x in enumerate(q)] for j, q in enumerate(row)] for i, row in enumerate(px)]


def _vals(seed, k, levels=(), per=4):
    """images of one layout with a position in them"""
    r = O.rnd("%s-%d" % (seed, k))
    out = []
    top = 255 if k < 4 else 65535 if k < 8 else None
    n = G.SAMPLES[G.NAMES[k]]
    for w, h in ((8, 8), (3, 5), (5, 3), (1, 1), (7, 1), (1, 7), (16, 8), (9, 16), (257, 2), (2, 257), (70, 66)) + (((70000, 1), (1, 70000)) if k == 2 else ()):
        for _ in range(per if w * h < 400 else 1):
            mode = r.choice(["any", "any", "flat", "grey", "clear", "opaque"])
            sm = (lambda: r.choice([0, top, r.randint(0, top), r.randint(0, top)])) if top else (lambda: T._round32(r.random()))
            base = [sm() for _ in range(n)]

            def px():
                c = list(base) if mode == "flat" else [sm() for _ in range(n)]
                if mode == "grey" and n > 2:
                    c[1] = c[2] = c[0]
                if mode == "clear" and n in (2, 4):
                    c[-1] = 0 if top else 0.0
                if mode == "opaque" and n in (2, 4):
                    c[-1] = top or 1.0
                return c
            pxs = [[px() for _ in range(w)] for _ in range(h)]
            p = {"depth": r.choice([0.5, 1.0, 30.0, 100.0, 12.25, 0.1, 1000.0]), "step": r.choice([1.0, 0.5, 2.0, 0.1, 3.75]), "n": r.choice([1, 2, 7, 11, 12, 40, 85, 300])}
            imgs = [G.image(k, pxs)]
            if k < 4 and w * h < 400:
                imgs += [G.image(k, _again(pxs, k, p, lv, r)) for lv in levels for _ in range(3)]
            for img in imgs:
                for x, y in {(r.randrange(w), r.randrange(h)), (w - 1, h - 1), (0, h - 1)}:
                    out.append(dict(p, image=img, x=x, y=y))
    return out


def _graph(ctx, memo):
    if "v" not in memo:
        p = O.Prog(ctx, boundary={CHANNEL: spec._app(WMCH, "mat:?")})
        memo["v"] = None
        try:
            v = p.call(WATERMARK, *ARGS)
            if v is None:
                raise Unsup("always panics")
            if find(v, lambda t: t.op == "app" and t.args[0] == crypt.SIGN):
                raise Unsup("channels are watermarked elsewhere")
            memo["v"] = p, v
        except Unsup as e:
            memo["e"] = e
    if memo["v"] is None:
        raise memo["e"]
    return memo["v"]


def _each(ctx, key, text, got, want, layouts=range(10)):
    """an obligation for every layout an image can have"""
    ctx_ok = True
    memo = ctx.__dict__.setdefault("_image", {})
    for k in layouts:
        pre = [T.eq(T.discr(G.colour(IMG)), T.I(k)), T.lt(X, W), T.lt(Y, H), T.le(T.I(1), W), T.le(T.I(1), H)]

        def mk():
            p, v = _graph(ctx, memo)
            q = O.Prog(ctx, facts=pre)
            q.st.facts = T.NOFACTS.plus(*pre)
            q.E.analysed = p.E.analysed
            q.E.panics[:] = p.E.panics
            q.E.snaps[:] = p.E.snaps
            with T.under(q.st.facts):
                v = T.renorm(v)
                return q, T.renorm(got(v, k))

        def exp(pr):
            with T.under(pr.st.facts):
                return T.renorm(want(memo, k))
        if not O.decide(ctx, "%s:%s" % (key, G.COLOURS[k]), "%s (%s images)" % (text, G.COLOURS[k]), mk, exp, lambda v, k=k: _vals(key, k, _used(memo)), pre=pre, where=WATERMARK):
            ctx_ok = False
    return ctx_ok


def _used(memo):
    """numbers of levels in the graph"""
    ls = {t.args[2][4] for t in find(memo["v"][1], lambda t: t.op == "app" and t.args[0] == WMCH)} if memo.get("v") else ()
    return sorted(t.args[0] for t in ls if T.is_int(t))


def target(k):
    """the layout at eight bits per sample"""
    return {0: 0, 4: 0, 1: 1, 5: 1, 2: 2, 6: 2, 8: 2, 3: 3, 7: 3, 9: 3}[k]


def _cell(v, j):
    """sample j of the pixel at (X, Y), as stored"""
    def f(d):
        if not G.is8(d):
            raise Unsup("layout of the result")
        return G.comps(T.at2(d.args[1][0], Y, X), G.SAMPLES[G.NAMES[d.args[2]]])[j] if j < G.SAMPLES[G.NAMES[d.args[2]]] else T.mk("undef")
    return G.split(v, f)


def c07(ctx):
    if ctx.anchor(WATERMARK) is None or ctx.anchor(CHANNEL) is None:
        return
    ctx.rule("the returned image is, as a value graph over the samples of the original, one of the same size and layout class whose transparency samples are those of the original")
    _each(ctx, "size", "the result is as wide and as high as the original", lambda v, k: T.tup(G.width(v), G.height(v)), lambda m, k: T.tup(W, H))
    _each(ctx, "layout", "the result has the original's layout at 8 bits per sample", lambda v, k: T.discr(v), lambda m, k: T.I(target(k)))
    _each(ctx, "transparency", "the transparency of every pixel is the original's", lambda v, k: _cell(v, G.SAMPLES[G.NAMES[target(k)]] - 1),
          lambda m, k: G.comps(T.app(G.PIXEL, "Rgba", IMG, X, Y), 4)[3], layouts=(1, 3, 5, 7, 9))


def channel(j):
    """channel j of the original"""
    r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
    with T.under(T.cur().plus(T.lt(r, H), T.lt(c, W))):
        return T.mat(H, W, T.lam(r, T.lam(c, G.pixel("Luma", [G.comps(T.app(G.PIXEL, "Rgba", IMG, c, r), 4)[j]]))))


def _levels(memo):
    """the one number of levels the graph uses"""
    v = memo["v"][1]
    ls = {t.args[2][4] for t in find(v, lambda t: t.op == "app" and t.args[0] == WMCH)}
    ints = sorted((t.args[0] for t in ls if T.is_int(t)))
    if not ints:
        raise Unsup("no constant number of levels")
    return T.I(ints[0])


def c08(ctx):
    if ctx.anchor(WATERMARK) is None or ctx.anchor(CHANNEL) is None:
        return
    ctx.rule("every colour sample of the returned image is, as a value graph, the sample at the same position of watermark_channel applied to the same channel of the original, "
             "with the caller's depth, step and count and one constant number of levels")
    for j, name in enumerate(("first", "second", "third")):
        _each(ctx, "%s-channel" % name, "the %s colour sample comes from the watermarked %s channel of the original" % (name, name),
              lambda v, k, j=j: _cell(v, j),
              lambda m, k, j=j: T.at(T.fld(T.at2(T.app(WMCH, "mat:?", channel(j), DEPTH, STEP, COUNT, _levels(m)), Y, X), None, 0, "seq:u8"), T.I(0), "u8"),
              layouts=range(10) if j == 0 else (2, 3, 6, 7, 8, 9))


_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C07": _VG + "size, layout and transparency of the returned image as terms over the original, for each of the ten layouts of the image library.",
    "C08": _VG + "every colour sample of the result as a term; it is the same sample of watermark_channel on the same channel of the original.",
}
_LIB = ["the image library's buffers and conversions are as documented (dimensions positive; samples beyond 8 bits are seen through its 8-bit view)"]
ASSUME = {"C07": _LIB, "C08": _LIB}
CHECKS = {"C07": c07, "C08": c08}
