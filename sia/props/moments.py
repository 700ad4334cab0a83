"""C22, C27: image features."""
from .. import interp as N
from .. import oblig as O
from .. import real
from .. import spec
from .. import terms as T
from ..exec import Unsup
from ..models import mkc

FEAT, MOM, KER = "image_features::calculate_features", "zernike::calc::calculate_zernike_image_moment", "zernike::calc::get_zernike_matrix"
FACT = "utils::math::factorial"
VEC = "<zernike::ZernikeFeaturesCalculator as feature::FeaturesCalculator>::calculate_features"
BIG = T.I(1 << 52)


def _anchors(ctx, *names):
    return all([ctx.anchor(n) is not None for n in names])


def _image(r, rows, cols):
    xs = {}

    def px(i, j):
        return xs.setdefault((i, j), r.choice([0, 1, 2, 127, 128, 200, 254, 255, r.randint(0, 255)]))
    return N.Mat(rows, cols, px)


# ---------------------------------------------------------------- one moment

def _kernel_term(n, m, h, d, i, j):
    """the kernel value of row i and column j of a d x d square, order n = m + 2h, as a term"""
    def coord(k):
        return T.fop("fdiv", T.fop("fmul", T.F(0.7071067811865476), T.fop("fsub", T.fop("fadd", T.F(1.0), T.i2f(d)), T.fop("fmul", T.F(2.0), T.i2f(T.add(k, T.I(1)))))),
                     T.fop("fsub", T.F(1.0), T.i2f(d)))
    x, y = coord(i), coord(j)
    centre = T.band(T.fcmp("feqc", x, T.F(0.0)), T.fcmp("feqc", y, T.F(0.0)))
    rad = T.ite(centre, T.F(0.0), T.ffun("sqrt", T.fop("fadd", T.fop("fmul", x, x), T.fop("fmul", y, y))))
    th = T.ite(centre, T.F(0.0), T.ffun("atan2", y, x))

    def fac(x):
        return T.app(spec.FACT, "f64", x)
    s, acc = T.fresh("s", "nat"), T.fresh("acc", "f64")
    half = lambda a: T.fop("fmul", T.F(0.5), a)  # noqa: E731
    nf, mf, sf = T.i2f(n), T.i2f(m), T.i2f(s)
    c = T.fop("fdiv", fac(T.fop("fsub", nf, sf)), T.fop("fmul", T.fop("fmul", fac(sf), fac(T.fop("fsub", half(T.fop("fadd", nf, mf)), sf))),
                                                      fac(T.fop("fsub", half(T.fop("fsub", nf, mf)), sf))))
    p = T.ite(T.band(T.fcmp("feqc", rad, T.F(0.0)), T.fcmp("feqc", T.fop("fsub", nf, T.fop("fmul", T.F(2.0), sf)), T.F(0.0))), T.F(1.0),
              T.ffun("powf", rad, T.i2f(T.sub(n, T.scale(s, 2)))))
    body = T.fop("fadd", acc, T.fop("fmul", T.ffun("powf", T.F(-1.0), sf), T.fop("fmul", c, p)))
    v = T.fold(T.add(h, T.I(1)), T.F(0.0), T.lam(s, T.lam(acc, body)), "f64")
    a = T.fop("fmul", mf, th)
    return mkc(T.fop("fmul", v, T.ffun("cos", a)), T.fneg(T.fop("fmul", v, T.ffun("sin", a))))


def c27(ctx):
    if not _anchors(ctx, MOM, KER, FACT):
        return
    ctx.rule("the moment is the fold over all cells of pixel times the kernel at the cell's own row and column, scaled; the kernel's cells have their closed form")
    img = T.sym("img", "mat:u8")
    order, rep = T.sym("order", "nat"), T.sym("rep", "nat")
    R, C = T.rows(img), T.cols(img)
    pre = [T.le(T.I(1), R), T.le(T.I(1), C), T.le(rep, BIG), T.le(order, BIG), T.le(R, BIG), T.le(C, BIG)]
    r = O.rnd("c27")
    vals = []
    for k, (a, b) in enumerate([(2, 2), (3, 3), (4, 4), (1, 4), (4, 1), (2, 5), (5, 2), (3, 8), (8, 3), (16, 4), (4, 16), (9, 9), (1, 300), (300, 1), (2, 257), (70, 66), (1, 5000), (5000, 1)]):
        for n, m in ([(0, 0), (1, 1), (2, 0), (2, 2), (5, 3), (17, 7), (39, 5)] if a * b < 100 else [(k % 5 + 2, k % 5)]):
            vals.append({"img": _image(r, a, b), "order": n, "rep": m})

    def mk():
        p = O.Prog(ctx, spec.KERNELS, facts=pre)
        return p, p.call(MOM, order, rep, img)
    with T.under(T.NOFACTS.plus(*pre)):
        K = T.app(spec.KERNEL, "mat:cplx", order, rep, T.mx(R, C))
        part = []
        for w in (0, 1):
            k, acc = T.fresh("k", "nat"), T.fresh("acc", "f64")
            i, j = T.idiv(k, C), T.imod(k, C)
            s = T.fold(T.mul(R, C), T.F(0.0), T.lam(k, T.lam(acc, T.fop("fadd", acc, T.fop("fmul", T.i2f(T.at2(img, i, j)), T.fld(T.at2(K, i, j), None, w, "f64"))))), "f64")
            part.append(T.fop("fdiv", T.fop("fmul", s, T.fop("fdiv", T.fop("fadd", T.i2f(order), T.F(1.0)), T.F(3.141592653589793))), T.i2f(T.mul(R, C))))
        want = mkc(*part)
    O.decide(ctx, "sum", "every pixel once, weighed by the kernel at its own row and column, scaled by (order + 1) / pi / pixels, for any shape",
             mk, want, vals, pre=pre, where=MOM, norm=real.Real().norm)
    _kernel(ctx)
    k = T.sym("k", "nat")
    kf = T.i2f(k)

    def mkf():
        p = O.Prog(ctx, spec.FACTS, facts=[T.le(k, BIG)])
        return p, p.call(FACT, kf)
    want = T.ite(T.le(k, T.I(1)), T.F(1.0), T.ite(T.lt(T.I(170), k), T.F(float("inf")), T.fop("fmul", kf, T.app(spec.FACT, "f64", T.fop("fsub", kf, T.F(1.0))))))
    O.decide(ctx, "factorial", "the factorials of the kernel: one for 0 and 1, a product with the factorial of the number before, infinite beyond the range of f64",
             mkf, want, [{"k": v} for v in list(range(40)) + [100, 169, 170, 171, 172, 1000, 10 ** 6]], pre=[T.le(k, BIG)], where=FACT, norm=real.Real().norm)


def _kernel(ctx):
    m, h, d = T.sym("rep", "nat"), T.sym("half", "nat"), T.sym("dim", "nat")
    i, j = T.sym("row", "nat"), T.sym("col", "nat")
    n = T.add(m, T.scale(h, 2))
    r = O.rnd("kernel")
    pre = [T.lt(i, d), T.lt(j, d), T.le(T.I(2), d), T.le(n, BIG), T.le(m, BIG), T.le(d, BIG)]
    vals = []
    for k in range(160):
        dd = r.choice([2, 3, 4, 5, 8, 9, 16, 33, 64, 100, 101, 257, 300, 511, 1024, 70000])
        ij = r.choice([(0, 0), (dd - 1, 0), (0, dd - 1), (dd - 1, dd - 1), (dd // 2, dd // 2), (r.randrange(dd), r.randrange(dd)), (r.randrange(dd), r.randrange(dd)), (r.randrange(dd), r.randrange(dd))])
        vals.append({"rep": r.choice([0, 1, 2, 3, 4, 7, 11]), "half": r.choice([0, 0, 1, 2, 3, 5, 8]), "dim": dd, "row": ij[0], "col": ij[1]})
    for k in (20, 43, 60, 84):
        vals.append({"rep": 1, "half": k, "dim": 64, "row": 3, "col": 40})

    def mk():
        p = O.Prog(ctx, spec.FACTS, facts=pre)
        v = p.call(KER, n, m, d)
        with T.under(p.st.facts):
            e = T.renorm(T.at2(v, i, j))
            return p, mkc(T.fld(e, None, 0, "f64"), T.fld(e, None, 1, "f64"))
    with T.under(T.NOFACTS.plus(*pre)):
        want = _kernel_term(n, m, h, d, i, j)
    O.decide(ctx, "kernel", "the kernel at a row and column is the conjugate Zernike function of that row's and column's own centred polar position",
             mk, want, vals, pre=pre, where=KER, norm=real.Real().norm, tol=1e-5)

    def mks():
        p = O.Prog(ctx, spec.FACTS, facts=pre)
        v = p.call(KER, n, m, d)
        return p, T.tup(T.rows(v), T.cols(v))
    O.decide(ctx, "kernel-shape", "the kernel has a value for every row and column of a square of the requested size", mks, T.tup(d, d),
             [v for v in vals if v["dim"] < 300], pre=pre, where=KER)


# ---------------------------------------------------------------- the features

def c22(ctx):
    if not _anchors(ctx, FEAT, MOM):
        return
    ctx.rule("the value graph of the features is n magnitudes of moments of one order, the repetitions in closed form of the position")
    img, n = T.sym("img", "mat:u8"), T.sym("n", "nat")
    pre = [T.le(T.I(1), n), T.le(n, BIG)]
    sort = "the requested features"

    def run(n_):
        p = O.Prog(ctx, spec.MOMENTS, facts=pre)
        return p, p.call(FEAT, img, _zernike(ctx), n_)
    r = O.rnd("c22")
    images = [_image(r, a, b) for a, b in [(2, 2), (3, 3), (2, 4), (4, 2), (5, 3), (1, 6)]]
    vals = [{"img": images[k % 6], "n": k} for k in list(range(1, 9)) + [13, 16, 17, 24]]
    O.decide(ctx, "count", "n features, for every n of at least one", lambda: (lambda q: (q[0], T.length(q[1])))(run(n)), n,
             [{"img": images[k % 6], "n": k} for k in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 5000]], pre=pre, where=FEAT, allowed=(spec.MOMENT,))
    try:
        p, v = run(n)
    except Unsup as e:
        ctx.undecided("moments", "%s: not modelled: %s" % (sort, e))
        return
    _moments(ctx, p, v, img, n, pre, images)


def _zernike(ctx):
    return T.ctor("image_features::feature_types::FeaturesType::MomentsZernike", [], 0)


def _moments(ctx, p, v, img, n, pre, images):
    text = "element k is the magnitude of a moment of the image, all of one order, with distinct repetitions of its parity up to it"
    ctx.count("obligations over value graphs")
    fs = T.NOFACTS.plus(*pre)
    k, k2 = T.sym("k", "nat"), T.sym("k2", "nat")
    why = None
    with T.under(fs.plus(T.lt(k, n))):
        e = T.renorm(T.at(v, k))
        apps = _apps(e, spec.MOMENT)
        if len(apps) != 1:
            why = "not one moment per element"
        else:
            a, = apps
            o, rp, im = a.args[2]
            if im is not img:
                why = "another image"
            elif e is not T.ffun("hypot", T.fld(a, None, 0, "f64"), T.fld(a, None, 1, "f64")):
                why = "not plainly the magnitude"
            elif T.has(o, k):
                why = "the order depends on the position"
            elif T.imod(T.sub(o, rp), T.I(2)) is not T.I(0):
                why = "parity not shown"
            elif not T.prove_ge0(T.sub(o, rp)):
                why = "repetition may exceed the order"
            else:
                d = T.sub(T.subst(rp, {k: k2}), rp)
                with T.under(fs.plus(T.lt(k, n), T.lt(k2, n), T.lt(k, k2))):
                    if not (T.prove_ge0(T.sub(d, T.I(1))) or T.prove_ge0(T.sub(T.neg(d), T.I(1)))):
                        why = "distinctness not shown"
    extra = [c for _, c, _, _, _ in p.E.panics]
    if why is None:
        ctx.proved("moments", text)
        return
    bad = O.pure(ctx, [v] + extra, (spec.MOMENT,))
    if bad:
        ctx.undecided("moments", "%s: %s; uninterpreted: %s" % (text, why, ", ".join(bad[:5])))
        return
    stuck = None
    for nn in list(range(1, 40)) + [63, 64, 65, 85, 86, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1025, 3000]:
        try:
            msg = _trace(v, {"img": images[nn % len(images)], "n": nn})
        except (N.Stuck, N.Undef, RecursionError) as e:
            stuck = str(e)
            continue
        if msg:
            ctx.violation("moments", "%s: %s: %s at n=%d" % (FEAT, text, msg, nn))
            return
    ctx.undecided("moments", "%s: %s%s" % (text, why, "; folding stuck: " + stuck if stuck else ""))


def _trace(v, val):
    """folds the features with moments that carry their order and repetition along"""
    seen = {}
    n = val["n"]

    def mom(o, r, im):
        if not (0 <= o < 1 << 20 and 0 <= r < 1 << 20):
            raise N.Stuck("order")
        same = N.same(im, val["img"])
        x = float(25 * ((o << 20 | r) * 2 + (1 if same else 0)))
        seen[x] = (o, r, same)
        return N.Ctor(spec.CX, [0.6 * x, -0.8 * x], 0)
    old = N.INTERP[spec.MOMENT]
    N.INTERP[spec.MOMENT] = mom
    try:
        xs = N.seqof(N.Fold(val).ev(v)).all()
    finally:
        N.INTERP[spec.MOMENT] = old
    if not seen:
        raise N.Stuck("no moments")
    if len(xs) != n:
        return "%d features" % len(xs)
    got = []
    for x in xs:
        m = next((y for y in (seen.get(round(x / 25) * 25.0), ) if y and abs(x / 25 - round(x / 25)) < 1e-3), None)
        if m is None:
            return "a feature that is no magnitude of a moment"
        got.append(m)
    if not all(s for _, _, s in got):
        return "a moment of something else than the image"
    if len({o for o, _, _ in got}) != 1:
        return "moments of the orders %s" % sorted({o for o, _, _ in got})[:4]
    o = got[0][0]
    for _, r, _ in got:
        if r > o or (o - r) % 2:
            return "repetition %d of order %d" % (r, o)
    if len({r for _, r, _ in got}) != len(got):
        return "a repetition used twice"
    return None


def _apps(t, name):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T.T) or x in seen:
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            continue
        seen.add(x)
        if x.op == "app" and x.args[0] == name:
            out.append(x)
        todo.extend(a for a in x.args if isinstance(a, (T.T, tuple, list)))
    return out


_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C22": _VG + "length and elements of the feature vector in closed form of the requested number.",
    "C27": _VG + "the moment's fold over cells and the closed form of a kernel cell, normal forms read over the reals.",
}
ASSUME = {"C22": ["features are those of the Zernike moment family, the only family the watermarking process uses (the other two are declared stubs that yield nothing)"],
          "C27": ["repetitions have the parity of the order and do not exceed it", "a kernel of a single row and column does not occur (its position is undefined)",
                  "floating point sums read as real numbers"]}
CHECKS = {"C22": c22, "C27": c27}
