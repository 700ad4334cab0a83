"""C10, C12-C14, C21: the coefficient domain, the transform, and what embed and extract make of them."""
from .. import interp as N
from .. import oblig as O
from .. import real
from .. import spec
from .. import terms as T
from ..exec import LEAFDIM, Unsup

WRITE, READ, CAP = "embedding::io::write", "embedding::io::read", "embedding::io::steganography::get_capacity"
EMBED, EXTRACT, DWT = "embedding::embed", "embedding::extract", "embedding::haar::dwt_2d"

SHAPES = [(4, 4), (1, 8), (8, 1), (2, 4), (4, 2), (3, 8), (8, 3), (16, 2), (2, 16), (5, 7), (7, 5), (1, 64), (64, 1), (16, 16), (9, 30), (33, 4)]


def _anchors(ctx, *names):
    return all([ctx.anchor(n) is not None for n in names])


def _matrix(r, rows, cols, f):
    xs = [[f(i, j) for j in range(cols)] for i in range(rows)]
    return N.Mat(rows, cols, lambda i, j: xs[i][j])


def _domains(seed, full=True, depths=(10.0, 0.1, 3.0, 100.0, 0.7, 1e-3, 2500.0)):
    r = O.rnd(seed)
    out = []
    for k, (a, b) in enumerate(SHAPES):
        d = depths[k % len(depths)]
        cap = a * b // 8
        sizes = {0, 1, cap, max(0, cap - 1), cap // 2}
        for n in sorted(s for s in sizes if s <= cap):
            m = _matrix(r, a, b, lambda i, j: d * (r.randint(-40, 90) + r.choice([0.0, 0.07, 0.12, -0.13, 0.31, -0.44, 0.49, -0.49])))
            out.append({"x": m, "b": O.seq([r.randint(0, 255) for _ in range(n)]), "d": d,
                        "s": _matrix(r, a, b, lambda i, j: r.choice([0.2499, -0.2499, 0.0, 0.1, -0.1, 0.2, -0.2]))})
        out.append({"x": m, "b": O.seq(([1 << j for j in range(8)] + [0, 255] * 40)[:cap]), "d": d, "s": _matrix(r, a, b, lambda i, j: 0.0)})
    return out


def _large(*names):
    """domains of more cells than a single-precision number tells apart, filled to the last cell"""
    out = []
    for rows, cols in ((2 ** 22, 8), (8, 2 ** 22), (3 * 2 ** 21, 9)):
        v = {"x": N.Mat(rows, cols, lambda i, j: 30.0 + 10.0 * ((i * 7 + j * 3) % 11)), "b": N.Seq(rows * cols // 8, lambda i: (i * 37 + i // 256) % 256), "d": 10.0,
             "s": N.Mat(rows, cols, lambda i, j: 0.0)}
        out.append({k: v[k] for k in names})
    return out


def _real(d, noise=None):
    def bound(a):
        if noise is not None and a.op == "at2" and a.args[0] is noise:
            return (-real.Fraction(1, 4), real.Fraction(1, 4))
        return None
    return real.Real([d], bound).norm


def _syms():
    return T.sym("x", "mat:f64"), T.sym("b", "seq:u8"), T.sym("d", "f64")


def c12(ctx):
    if not _anchors(ctx, WRITE, READ):
        return
    ctx.rule("the cells a write changes are the first 8n of the row-major order, each once; reading composed with writing gives the bytes, for every shape")
    x, b, d = _syms()
    n = T.length(b)
    R, C = T.rows(x), T.cols(x)
    pre = [T.le(T.mul(T.I(8), n), T.mul(R, C)), T.bnot(T.fcmp("flec", d, T.F(0.0)))]
    vals = _domains("c12")
    ctx.far = _large("x", "b", "d")

    def mk():
        p = O.Prog(ctx, facts=pre)
        c = p.cell(x)
        p.call(WRITE, c, b, d)
        return p, T.tup(x, d, p.val(c))
    r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
    k = T.add(T.mul(r, C), c)
    bit = T.bit(T.at(b, T.idiv(k, T.I(8)), "u8"), T.imod(k, T.I(8)))
    old = T.at2(x, r, c)
    new = T.fop("fmul", d, T.fop("fadd", T.ffun("round", T.fop("fdiv", old, d)), T.ite(bit, T.F(0.25), T.F(-0.25))))
    want = T.mat(R, C, T.lam(r, T.lam(c, T.ite(T.lt(k, T.mul(T.I(8), n)), new, old))))

    def touched(got, want):
        """as many cells changed as bits were written, the first one among them"""
        x0, d0, y = got.fs
        if any(abs(abs(q / d0 - round(q / d0)) - 0.25) < 1e-6 for i in range(x0.r) for q in [x0.get(i, j) for j in range(x0.c)]):
            # a cell that holds what is written to it shows nothing
            return True
        ch = [(i, j) for i in range(x0.r) for j in range(x0.c) if not N.same(y.get(i, j), x0.get(i, j))]
        w = sum(1 for i in range(x0.r) for j in range(x0.c) if not N.same(want.fs[2].get(i, j), x0.get(i, j)))
        return len(ch) == w and (w == 0 or (0, 0) in ch)
    O.decide(ctx, "cells-written", "writing n bytes changes 8n different cells, starting at the first, and no other", mk, T.tup(x, d, want), vals, pre=pre,
             where=WRITE, eqv=touched, norm=_real(d))

    def mk2():
        p = O.Prog(ctx, facts=pre)
        c = p.cell(x)
        p.call(WRITE, c, b, d)
        v = p.call(READ, p.val(c), d)
        return p, T.slc(v, T.I(0), n) if v is not None else None
    O.decide(ctx, "same-cells", "each bit is read from the cell it was written to, in a domain of any shape", mk2, b, vals, pre=pre,
             where=WRITE + " / " + READ, norm=_real(d))


def c13(ctx):
    if not _anchors(ctx, WRITE, READ):
        return
    ctx.rule("reading any domain within a quarter of the depth of the written one gives the bytes (normal forms over the reals)")
    x, b, d = _syms()
    s = T.sym("s", "mat:f64")
    n = T.length(b)
    R, C = T.rows(x), T.cols(x)
    LEAFDIM[s] = (R, C)
    pre = [T.le(T.mul(T.I(8), n), T.mul(R, C)), T.bnot(T.fcmp("flec", d, T.F(0.0)))]
    vals = _domains("c13")
    ctx.far = _large("x", "b", "d", "s")

    def mk():
        p = O.Prog(ctx, facts=pre)
        c = p.cell(x)
        p.call(WRITE, c, b, d)
        w = p.val(c)
        if w is None:
            return p, None
        i, j = T.fresh("i", "nat"), T.fresh("j", "nat")
        with T.under(p.st.facts.plus(T.lt(i, R), T.lt(j, C))):
            cell = T.fop("fadd", T.at2(w, i, j), T.fop("fmul", d, T.at2(s, i, j)))
        v = p.call(READ, T.mat(R, C, T.lam(i, T.lam(j, cell))), d)
        return p, T.slc(v, T.I(0), n) if v is not None else None
    O.decide(ctx, "margin", "bytes written at any positive depth are read back, also after any disturbance below a quarter of the depth", mk, b, vals, pre=pre,
             where=WRITE + " / " + READ, norm=_real(d, s), fixed=("x", "s"), admit=lambda v: 1e-3 <= v["d"] <= 1e5)


def c10(ctx):
    if not _anchors(ctx, WRITE, READ, CAP, EMBED, EXTRACT):
        return
    ctx.rule("the panic edges of a write are taken exactly when the bytes exceed rows*cols/8, with the domain still untouched; reading yields that many bytes; "
             "embed and extract pass that capacity to the codec")
    x, b, d = _syms()
    n = T.length(b)
    R, C = T.rows(x), T.cols(x)
    cap = T.idiv(T.mul(R, C), T.I(8))
    vals = _domains("c10")
    r = O.rnd("c10b")
    for a, q in SHAPES:
        for more in (1, 2, 8, 100, 8192):
            m = _matrix(r, a, q, lambda i, j: 10.0 * r.randint(-9, 9) + 1.5)
            vals.append({"x": m, "b": O.seq([r.randint(0, 255) for _ in range(a * q // 8 + more)]), "d": 10.0})

    def mk():
        p = O.Prog(ctx)
        c = p.watched(x)
        p.call(WRITE, c, b, d)
        return p, T.I(0)
    O.decide(ctx, "refused-first", "data are refused, before any change, exactly when they have more bytes than the domain has groups of eight coefficients",
             mk, T.I(0), vals, must=T.lt(cap, n), where=WRITE)
    w, h = T.sym("w", "usize"), T.sym("h", "usize")
    small = [T.le(T.mul(w, h), T.I(2 ** 52))]
    cv = [{"w": p, "h": q} for p in list(range(0, 40)) + [63, 64, 65, 127, 128, 255, 256, 1000, 1024, 4097, 65535, 65536]
          for q in (0, 1, 2, 3, 5, 7, 8, 9, 16, 31, 33, 64, 100, 1023, 1024, 65537)]
    if _anchors(ctx, CAP):
        def mkc():
            p = O.Prog(ctx, facts=small)
            return p, p.call(CAP, w, h)
        O.decide(ctx, "capacity", "the capacity is one bit per coefficient, rounded down to whole bytes", mkc, T.idiv(T.mul(w, h), T.I(8)), cv, pre=small, where=CAP)

    def mkr():
        p = O.Prog(ctx)
        v = p.call(READ, x, d)
        return p, T.length(v) if v is not None else None
    large = [{"x": N.Mat(a, q, lambda i, j: 1.0 * (i * 31 + j * 17 & 255)), "d": 10.0} for a, q in
             [(64, 32), (256, 257), (512, 1024), (730, 730), (1024, 1024), (2048, 2048), (65536, 9), (7, 80001), (4096, 4100)]]
    O.decide(ctx, "read-all", "reading yields exactly the capacity in bytes", mkr, cap, vals + large, where=READ)
    # what the codec is told
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)
        for fn, app in ((EMBED, spec.ENC), (EXTRACT, spec.DEC)):
            def mke():
                p = O.Prog(ctx, facts=pre, boundary=dict(spec.STEGO, **spec.CODEC))
                v = p.call(fn, *((img, by, dd, T.I(L)) if fn == EMBED else (img, dd, T.I(L))))
                if v is None:
                    return p, None
                caps = {t.args[2][1] for t in find(v, lambda t: t.op == "app" and t.args[0] == app)}
                if len(caps) != 1:
                    raise Unsup("%d different uses of the codec" % len(caps))
                p.E.panics.clear()
                p.E.snaps.clear()
                return p, caps.pop()
            O.decide(ctx, "same-capacity:%s:%d" % (fn.split("::")[-1], L), "%s relies on the capacity of its own domain at %d levels" % (fn, L), mke,
                     T.idiv(T.mul(m, q), T.I(8)), [{"m": i, "q": j, "d": 10.0} for i in (4, 5, 8, 11, 12, 16, 32, 33, 90) for j in (32, 33, 34, 36, 47, 64)],
                     pre=pre, where=fn)


def find(t, f):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if f(x):
            out.append(x)
        st.extend(T.subterms(x))
    return sorted(out, key=lambda t: t.id)


def levels(ctx):
    return (1, 2, 3, 4) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6, 7)


def _image(L):
    img, by, dd = T.sym("img%d" % L, "mat:u8"), T.sym("by", "seq:u8"), T.sym("d", "f64")
    m, q = T.sym("m", "nat"), T.sym("q", "nat")
    LEAFDIM[img] = (T.mul(T.I(2 ** L), m), T.mul(T.I(2 ** L), q))
    pre = [T.le(T.mul(T.I(2 ** L), z), T.I(2 ** 31 - 1)) for z in (m, q)]
    pre += [T.le(T.mul(m, q), T.I(2 ** 52)), T.bnot(T.fcmp("flec", dd, T.F(0.0)))]
    return img, by, dd, pre, m, q


def _floats(img):
    r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
    return T.mat(T.rows(img), T.cols(img), T.lam(r, T.lam(c, T.i2f(T.at2(img, r, c)))))


def _one(v, name, n=None):
    xs = find(v, lambda t: t.op == "app" and t.args[0] == name and (n is None or n(t)))
    if len(xs) != 1:
        raise Unsup("%d different uses of %s" % (len(xs), name))
    return xs[0]


def _is_inverse(t):
    return t.args[2][2] is T.TRUE


def _embedded(ctx, L, fn=EMBED):
    """the value graph of embed or extract at L levels, with specifications at the boundary"""
    img, by, dd, pre, m, q = _image(L)
    p = O.Prog(ctx, facts=pre, boundary=dict(spec.STEGO, **spec.CODEC))
    v = p.call(fn, *((img, by, dd, T.I(L)) if fn == EMBED else (img, dd, T.I(L))))
    if v is None:
        raise Unsup("always panics")
    # what embed refuses is decided by C09, C10 and C11
    p.E.panics.clear()
    p.E.snaps.clear()
    return p, v


def _domain(img, L, m, q):
    """the coefficients both sides use: the top-left block after the forward transform of the exact samples"""
    fwd = T.app(spec.DWT2, "mat:f64", _floats(img), T.I(L), T.FALSE)
    return fwd, T.submat(fwd, T.I(0), T.I(0), m, q)


def _images(L, seed, n=14):
    r = O.rnd(seed)
    out = []
    sizes = [(4, 33), (33, 4), (4, 32), (8, 16), (16, 8), (11, 12), (12, 12), (5, 30), (1, 129), (130, 1), (16, 17), (32, 8), (9, 15), (2, 64)]
    for k in range(n):
        m, q = sizes[k % len(sizes)]
        R, C = m << L, q << L
        if R * C > 60000:
            continue
        base, amp = r.choice([(128, 30), (20, 20), (235, 20), (0, 5), (255, 5), (128, 127)])
        xs = [[min(255, max(0, base + r.randint(-amp, amp))) for _ in range(C)] for _ in range(R)]
        out.append({"img%d" % L: N.Mat(R, C, lambda i, j, xs=xs: xs[i][j]), "by": O.seq([r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 5]))]),
                    "d": r.choice([10.0, 50.0, 3.0]), "m": m, "q": q})
    return out


def c14(ctx):
    if not _anchors(ctx, EMBED, DWT):
        return
    ctx.rule("every pixel of the result is the saturating conversion of the rounded inverse-transformed value; the transform is given the samples exactly")
    r = O.rnd("c14")
    zs = [-1e300, -1e9, -70000.3, -256.0, -255.7, -129.2, -3.0, -1.0, -0.9, -0.51, -0.49, -0.0, 0.0, 0.3, 0.49, 0.51, 1.0, 1.2, 1.8, 126.7, 127.2, 127.8,
          128.3, 200.4, 254.4, 254.6, 255.0, 255.4, 255.49, 255.51, 255.9, 256.0, 256.3, 257.0, 300.2, 511.6, 512.1, 65535.7, 65536.2, 1e9, 1e10, 1e19, 1e300]
    zs += [round(r.uniform(-20, 280), 3) + 0.0003 for _ in range(120)]
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)
        z = T.sym("z", "f64")
        rr, cc = T.sym("row", "nat"), T.sym("col", "nat")
        R, C = T.rows(img), T.cols(img)
        inside = [T.lt(rr, R), T.lt(cc, C)]

        def mk():
            p, v = _embedded(ctx, L)
            with T.under(p.st.facts.plus(*inside)):
                cell = T.renorm(T.at2(v, rr, cc))
            inv = _one(cell, spec.DWT2, _is_inverse)
            hits = find(cell, lambda t: t.op == "at2" and t.args[0] is inv)
            here = T.at2(inv, rr, cc)
            if hits != [here]:
                raise Unsup("the pixel is not made of the transformed value at its place alone")
            cell = T.subst(cell, {here: z})
            if T.has(cell, inv):
                raise Unsup("the pixel depends on the whole transform")
            return p, cell
        vals = [{"z": x, "m": 4, "q": 33, "row": i, "col": j, "img%d" % L: N.Mat(4 << L, 33 << L, lambda i, j: 7), "by": O.seq([1]), "d": 10.0}
                for x in zs for i, j in ((0, 0), (3, 5), ((4 << L) - 1, (33 << L) - 1))]
        O.decide(ctx, "saturates:%d" % L, "each pixel is the rounded value limited to 0..255, at %d levels" % L, mk, T.f2i("u8", T.ffun("round", z)), vals,
                 pre=pre + inside, where=EMBED)

        def mks():
            p, v = _embedded(ctx, L)
            return p, T.tup(T.rows(v), T.cols(v))
        O.decide(ctx, "size:%d" % L, "there is one pixel for each pixel, at %d levels" % L, mks, T.tup(R, C), _images(L, "c14s", 6), pre=pre, where=EMBED)
        for fn in (EMBED, EXTRACT):
            def mke():
                p, v = _embedded(ctx, L, fn)
                return p, _one(v, spec.DWT2, lambda t: not _is_inverse(t)).args[2][0]
            O.decide(ctx, "exact:%s:%d" % (fn.split("::")[-1], L), "%s transforms the exact samples, at %d levels" % (fn, L), mke, _floats(img),
                     _images(L, "c14e", 6), pre=pre, where=fn)


def c21(ctx):
    if not _anchors(ctx, EMBED, EXTRACT, DWT):
        return
    ctx.rule("the transform is the composition, level by level, of one step over all rows and all columns of the block of the level, the inverse in the opposite order; "
             "embedding and extraction use the top-left block of the same forward transform")
    x = T.sym("x", "mat:f64")
    r = O.rnd("c21")
    for L in levels(ctx):
        m, q = T.sym("m", "nat"), T.sym("q", "nat")
        xl = T.sym("x%d" % L, "mat:f64")
        R, C = T.mul(T.I(2 ** L), m), T.mul(T.I(2 ** L), q)
        LEAFDIM[xl] = (R, C)
        pre = [T.le(T.mul(T.I(2 ** L), z), T.I(2 ** 31 - 1)) for z in (m, q)]
        vals = []
        for a, b in [(1, 1), (1, 2), (2, 1), (3, 1), (2, 3), (5, 2), (1, 7), (4, 4)]:
            if (a << L) * (b << L) <= 40000:
                vals.append({"m": a, "q": b, "x%d" % L: _matrix(r, a << L, b << L, lambda i, j: r.uniform(-200, 300))})
        for inverse in (False, True):
            want = xl
            with T.under(T.NOFACTS.plus(*pre)):
                for j in (range(L - 1, -1, -1) if inverse else range(L)):
                    want = spec.step(want, T.mul(T.I(2 ** (L - j)), m), T.mul(T.I(2 ** (L - j)), q), inverse)

            def mk():
                p = O.Prog(ctx, facts=pre)
                return p, p.call(DWT, xl, T.I(L), T.B(inverse))
            O.decide(ctx, "transform:%s:%d" % ("inverse" if inverse else "forward", L),
                     "the %s transform visits the blocks of all %d levels in order, each over all rows and columns" % ("inverse" if inverse else "forward", L),
                     mk, want, vals, pre=pre, where=DWT, tol=1e-6)
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)
        with T.under(T.NOFACTS.plus(*pre)):
            fwd, dom = _domain(img, L, m, q)
        vals = _images(L, "c21i")

        def mkw():
            p, v = _embedded(ctx, L)
            return p, _one(v, spec.WRITE).args[2][0]
        O.decide(ctx, "embed-block:%d" % L, "data are written into the top-left block of the forward transform, at %d levels" % L, mkw, dom, vals, pre=pre, where=EMBED, tol=1e-6)

        def mki():
            p, v = _embedded(ctx, L)
            inv = _one(v, spec.DWT2, _is_inverse)
            w = _one(v, spec.WRITE)
            return p, T.tup(inv.args[2][1], _unwritten(inv.args[2][0], w, dom))
        O.decide(ctx, "embed-back:%d" % L, "the inverse transform undoes as many levels, on the same coefficients with only the block replaced, at %d levels" % L,
                 mki, T.tup(T.I(L), fwd), vals, pre=pre, where=EMBED, tol=1e-6)

        def mkp():
            p, v = _embedded(ctx, L)
            inv = _one(v, spec.DWT2, _is_inverse)
            w = _one(v, spec.WRITE)
            with T.under(p.st.facts):
                return p, T.renorm(T.submat(inv.args[2][0], T.I(0), T.I(0), T.rows(w), T.cols(w)))

        def wanted(p):
            return _one(_embedded(ctx, L)[1], spec.WRITE)
        O.decide(ctx, "embed-place:%d" % L, "the written block is put back where it was taken, at %d levels" % L, mkp, wanted,
                 vals[:4], pre=pre, where=EMBED, tol=1e-6)

        def mkr():
            p, v = _embedded(ctx, L, EXTRACT)
            return p, _one(v, spec.READ).args[2][0]
        O.decide(ctx, "extract-block:%d" % L, "data are read from the top-left block of the forward transform, at %d levels" % L, mkr, dom, vals, pre=pre, where=EXTRACT, tol=1e-6)


NEW_D, SER_D, DES_D = "embedding::io::data::Data::new", "embedding::io::data::Data::serialize", "embedding::io::data::deserialize"


def _holding(L, seed):
    """images that hold data"""
    r = O.rnd(seed)
    out = []
    for v in _images(L, seed, 10):
        img = v["img%d" % L]
        mid = N.Mat(img.r, img.c, lambda i, j, g=img: 40 + g.get(i, j) * 170 // 255)
        n = r.choice([1, 2, 3, 5, 9, 12])
        by = [r.choice([0, 0, 255, r.randint(0, 255)]) for _ in range(n)]
        d = r.choice([10.0, 16.0, 24.0, 8.0]) * 2 ** (L - 1)
        try:
            marked = spec._embed(mid, O.seq([n & 255, n >> 8] + by), d, L)
        except N.Undef:
            continue
        xs = [[marked.get(i, j) for j in range(img.c)] for i in range(img.r)]
        out.append(dict(v, d=d, by=O.seq(by), **{"img%d" % L: N.Mat(img.r, img.c, lambda i, j, xs=xs: xs[i][j])}))
    return out


def written(ctx):
    """what embed hands to the domain: the encoded container of exactly these bytes, at the caller's depth"""
    if not _anchors(ctx, EMBED, NEW_D, SER_D):
        return
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)
        pre = pre + [T.le(T.length(by), T.I(65535)), T.le(T.I(1), T.length(by))]

        def mk():
            p, v = _embedded(ctx, L)
            w = _one(v, spec.WRITE)
            return p, T.tup(w.args[2][1], w.args[2][2])

        def want(pr):
            o = O.Prog(ctx, facts=pre)
            b = o.call(SER_D, o.call(NEW_D, by))
            with T.under(T.NOFACTS.plus(*pre)):
                return T.tup(T.app(spec.ENC, "seq:u8", b, T.idiv(T.mul(m, q), T.I(8))), dd)
        vals = [dict(v, d=d) for v, d in zip(_images(L, "emb-data"), (10.0, 0.5, 3.0, 1.0, 30.0, 50.0, 100.0, 0.01, 2000.0, 7.5, 12.0, 20.0, 0.1, 64.0))]
        O.decide(ctx, "embed-data:%d" % L, "exactly the given bytes are embedded, at the given depth, at %d levels" % L, mk, want, vals, pre=pre, may=O.ANY, where=EMBED)


def extracted(ctx):
    """what extract returns: the bytes of the container decoded from the domain, read at the caller's depth"""
    if not _anchors(ctx, EXTRACT, DES_D):
        return
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)
        with T.under(T.NOFACTS.plus(*pre)):
            fwd, dom = _domain(img, L, m, q)
            cap = T.idiv(T.mul(m, q), T.I(8))

        def mk():
            return _embedded(ctx, L, EXTRACT)

        def want(pr):
            o = O.Prog(ctx, facts=pre)
            c = o.call(DES_D, T.app(spec.DEC, "seq:u8", T.app(spec.READ, "seq:u8", dom, dd), cap))
            return T.fld(c, None, 0, "seq:u8")
        O.decide(ctx, "extract-data:%d" % L, "exactly the bytes of the container read at the given depth are returned, at %d levels" % L, mk, want, _holding(L, "ext-data"),
                 pre=pre, may=O.ANY, where=EXTRACT)


def sizes(ctx):
    """embedding keeps the number of rows and columns"""
    if not _anchors(ctx, EMBED):
        return
    for L in levels(ctx):
        img, by, dd, pre, m, q = _image(L)

        def mk():
            p, v = _embedded(ctx, L)
            return p, T.tup(T.rows(v), T.cols(v))
        O.decide(ctx, "embed-size:%d" % L, "embedding keeps the number of rows and columns, at %d levels" % L, mk, lambda pr: T.tup(T.rows(img), T.cols(img)),
                 _images(L, "c14s", 6), pre=pre, where=EMBED)


def sides(ctx):
    written(ctx)
    extracted(ctx)


def _unwritten(t, w, dom):
    """the coefficients as they would be had the write changed nothing"""
    return T.renorm(T.subst(t, {w: w.args[2][0]}))


TECHNIQUE = {
    "C10": "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): the refusal edges of a write, the state of the domain on each of them, and the capacity every caller passes on.",
    "C12": "Value numbering over typed MIR: the domain after a write and the composition of read and write in closed form, for symbolic shapes.",
    "C13": "Value numbering over typed MIR with real-number normal forms: read(write(x, b) + disturbance) normalises to b.",
    "C14": "Value numbering over typed MIR: the pixel as a function of the inverse-transformed value, and the samples handed to the transform.",
    "C21": "Value numbering over typed MIR: the transform in closed form against the composition of level steps; the blocks embed and extract take.",
}
_REAL = ["float arithmetic is reasoned about over the real numbers (rounding of double precision left out), a depth is a positive finite number"]
_DIM = ["image sides are multiples of two to the number of levels (other sizes are refused by the transform library) and below 2^31",
        "the wavelet library computes one Haar step per level"]
ASSUME = {"C10": _DIM + ["rows times columns does not overflow the machine word"], "C12": _REAL, "C13": _REAL, "C14": _DIM, "C21": _DIM}
CHECKS = {"C10": c10, "C12": c12, "C13": c13, "C14": c14, "C21": c21}
MORE = {"C02": sides, "C13": sides, "C18": extracted, "C07": sizes}
