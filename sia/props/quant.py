"""C15, C16: three-bit quantisation and restoring."""
from .. import interp as N  # noqa: F401
from .. import oblig as O
from .. import terms as T
from ..exec import Unsup

Q3, D3 = "three_bit_quantization::three_bit_quantization", "three_bit_quantization::three_bit_dequantization"
QZ = "three_bit_quantization::quantize"

STEPS = [1.0, 0.5, 2.0, 0.37, 1000.0, 0.001, 17.0, 1e-9, 0.5 ** 40, 3e9]
FRACS = [0.05, 0.11, 0.2, 0.34, 0.45, 0.49, 0.51, 0.56, 0.7, 0.77, 0.83, 0.95]


def _anchors(ctx, *names):
    return all([ctx.anchor(n) is not None for n in names])


def _q(x, s):
    return T.f2i("i64", T.ffun("floor", T.fop("fdiv", x, s)))


def _upper(x, s):
    return T.fcmp("flec", T.fop("fmul", s, T.fop("fadd", T.F(0.5), T.i2f(_q(x, s)))), x)


def _class(x, s):
    return T.imod(T.sub(_q(x, s), T.I(1)), T.I(4))


def _features(r, n, s):
    """Values away from the borders of cells and half cells, where double precision would decide; on the borders themselves only where the
    step is a power of two, so that every way of computing them is exact."""
    exact = s in (1.0, 0.5, 2.0, 0.5 ** 40)

    def one():
        q = r.choice([r.randint(-9, 9), r.randint(-9, 9), r.randint(-40000, 40000), r.choice([-1, 1]) * r.randint(1, 1 << 36)])
        return s * (q + (r.choice([0.0, 0.5]) if exact and r.random() < 0.3 else r.choice(FRACS)))
    return [one() for _ in range(n)]


def _vals(seed, sizes=(0, 1, 2, 3, 4, 5, 7, 9, 16, 33)):
    r = O.rnd(seed)
    out = []
    for k in range(5):
        for n in (sizes if k < 4 else (1025, 5000) + (1100,) * 8):
            s = STEPS[(k + n) % len(STEPS)]
            out.append({"x": O.seq(_features(r, n, s)), "s": s, "g": O.seq([bool(r.getrandbits(1)) for _ in range(3 * n)]),
                        "i": r.randrange(1024 if n == 1100 else 0, n) if n else 0})
    return out


def _syms():
    x, s, g = T.sym("x", "seq:f64"), T.sym("s", "f64"), T.sym("g", "seq:bool")
    n = T.length(x)
    T.SYMLEN[g] = T.mul(T.I(3), n)
    return x, s, g, n, [T.bnot(T.fcmp("flec", s, T.F(0.0)))]


def _restored(ctx, x, g, s, facts=()):
    p = O.Prog(ctx, facts=facts)
    v = p.call(D3, x, g, s)
    if v is None:
        raise Unsup("always panics")
    return p, v


def c15(ctx):
    if not _anchors(ctx, D3):
        return
    ctx.rule("for each of the eight triples of original bits, the restored integer as a closed form of the present feature equals the table of the property")
    x, s, g, n, pre = _syms()
    i = T.sym("i", "nat")
    pre = pre + [T.lt(i, n)]
    r = O.rnd("c15")
    xi = T.at(x, i, "f64")
    cells = [T.at(g, T.add(T.scale(i, 3), T.I(k)), "bool") for k in range(3)]
    for code in range(8):
        hi, lo, half = bool(code & 4), bool(code & 2), bool(code & 1)
        given = 2 * hi + lo
        c, up = _class(xi, s), _upper(xi, s)
        apart = T.eq(c, T.I((given + 2) % 4))

        def mk():
            p, v = _restored(ctx, x, g, s, pre)
            with T.under(p.st.facts):
                e = T.subst(T.renorm(T.at(v, i)), dict(zip(cells, (T.B(hi), T.B(lo), T.B(half)))))
                return p, T.ite(apart, T.I(0), e)
        above = _q(T.fop("fadd", s, xi), s)
        below = _q(T.fop("fsub", xi, s), s)
        kept = _q(xi, s)
        with T.under(T.NOFACTS.plus(*pre)):
            want = T.ite(T.eq(c, T.I((given + 3) % 4)), T.ite(T.band(T.B(half), T.bnot(up)), kept, above),
                         T.ite(T.eq(c, T.I((given + 1) % 4)), T.ite(T.band(T.B(not half), up), kept, below), kept))
            want = T.ite(apart, T.I(0), want)
        vals = []
        for k in range(80):
            m = r.choice([1, 1, 2, 3, 6])
            st = r.choice(STEPS)
            j = r.randrange(m)
            gs = [bool(r.getrandbits(1)) for _ in range(3 * m)]
            gs[3 * j:3 * j + 3] = [hi, lo, half]
            vals.append({"x": O.seq(_features(r, m, st)), "s": st, "g": O.seq(gs), "i": j})
        O.decide(ctx, "restored:%d%d%d" % (hi, lo, half),
                 "original class %d, %s half: the feature is shifted by a step towards it, or kept, as the halves say" % (given, "upper" if half else "lower"),
                 mk, want, vals, pre=pre, where=D3)


def c16(ctx):
    if not _anchors(ctx, Q3, D3):
        return
    ctx.rule("the value graph of the quantisation is, element by element, the closed form of the property; restoring takes its i-th feature and triple alone")
    x, s, g, n, pre = _syms()

    def mk():
        p = O.Prog(ctx, facts=pre)
        v = p.call(Q3, x, s)
        return p, T.tup(*v.args[0]) if v is not None and v.op == "tup" else v
    i = T.fresh("i", "nat")
    xi = T.at(x, i, "f64")
    ints = T.tab(n, T.lam(i, _q(xi, s)))
    c = _class(xi, s)
    k = T.fresh("k", "nat")
    triple = T.subst(T.lst(T.bit(c, T.I(1)), T.bit(c, T.I(0)), _upper(xi, s)), {i: T.idiv(k, T.I(3))})
    bits = T.tab(T.scale(n, 3), T.lam(k, T.at(triple, T.imod(k, T.I(3)), "bool")))
    vals = _vals("c16")
    O.decide(ctx, "bits", "one integer and three bits per feature, in order, with the meaning the property gives them", mk, T.tup(ints, bits), vals, pre=pre, where=Q3)

    def mkd():
        p, v = _restored(ctx, x, g, s, pre)
        return p, T.length(v)
    O.decide(ctx, "restored-count", "one restored integer per feature", mkd, n, vals, pre=pre, where=D3)
    j = T.sym("i", "nat")
    inside = pre + [T.lt(j, n)]

    def mke():
        p, v = _restored(ctx, x, g, s, inside)
        with T.under(p.st.facts):
            return p, T.renorm(T.at(v, j))

    def alone(pr):
        with T.under(T.NOFACTS.plus(*inside)):
            one = T.slc(g, T.scale(j, 3), T.add(T.scale(j, 3), T.I(3)))
            p, v = _restored(ctx, T.lst(T.at(x, j, "f64")), one, s, inside)
            return T.renorm(T.at(v, T.I(0)))
    O.decide(ctx, "restored-alone", "the i-th restored integer comes from the i-th feature and the i-th triple alone", mke, alone,
             [v for v in vals if v["x"].n], pre=inside, where=D3)

    def mks():
        p = O.Prog(ctx, facts=pre)
        q = p.call(Q3, x, s)
        v = p.call(D3, x, T.fld(q, None, 1), s) if q is not None else None
        return p, v
    O.decide(ctx, "same-meaning", "restoring gives the bits the meaning quantising gave them: without drift nothing changes", mks, ints, vals, pre=pre, where=Q3 + " / " + D3)


_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C15": _VG + "the restored integer, specialised to each triple of original bits, against the decision table.",
    "C16": _VG + "integers and bits in closed form for a vector of any length; restoring depends on one feature and its triple alone.",
}
_A = ["the number of bits given for restoring is three times the number of features (the caller cuts it to that)",
      "a feature divided by the step stays within the range of 64-bit integers"]
ASSUME = {"C15": _A, "C16": _A}
CHECKS = {"C15": c15, "C16": c16}
