"""Specifications standing in for functions at their boundary, with their meaning at constants.

A specification is used only where the function itself is decided by another obligation, so that the
graph of a caller stays small; constant folding gives it the specified meaning, whether or not the
source calls a function of that name.
"""
import math

from . import interp as N
from . import ldpc
from . import terms as T
from .models import EQHIST, HAAR

DWT2, WRITE, READ, ENC, DEC, WMCH, AUCH = ("spec:dwt_2d", "spec:io_write", "spec:io_read", "spec:encode", "spec:decode",
                                           "spec:watermark_channel", "spec:authenticate_channel")


# ---------------------------------------------------------------- wavelets

def haar_list(x, inverse, levels):
    x = list(x)
    n = len(x)
    if levels and n % (1 << levels):
        raise N.Undef("length")
    v = math.sqrt(0.5)
    for i in range(levels):
        k = n >> (levels - i - 1 if inverse else i)
        h = k >> 1
        w = [0.0] * k
        for j in range(h):
            if inverse:
                w[2 * j], w[2 * j + 1] = v * x[j] + v * x[j + h], v * x[j] - v * x[j + h]
            else:
                w[j], w[j + h] = v * x[2 * j] + v * x[2 * j + 1], v * x[2 * j] - v * x[2 * j + 1]
        x[:k] = w
    return x


def _haar(x, inverse, levels):
    return N.Seq.of(haar_list(N.seqof(x).all(), inverse, levels))


N.INTERP[HAAR] = _haar


def step(m, H, W, inverse):
    """one level of the transform on the top-left block of H rows and W columns, as a term"""
    R, C = T.rows(m), T.cols(m)

    def one(m, row):
        r, c, k = T.fresh("r", "nat"), T.fresh("c", "nat"), T.fresh("k", "nat")
        if row:
            cell = T.at(T.app(HAAR, "seq:f64", T.tab(W, T.lam(k, T.at2(m, r, k))), T.B(inverse), T.I(1)), c, "f64")
        else:
            cell = T.at(T.app(HAAR, "seq:f64", T.tab(H, T.lam(k, T.at2(m, k, c))), T.B(inverse), T.I(1)), r, "f64")
        return T.mat(R, C, T.lam(r, T.lam(c, T.ite(T.band(T.lt(r, H), T.lt(c, W)), cell, T.at2(m, r, c)))))
    return one(one(m, True), False)


def dwt_rows(m, levels, inverse):
    m = [list(r) for r in m]
    R, C = len(m), len(m[0]) if m else 0
    for j in (range(levels - 1, -1, -1) if inverse else range(levels)):
        H, W = R >> j, C >> j
        for r in range(H):
            m[r][:W] = haar_list(m[r][:W], inverse, 1)
        for c in range(W):
            col = haar_list([m[r][c] for r in range(H)], inverse, 1)
            for r in range(H):
                m[r][c] = col[r]
    return m


def tomat(rows, c=None):
    return N.Mat(len(rows), len(rows[0]) if rows else (c or 0), lambda i, j: rows[i][j])


def torows(m):
    m = N.matof(m)
    return [[m.get(i, j) for j in range(m.c)] for i in range(m.r)]


def _dwt2(m, levels, inverse):
    if levels < 1:
        raise N.Undef("levels")
    m = N.matof(m)
    if m.r % (1 << levels) or m.c % (1 << levels):
        raise N.Undef("size")
    return tomat(dwt_rows(torows(m), levels, inverse), m.c)


N.INTERP[DWT2] = _dwt2
T.MATDIM[DWT2] = lambda t, k: T._dim(t.args[2][0], k)


def dwt_2d(E, st, args):
    m, lv, inv = [E.val(st, a) for a in args]
    with T.under(st.facts):
        if inv is not T.TRUE and inv is not T.FALSE:
            return T.ite(inv, T.app(DWT2, "mat:f64", m, lv, T.TRUE), T.app(DWT2, "mat:f64", m, lv, T.FALSE)), st
        return T.app(DWT2, "mat:f64", m, lv, inv), st


# ---------------------------------------------------------------- the coefficient domain

def rnd(x):
    return N.MATH["round"](x)


def _write(m, b, d):
    m = N.matof(m)
    b = N.seqof(b).all()
    if m.r * m.c // 8 < len(b):
        raise N.Undef("capacity")

    def cell(i, j):
        k = i * m.c + j
        x = m.get(i, j)
        if k >= 8 * len(b):
            return x
        return d * (rnd(x / d) + (0.25 if b[k // 8] >> (k % 8) & 1 else -0.25))
    return N.Mat(m.r, m.c, cell)


def _read(m, d):
    m = N.matof(m)

    def bit(k):
        x = m.get(k // m.c, k % m.c)
        return x - d * rnd(x / d) >= 0
    return N.Seq(m.r * m.c // 8, lambda i: sum(bit(8 * i + j) << j for j in range(8)))


N.INTERP[WRITE] = _write
N.INTERP[READ] = _read
T.MATDIM[WRITE] = lambda t, k: T._dim(t.args[2][0], k)
T.SEQLEN[READ] = lambda t: T.idiv(T.mul(T.rows(t.args[2][0]), T.cols(t.args[2][0])), T.I(8))


def io_write(E, st, args):
    m, b, d = [E.val(st, a) for a in args]
    st = st.copy()
    with T.under(st.facts):
        cap = T.idiv(T.mul(T.rows(m), T.cols(m)), T.I(8))
        bad = T.lt(cap, T.length(b))
        if bad is not T.FALSE:
            E.panic(st, bad, "data exceed the capacity", "io::write")
            st = st.with_facts(T.bnot(bad))
        E.store(st, E.target(st, args[0]), T.app(WRITE, "mat:f64", m, b, d))
    return T.UNIT, st


def io_read(E, st, args):
    m, d = [E.val(st, a) for a in args]
    with T.under(st.facts):
        return T.app(READ, "seq:u8", m, d), st


# ---------------------------------------------------------------- the error-correcting code

def _code(cap):
    return {16: "TC128", 32: "TC256", 64: "TC512", 128: "TC512", 256: "TM2048", 512: "TM2048"}.get(cap, "TM8192" if cap >= 1024 else None)


def _encode(b, cap):
    b = list(N.seqof(b).all())
    if len(b) > 65535:
        raise N.Undef("length")
    b = [len(b) >> 8, len(b) & 255] + b
    code = _code(cap)
    if code is None:
        return N.Seq.of(b)
    n, k, _ = ldpc.PARAMS[code]
    out = []
    for i in range(0, len(b), k // 8):
        w = (b[i:i + k // 8] + [0] * (k // 8))[:k // 8]
        out += w + ldpc._bytes(b"parity", code, w, (n - k) // 8)
    return N.Seq.of(out)


def _decode(b, cap):
    b = list(N.seqof(b).all())
    code = _code(cap)
    if code is not None:
        n, k, p = ldpc.PARAMS[code]
        out = []
        for i in range(0, len(b) - n // 8 + 1, n // 8):
            w = b[i:i + n // 8]
            if ldpc._bytes(b"parity", code, w[:k // 8], (n - k) // 8) != w[k // 8:]:
                w = ldpc._bytes(b"decoded", code, w, (n + p) // 8)
            out += w[:k // 8]
        b = out
    if len(b) < 2 or (b[0] << 8 | b[1]) + 2 > len(b):
        raise N.Undef("header")
    return N.Seq.of(b[2:2 + (b[0] << 8 | b[1])])


N.INTERP[ENC] = _encode
N.INTERP[DEC] = _decode


def encode(E, st, args):
    b, cap = [E.val(st, a) for a in args]
    with T.under(st.facts):
        bad = T.lt(T.I(65535), T.length(b))
        if bad is not T.FALSE:
            E.panic(st, bad, "data too long", "encoding::encode")
            st = st.with_facts(T.bnot(bad))
        return T.app(ENC, "seq:u8", b, cap), st


def decode(E, st, args):
    b, cap = [E.val(st, a) for a in args]
    with T.under(st.facts):
        return T.app(DEC, "seq:u8", b, cap), st


STEGO = {"embedding::haar::dwt_2d": dwt_2d, "embedding::io::write": io_write, "embedding::io::read": io_read}
CODEC = {"encoding::encode": encode, "encoding::decode": decode}


# ---------------------------------------------------------------- moments

KERNEL, MOMENT, FACT = "spec:zernike_matrix", "spec:moment", "spec:factorial"
CX = "num_complex::Complex"


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)


def fact(x):
    if x != x:
        return x
    if x != math.floor(x):
        try:
            return math.gamma(1.0 + x)
        except OverflowError:
            return math.inf
    return math.inf if x < 0 or x > 170 else float(math.factorial(int(x)))


def radial(n, m, r):
    end = (n - m) // 2 if n >= m else 0
    s = 0.0
    for k in range(end + 1):
        t = 1.0 if r == 0.0 and n == 2 * k else r ** (n - 2 * k) if r or n >= 2 * k else math.inf
        c = _div(fact(n - k), fact(k) * fact((n + m) / 2 - k) * fact((n - m) / 2 - k))
        s += (-1.0) ** k * (c * t)
    return s


def polar(i, j, d):
    """centred polar coordinates of row i and column j: the corners of the d x d square lie on the unit circle"""
    x, y = (_div(math.sqrt(0.5) * (1.0 + d - 2.0 * (k + 1)), 1.0 - d) for k in (i, j))
    if x != x or y != y:
        return math.nan, math.nan
    return (0.0, 0.0) if x == 0 and y == 0 else (math.sqrt(x * x + y * y), math.atan2(y, x))


def kernel_cell(n, m, d, i, j):
    r, th = polar(i, j, d)
    v = radial(n, m, r)
    return N.Ctor(CX, [v * math.cos(m * th), -v * math.sin(m * th)], 0) if r == r else N.Ctor(CX, [math.nan, math.nan], 0)


def _kernel(n, m, d):
    m = abs(m)
    return N.Mat(d, d, lambda i, j: kernel_cell(n, m, d, i, j))


def _moment(n, m, image):
    image = N.matof(image)
    d = max(image.r, image.c)
    re = im = 0.0
    for i in range(image.r):
        for j in range(image.c):
            x = image.get(i, j)
            if x:
                c = kernel_cell(n, m, d, i, j).fs
                re, im = re + c[0] * x, im + c[1] * x
    k = (n + 1.0) / math.pi
    return N.Ctor(CX, [_div(k * re, float(image.r * image.c)), _div(k * im, float(image.r * image.c))], 0)


def _gamma(x):
    try:
        return math.gamma(x)
    except (OverflowError, ValueError):
        return math.inf


N.INTERP["puruspe::gamma"] = _gamma
N.INTERP[KERNEL] = _kernel
N.INTERP[MOMENT] = _moment
N.INTERP[FACT] = fact
T.MATDIM[KERNEL] = lambda t, k: t.args[2][2]


def _app(name, sort):
    def f(E, st, args):
        a = [E.val(st, x) for x in args]
        with T.under(st.facts):
            return T.app(name, sort, *a), st
    return f


MOMENTS = {"zernike::calc::calculate_zernike_image_moment": _app(MOMENT, "cplx")}
KERNELS = {"zernike::calc::get_zernike_matrix": _app(KERNEL, "mat:cplx")}
FACTS = {"utils::math::factorial": _app(FACT, "f64")}


# ---------------------------------------------------------------- the channel pipeline

FEATURES, QINTS, QBITS, RESTORED, EMBED, EXTRACT = "spec:features", "spec:quantised", "spec:bits", "spec:restored", "spec:embed", "spec:extract"


def luma(x):
    return N.Ctor("image::color::Luma", [N.Seq.of([x])], 0)


def _equalise(m):
    m = N.matof(m)
    px = [[N.seqof(m.get(i, j).fs[0]).all()[0] for j in range(m.c)] for i in range(m.r)]
    hist = [0] * 256
    for row in px:
        for x in row:
            hist[x] += 1
    lut, run, total = [], 0, T._round32(float(m.r * m.c))
    for h in hist:
        run += h
        f = T._round32(_div(T._round32(float(run)), total))
        f = T._round32(255.0 * f)
        lut.append(0 if f != f else int(max(0.0, min(255.0, f))))
    return N.Mat(m.r, m.c, lambda i, j: luma(lut[px[i][j]]))


N.INTERP[EQHIST] = _equalise


def _features(image, kind, n):
    if not isinstance(kind, N.Ctor):
        raise N.Stuck("kind of features")
    if not kind.name.endswith("MomentsZernike"):
        return N.Seq.of([])
    if n < 1:
        raise N.Undef("features")
    order = 2 * n - 1

    def one(k):
        c = _moment(order, 2 * k + 1, image).fs
        return math.hypot(c[0], c[1])
    return N.Seq(n, one)


def _flen(t):
    kind, n = t.args[2][1:]
    return n if kind.op == "ctor" and kind.args[0].endswith("MomentsZernike") else T.I(0) if kind.op == "ctor" else T.mk("len", t)


def _fq(x, s):
    q = _div(x, s)
    return 0 if q != q else max(-2 ** 63, min(2 ** 63 - 1, math.floor(q))) if math.isfinite(q) else (2 ** 63 - 1 if q > 0 else -2 ** 63)


def _upper(x, s):
    return s * (0.5 + float(_fq(x, s))) <= x


def _restore(x, bits, s):
    bits = N.seqof(bits).all()
    out = []
    for i, v in enumerate(N.seqof(x).all()):
        if 3 * i + 3 > len(bits):
            raise N.Undef("bits")
        hi, lo, half = bits[3 * i:3 * i + 3]
        now, given = (_fq(v, s) - 1) % 4, 2 * hi + lo
        up = _upper(v, s)
        if now == (given + 3) % 4 and not (half and not up):
            v = s + v
        elif now == (given + 1) % 4 and not (not half and up):
            v = v - s
        out.append(_fq(v, s))
    return N.Seq.of(out)


def _qbits(x, s):
    out = []
    for v in N.seqof(x).all():
        c = (_fq(v, s) - 1) % 4
        out += [bool(c & 2), bool(c & 1), _upper(v, s)]
    return N.Seq.of(out)


def _block(image, levels):
    image = N.matof(image)
    c = _dwt2(N.Mat(image.r, image.c, lambda i, j: float(image.get(i, j))), levels, False)
    return c, c.r >> levels, c.c >> levels


def _embed(image, data, depth, levels):
    c, h, w = _block(image, levels)
    b = _write(N.Mat(h, w, c.get), _encode(data, h * w // 8), depth)
    m = _dwt2(N.Mat(c.r, c.c, lambda i, j: b.get(i, j) if i < h and j < w else c.get(i, j)), levels, True)
    return N.Mat(m.r, m.c, lambda i, j: int(max(0.0, min(255.0, rnd(m.get(i, j))))))


def _extract(image, depth, levels):
    c, h, w = _block(image, levels)
    return _decode(_read(N.Mat(h, w, c.get), depth), h * w // 8)


N.INTERP[FEATURES] = _features
N.INTERP[QINTS] = lambda x, s: N.Seq.of([_fq(v, s) for v in N.seqof(x).all()])
N.INTERP[QBITS] = _qbits
N.INTERP[RESTORED] = _restore
N.INTERP[EMBED] = _embed
N.INTERP[EXTRACT] = _extract
T.SEQLEN[FEATURES] = _flen
T.SEQLEN[QINTS] = lambda t: T.length(t.args[2][0])
T.SEQLEN[QBITS] = lambda t: T.scale(T.length(t.args[2][0]), 3)
T.SEQLEN[RESTORED] = lambda t: T.length(t.args[2][0])
T.MATDIM[EMBED] = lambda t, k: T._dim(t.args[2][0], k)


def _quantise(E, st, args):
    a = [E.val(st, x) for x in args]
    with T.under(st.facts):
        return T.tup(T.app(QINTS, "seq:i64", *a), T.app(QBITS, "seq:bool", *a)), st


CHANNEL = {"image_features::calculate_features": _app(FEATURES, "seq:f64"),
           "three_bit_quantization::three_bit_quantization": _quantise,
           "three_bit_quantization::three_bit_dequantization": _app(RESTORED, "seq:i64"),
           "embedding::embed": _app(EMBED, "mat:u8"), "embedding::extract": _app(EXTRACT, "seq:u8")}
