"""Models of the image library's dynamic images and pixel conversions."""
import re

from . import interp as N
from . import terms as T
from .exec import Unsup
from .models import RX, it, short, ty_name

DYN, COLOUR, PIX = "image::dynimage::DynamicImage", "image::color::ColorType", "image::color::"
KINDS = ("ImageLuma8", "ImageLumaA8", "ImageRgb8", "ImageRgba8", "ImageLuma16", "ImageLumaA16", "ImageRgb16", "ImageRgba16", "ImageRgb32F", "ImageRgba32F")
COLOURS = ("L8", "La8", "Rgb8", "Rgba8", "L16", "La16", "Rgb16", "Rgba16", "Rgb32F", "Rgba32F")
SAMPLES = {"Luma": 1, "LumaA": 2, "Rgb": 3, "Rgba": 4}
NAMES = ("Luma", "LumaA", "Rgb", "Rgba", "Luma", "LumaA", "Rgb", "Rgba", "Rgb", "Rgba")
WIDTH, HEIGHT, PIXEL, COL = "image width", "image height", "image pixel", "image colour"

_own = []


def rx(*pats):
    def d(f):
        for p in pats:
            _own.append((re.compile("^(?:" + p + ")$"), f))
        return f
    return d


def pixel(name, comps):
    return T.ctor(PIX + name, [T.lst(*comps)], 0)


def comps(p, n):
    s = T.fld(p, None, 0, "seq:u8")
    return [T.at(s, T.I(k), "u8") for k in range(n)]


def gray(r, g, b):
    return T.idiv(T.add(T.scale(r, 2126), T.scale(g, 7152), T.scale(b, 722)), T.I(10000))


def conv(p, src, dst):
    """a pixel of eight-bit samples as another kind of pixel"""
    if src == dst:
        return p
    c = comps(p, SAMPLES[src])
    a = c[-1] if src in ("LumaA", "Rgba") else T.I(255)
    l = c[0] if src in ("Luma", "LumaA") else gray(*c[:3])
    rgb = c[:3] if src in ("Rgb", "Rgba") else [c[0]] * 3
    return pixel(dst, {"Luma": [l], "LumaA": [l, a], "Rgb": rgb, "Rgba": rgb + [a]}[dst])


def mapmat(m, f):
    R, C = T.rows(m), T.cols(m)
    r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
    with T.under(T.cur().plus(T.lt(r, R), T.lt(c, C))):
        b = f(T.at2(m, r, c))
    return T.mat(R, C, T.lam(r, T.lam(c, b)))


def split(v, f):
    """f at every alternative of a value"""
    if v.op == "ite":
        with T.under(T.cur().plus(v.args[0])):
            a = split(v.args[1], f)
        with T.under(T.cur().plus(T.bnot(v.args[0]))):
            b = split(v.args[2], f)
        return T.ite(v.args[0], a, b)
    return f(v)


def is8(v):
    return v.op == "ctor" and v.args[0].startswith(DYN) and v.args[2] < 4


def isdyn(v):
    return v.op == "ctor" and v.args[0].startswith(DYN)


def dyn(k, m):
    return T.ctor(DYN + "::" + KINDS[k], [m], k)


def width(v):
    return split(v, lambda x: T.cols(x.args[1][0]) if isdyn(x) else T.app(WIDTH, "u32", x))


def height(v):
    return split(v, lambda x: T.rows(x.args[1][0]) if isdyn(x) else T.app(HEIGHT, "u32", x))


def colour(v):
    return split(v, lambda x: T.ctor(COLOUR + "::" + COLOURS[x.args[2]], [], x.args[2]) if isdyn(x) else T.app(COL, "ColorType", x))


def sample(v, x, y):
    """the pixel (as red, green, blue, alpha in eight bits each) at column x, row y"""
    def f(d):
        if is8(d):
            return conv(T.at2(d.args[1][0], y, x), NAMES[d.args[2]], "Rgba")
        return T.app(PIXEL, "Rgba", d, x, y)
    return split(v, f)


def kind(c):
    """discriminant of a colour type"""
    if c.op == "ite":
        return T.ite(c.args[0], kind(c.args[1]), kind(c.args[2]))
    return T.discr(c)


def oneof(c, ks):
    d = kind(c)
    return T.bor(*[T.eq(d, T.I(k)) for k in ks])


HASCOLOUR, HASALPHA = (2, 3, 6, 7, 8, 9), (1, 3, 5, 7, 9)


def buffer(v, name):
    """the matrix of pixels of the given kind an image converts to"""
    def f(d):
        if is8(d):
            return mapmat(d.args[1][0], lambda p: conv(p, NAMES[d.args[2]], name))
        if name != "Rgba":
            return T.app("image as " + name, "mat:?", d)
        r, c = T.fresh("r", "nat"), T.fresh("c", "nat")
        return T.mat(T.app(HEIGHT, "u32", d), T.app(WIDTH, "u32", d), T.lam(r, T.lam(c, T.app(PIXEL, "Rgba", d, c, r))))
    return split(v, f)


for _n in SAMPLES:
    T.MATDIM["image as " + _n] = lambda t, k: T.app(HEIGHT if k == 0 else WIDTH, "u32", t.args[2][0])


# ---------------------------------------------------------------- meaning at constants

def _img(v):
    if not isinstance(v, N.Ctor) or short(v.name) not in KINDS:
        raise N.Stuck("image")
    return v


def _to8(x, k):
    return x if k < 4 else (x + 128) // 257 if k < 8 else int(T._round32(min(1.0, max(0.0, x)) * 255.0) + 0.5)


def _cpixel(v, x, y, name="Rgba"):
    v = _img(v)
    m = N.matof(v.fs[0])
    if not (0 <= x < m.c and 0 <= y < m.r):
        raise N.Undef("pixel")
    c = N.seqof(m.get(y, x).fs[0]).all()
    k, src = v.vidx, NAMES[v.vidx]
    a = c[-1] if src in ("LumaA", "Rgba") else {0: 255, 1: 65535, 2: 1.0}[min(2, k // 4)]
    if src in ("Luma", "LumaA"):
        l, rgb = c[0], [c[0]] * 3
    else:
        l, rgb = (2126 * c[0] + 7152 * c[1] + 722 * c[2]) // 10000 if k < 8 else (0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2]), c[:3]
    out = {"Luma": [l], "LumaA": [l, a], "Rgb": rgb, "Rgba": rgb + [a]}[name]
    return N.Ctor(PIX + name, [N.Seq.of([_to8(z, k) for z in out])], 0)


N.INTERP[WIDTH] = lambda v: N.matof(_img(v).fs[0]).c
N.INTERP[HEIGHT] = lambda v: N.matof(_img(v).fs[0]).r
N.INTERP[COL] = lambda v: N.Ctor(COLOUR + "::" + COLOURS[_img(v).vidx], [], v.vidx)
N.INTERP[PIXEL] = _cpixel
for _n in SAMPLES:
    N.INTERP["image as " + _n] = lambda v, n=_n: N.Mat(N.matof(_img(v).fs[0]).r, N.matof(v.fs[0]).c, lambda i, j: _cpixel(v, j, i, n))


def image(k, rows):
    """a constant image: rows of pixels, each a list of samples"""
    return N.Ctor(DYN + "::" + KINDS[k], [N.Mat(len(rows), len(rows[0]), lambda i, j: N.Ctor(PIX + NAMES[k], [N.Seq.of(rows[i][j])], 0))], k)


# ---------------------------------------------------------------- pixels

def _pixel_type(c):
    for t in list(c.ty) + [a for a in c.fj.get("args", ()) if isinstance(a, dict)]:
        while t["k"] in ("ref", "ptr"):
            t = t["to"]
        if t["k"] != "adt":
            continue
        if ty_name(t) in SAMPLES:
            return ty_name(t), t["args"][0] if t["args"] else None
        if ty_name(t) == "ImageBuffer" and t["args"] and ty_name(t["args"][0]) in SAMPLES:
            return ty_name(t["args"][0]), t["args"][0]["args"][0]
        if ty_name(t) == "DynamicImage":
            return "Rgba", {"k": "int", "n": "u8"}
    return None, None


def _isdyn(c):
    if "dynimage::DynamicImage" in c.path.split(" as ")[0]:
        return True
    for t in list(c.ty) + [a for a in c.fj.get("args", ()) if isinstance(a, dict)]:
        while t["k"] in ("ref", "ptr"):
            t = t["to"]
        return t["k"] == "adt" and ty_name(t) == "DynamicImage"
    return False


def _zero(name, sub):
    if name is None or sub is None or sub["k"] not in ("int", "float"):
        return T.app("zero pixel", "?")
    return pixel(name, [T.I(0) if sub["k"] == "int" else T.F(0.0)] * SAMPLES[name])


@rx(r"image::buffer_::ImageBuffer::new")
def _new(c):
    w, h = c.v(0), c.v(1)
    return T.mat(h, w, T.mk("lam", T.mk("lam", _zero(*_pixel_type(c)))))


@rx(r"image::dynimage::DynamicImage::new_(luma_a|luma|rgb|rgba)(8)")
def _dnew(c, n, b):
    k = ("luma", "luma_a", "rgb", "rgba").index(n)
    return dyn(k, T.mat(c.v(1), c.v(0), T.mk("lam", T.mk("lam", pixel(NAMES[k], [T.I(0)] * SAMPLES[NAMES[k]])))))


@rx(r"<image::dynimage::DynamicImage as core::convert::From>::from")
def _from(c):
    n, sub = _pixel_type(_Args(c))
    x = c.v(0)
    if isdyn(x) or n is None or sub is None:
        return x if isdyn(x) else c.E.unknown(c.path, c.args, "DynamicImage", c.st)
    k = ("Luma", "LumaA", "Rgb", "Rgba").index(n)
    if sub["n"] == "u16":
        k += 4
    elif sub["n"] == "f32":
        k += 6
    return dyn(k, x)


class _Args:
    """the arguments of a conversion without its target type"""

    def __init__(self, c):
        self.ty, self.fj = [], {"args": c.fj.get("args", ())[1:]}


@rx(r"core::convert::Into::into", r"<param:T as core::convert::Into>::into")
def _into(c):
    from .models import _into as old
    a = c.fj.get("args", ())
    if len(a) > 1 and isinstance(a[1], dict) and ty_name(a[1]) == "DynamicImage" and ty_name(a[0]) == "ImageBuffer":
        n, sub = _pixel_type(_One(a[0]))
        if n and sub["k"] == "int" and sub["n"] == "u8":
            return dyn(("Luma", "LumaA", "Rgb", "Rgba").index(n), c.v(0))
    return old(c)


class _One:
    def __init__(self, t):
        self.ty, self.fj = [t], {}


@rx(r"image::imageops::(?:colorops::)?(grayscale|grayscale_alpha)")
def _grayscale(c, w):
    n, sub = _pixel_type(c)
    m = c.v(0)
    dst = "LumaA" if w.endswith("alpha") else "Luma"
    if _isdyn(c):
        return mapmat(buffer(m, "Rgba"), lambda p: conv(p, "Rgba", dst))
    if n is None or sub["k"] != "int" or sub["n"] != "u8":
        raise Unsup(c.path)
    return mapmat(m, lambda p: conv(p, n, dst))


@rx(r"image::dynimage::DynamicImage::(?:to|into)_(luma_alpha|luma|rgb|rgba)8", r"image::dynimage::DynamicImage::to_(luma_alpha|luma|rgb|rgba)")
def _tobuf(c, n, n2=None):
    n = n or n2
    return buffer(c.v(0), {"luma": "Luma", "luma_alpha": "LumaA", "rgb": "Rgb", "rgba": "Rgba"}[n])


@rx(r"<image::dynimage::DynamicImage as image::image::GenericImageView>::(dimensions|width|height)", r"image::dynimage::DynamicImage::(width|height|dimensions)",
    r"image::image::GenericImageView::(dimensions|width|height)")
def _dim(c, *w):
    w = [x for x in w if x][0]
    m = c.v(0)
    d = (width(m), height(m)) if _isdyn(c) else (T.cols(m), T.rows(m))
    return T.tup(*d) if w == "dimensions" else d[0] if w == "width" else d[1]


@rx(r"<image::dynimage::DynamicImage as image::image::GenericImageView>::get_pixel")
def _dpx(c):
    m, x, y = c.v(0), c.v(1), c.v(2)
    if not c.require(T.band(T.lt(x, width(m)), T.lt(y, height(m))), "pixel coordinates"):
        return None
    with T.under(c.st.facts):
        return sample(m, x, y)


@rx(r"image::dynimage::DynamicImage::color")
def _color(c):
    return colour(c.v(0))


@rx(r"image::color::ColorType::(has_color|has_alpha)")
def _has(c, w):
    return oneof(c.v(0), HASCOLOUR if w == "has_color" else HASALPHA)


@rx(r"image::color::ColorType::(channel_count|bytes_per_pixel|bits_per_pixel)")
def _count(c, what):
    d = kind(c.v(0))
    v = None
    for k in range(10):
        n = (1, 2, 3, 4, 1, 2, 3, 4, 3, 4)[k] * (1 if what == "channel_count" else (1 if k < 4 else 2 if k < 8 else 4) * (8 if what == "bits_per_pixel" else 1))
        v = T.I(n) if v is None else T.ite(T.eq(d, T.I(k)), T.I(n), v)
    return v


@rx(r"<image::(?:dynimage::DynamicImage|buffer_::ImageBuffer) as image::image::GenericImageView>::pixels", r"image::image::GenericImageView::pixels")
def _pixels(c):
    m = c.v(0)
    if _isdyn(c):
        m = buffer(m, "Rgba")
    k = T.fresh("k", "nat")
    W, H = T.cols(m), T.rows(m)
    y, x = T.idiv(k, W), T.imod(k, W)
    return it(T.tab(T.mul(H, W), T.lam(k, T.tup(x, y, T.at2(m, y, x)))))


@rx(r"image::buffer_::ImageBuffer::pixels")
def _bpixels(c):
    return it(T.matseq(c.v(0)))


def _target(c):
    """current value of the image an operation changes: (alternatives are not supported)"""
    v = c.v(0)
    if _isdyn(c):
        if not is8(v):
            raise Unsup("change of an image of unknown layout")
        return v.args[1][0], NAMES[v.args[2]], (lambda m: dyn(v.args[2], m))
    n, sub = _pixel_type(c)
    if n is None or sub["k"] != "int" or sub["n"] != "u8":
        raise Unsup(c.path)
    return v, n, (lambda m: m)


def _source(c, k):
    a = [t for t in c.fj.get("args", ()) if isinstance(t, dict)]
    t = a[k]
    while t["k"] in ("ref", "ptr"):
        t = t["to"]
    v = c.v(1)
    if ty_name(t) == "DynamicImage":
        return buffer(v, "Rgba"), "Rgba"
    n, sub = _pixel_type(_One(t))
    if n is None or sub["k"] != "int" or sub["n"] != "u8":
        raise Unsup(c.path)
    return v, n


@rx(r"(?:<image::(?:dynimage::DynamicImage|buffer_::ImageBuffer) as )?image::image::GenericImage(?:>)?::copy_from")
def _copy(c):
    m, n, back = _target(c)
    s, sn = _source(c, 1)
    x, y = c.v(2), c.v(3)
    R, C = T.rows(m), T.cols(m)
    ok = T.band(T.le(T.add(T.cols(s), x), C), T.le(T.add(T.rows(s), y), R))
    r, k = T.fresh("r", "nat"), T.fresh("c", "nat")
    with T.under(c.st.facts.plus(ok, T.lt(r, R), T.lt(k, C))):
        inside = T.band(T.le(y, r), T.lt(r, T.add(y, T.rows(s))), T.le(x, k), T.lt(k, T.add(x, T.cols(s))))
        cell = T.ite(inside, conv(T.at2(s, T.sub(r, y), T.sub(k, x)), sn, n), T.at2(m, r, k))
    new = T.mat(R, C, T.lam(r, T.lam(k, cell)))
    with T.under(c.st.facts):
        new = T.renorm(T.ite(ok, new, m))
        c.set(0, split(new, back) if new.op == "ite" else back(new))
        return T.ite(ok, T.ok(T.UNIT), T.err(T.app("image error", "ImageError")))


@rx(r"<image::dynimage::DynamicImage as image::image::GenericImage>::put_pixel")
def _dput(c):
    m, n, back = _target(c)
    x, y, p = c.v(1), c.v(2), c.v(3)
    if not c.require(T.band(T.lt(x, T.cols(m)), T.lt(y, T.rows(m))), "pixel coordinates"):
        return None
    c.set(0, back(T.store2(m, y, x, conv(p, "Rgba", n))))
    return T.UNIT


@rx(r"<image::color::(Luma|LumaA|Rgb|Rgba) as image::traits::Pixel>::to_(luma_alpha|luma|rgba|rgb)")
def _pconv(c, src, dst):
    sub = c.ty[0] if c.ty else {"k": "?"}
    if sub["k"] != "int" or sub["n"] != "u8":
        return c.E.unknown(c.path, c.args, "?", c.st)
    return conv(c.v(0), src, {"luma": "Luma", "luma_alpha": "LumaA", "rgb": "Rgb", "rgba": "Rgba"}[dst])


@rx(r"<image::color::(Luma|LumaA|Rgb|Rgba) as image::traits::Pixel>::channels4")
def _ch4(c, src):
    x = comps(c.v(0), SAMPLES[src])
    return T.tup(*(x + [T.I(255)] * (4 - len(x))))


@rx(r"image::buffer_::ImageBuffer::(?:into_raw|into_vec|as_raw)", r"<image::buffer_::ImageBuffer as core::ops::deref::Deref>::deref")
def _raw(c):
    n, _ = _pixel_type(c)
    m = c.v(0)
    if n == "Luma":
        return T.matsamples(m)
    if n is None:
        raise Unsup(c.path)
    return samples(m, SAMPLES[n])


def samples(m, n):
    """all samples, row by row"""
    k = T.fresh("k", "nat")
    R, C = T.rows(m), T.cols(m)
    with T.under(T.cur().plus(T.lt(k, T.mul(R, C)))):
        px = comps(T.at2(m, T.idiv(k, C), T.imod(k, C)), n)
    return T.flat(T.tab(T.mul(R, C), T.lam(k, T.lst(*px))))


RX[:0] = _own
