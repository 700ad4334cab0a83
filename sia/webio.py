"""Models of image readers and of the JavaScript values the web module exchanges.

A byte array of JavaScript is the sequence of its bytes, a JavaScript number or array is the number
or sequence it was made from.  Detecting and decoding a format are uninterpreted.
"""
import re

from . import images as G
from . import interp as N
from . import terms as T
from .exec import Unsup
from .models import RX, isopt, it, seqarg, short, ty_name

FORMATS = ("Png", "Jpeg", "Gif", "WebP", "Pnm", "Tiff", "Tga", "Dds", "Bmp", "Ico", "Hdr", "OpenExr", "Farbfeld", "Avif", "Qoi")
FMT = "image::image::ImageFormat"
GUESS, DECODE, EXT = "image:guess", "image:decode", "image:format of extension"
DEBUG = "fmt:debug:ImageFormat:None:None:None"
READER, CURSOR = "image::io::reader::Reader", "core::io::cursor::Cursor"

_own = []


def rx(*pats):
    def d(f):
        for p in pats:
            _own.append((re.compile("^(?:" + p + ")$"), f))
        return f
    return d


# ---------------------------------------------------------------- meaning at constants

MAGIC = [(b"\x89PNG\r\n\x1a\n", "Png"), (b"\xff\xd8\xff", "Jpeg"), (b"GIF89a", "Gif"), (b"GIF87a", "Gif"), (b"RIFF", "WebP"), (b"MM\0*", "Tiff"), (b"II*\0", "Tiff"),
         (b"DDS ", "Dds"), (b"BM", "Bmp"), (b"\0\0\1\0", "Ico"), (b"#?RADIANCE", "Hdr")] + [(b"P%d" % k, "Pnm") for k in range(1, 8)] + [
    (b"farbfeld", "Farbfeld"), (b"\0\0\0 ftypavif", "Avif"), (b"\0\0\0\x1cftypavif", "Avif"), (b"\x76\x2f\x31\x01", "OpenExr"), (b"qoif", "Qoi")]
EXTENSIONS = {"avif": "Avif", "jpg": "Jpeg", "jpeg": "Jpeg", "png": "Png", "gif": "Gif", "webp": "WebP", "tif": "Tiff", "tiff": "Tiff", "tga": "Tga", "dds": "Dds",
              "bmp": "Bmp", "ico": "Ico", "hdr": "Hdr", "exr": "OpenExr", "pbm": "Pnm", "pam": "Pnm", "ppm": "Pnm", "pgm": "Pnm", "ff": "Farbfeld", "farbfeld": "Farbfeld",
              "qoi": "Qoi"}
NONE, SOME = N.Ctor(T.NONE, [], 0), (lambda x: N.Ctor(T.SOME, [x], 1))
OK, ERR = (lambda x: N.Ctor(T.OK, [x], 0)), (lambda x: N.Ctor(T.ERR, [x], 1))


def fmt(name):
    return N.Ctor(FMT + "::" + name, [], FORMATS.index(name))


def octets(v):
    return v if isinstance(v, bytes) else bytes(N.seqof(v).all())


def _guess(b):
    b = octets(b)
    for m, f in MAGIC:
        if b.startswith(m):
            return SOME(fmt(f))
    return NONE


def made(h):
    """some image determined by h"""
    k = h[0] % 10
    w, r = 1 + h[1] % 5, 1 + h[2] % 5
    if w == r:
        w += 1
    n = G.SAMPLES[G.NAMES[k]]

    def s(i, j, c):
        d = N.digest(h, b"px", i, j, c)
        return d[0] if k < 4 else d[0] + 256 * d[1] if k < 8 else T._round32((d[0] + 256 * d[1]) / 65535.0)
    return G.image(k, [[[s(i, j, c) for c in range(n)] for j in range(w)] for i in range(r)])


def _decode(b, f):
    b = octets(b)
    if not isinstance(f, N.Ctor) or short(f.name) not in FORMATS:
        raise N.Stuck("format")
    g = _guess(b)
    if g.vidx != 1 or g.fs[0].vidx != f.vidx or b.endswith(b"damaged"):
        return ERR(N.Tok(b"decode", "ImageError"))
    return OK(made(N.digest(b)))


N.INTERP[GUESS] = _guess
N.INTERP[DECODE] = _decode
N.INTERP[DEBUG] = lambda f: N.Seq.of(list(short(f.name).encode()))


def _ext(e):
    f = EXTENSIONS.get(octets(e).decode("utf8", "replace").lower())
    return SOME(fmt(f)) if f else NONE


N.INTERP[EXT] = _ext


# ---------------------------------------------------------------- readers

def _err(what):
    return T.err(T.app("error:" + what, "?"))


@rx(r"(?:core|std)::io::cursor::Cursor::new")
def _cursor(c):
    return T.ctor(CURSOR, [c.v(0)], 0)


@rx(r"(?:core|std)::io::cursor::Cursor::(?:into_inner|get_ref)")
def _uncursor(c):
    v = c.v(0)
    if v.op != "ctor":
        raise Unsup(c.path)
    return v.args[1][0]


@rx(r"image::io::reader::Reader::new")
def _reader(c):
    return T.ctor(READER, [c.v(0), T.none], 0)


@rx(r"image::io::reader::Reader::with_format")
def _reader2(c):
    return T.ctor(READER, [c.v(0), T.some(c.v(1))], 0)


def _content(c, v):
    if v.op != "ctor" or v.args[0] != READER:
        raise Unsup("reader")
    d = v.args[1][0]
    if d.op == "ctor" and d.args[0] == CURSOR:
        d = d.args[1][0]
    elif d.op == "ctor":
        raise Unsup("source of a reader")
    return d


@rx(r"image::io::reader::Reader::with_guessed_format")
def _guessed(c):
    v = c.v(0)
    g = T.app(GUESS, "Option", _content(c, v))
    return T.ok(T.ctor(READER, [v.args[1][0], T.ite(isopt(g), g, v.args[1][1])], 0))


@rx(r"image::io::reader::Reader::set_format")
def _setfmt(c):
    v = c.v(0)
    _content(c, v)
    c.set(0, T.ctor(READER, [v.args[1][0], T.some(c.v(1))], 0))
    return T.UNIT


@rx(r"image::io::reader::Reader::format")
def _getfmt(c):
    v = c.v(0)
    _content(c, v)
    return v.args[1][1]


@rx(r"image::io::reader::Reader::decode")
def _dec(c):
    v = c.v(0)
    d, f = _content(c, v), v.args[1][1]
    with T.under(c.st.facts):
        return T.renorm(T.ite(isopt(f), T.app(DECODE, "Result", d, T.fld(f, "Some", 0, "ImageFormat")), _err("format")))


@rx(r"image::io::free_functions::guess_format", r"image::guess_format")
def _gf(c):
    g = T.app(GUESS, "Option", c.v(0))
    return T.ite(isopt(g), T.ok(T.fld(g, "Some", 0, "ImageFormat")), _err("format"))


@rx(r"image::dynimage::load_from_memory", r"image::load_from_memory")
def _lfm(c):
    g = T.app(GUESS, "Option", c.v(0))
    return T.ite(isopt(g), T.app(DECODE, "Result", c.v(0), T.fld(g, "Some", 0, "ImageFormat")), _err("format"))


@rx(r"image::dynimage::load_from_memory_with_format", r"image::load_from_memory_with_format")
def _lfmf(c):
    return T.app(DECODE, "Result", c.v(0), c.v(1))


# ---------------------------------------------------------------- JavaScript values

@rx(r"js_sys::Uint8Array::to_vec", r"<wasm_bindgen::JsValue as core::convert::From>::from", r"<wasm_bindgen::JsValue as core::convert::AsRef>::as_ref",
    r"<js_sys::\w+ as core::convert::(?:AsRef|Into)>::(?:as_ref|into)", r"js_sys::Uint8Array::view", r"<js_sys::\w+ as core::ops::deref::Deref>::deref",
    r"wasm_bindgen::JsValue::from_f64")
def _same(c):
    return c.v(0)


@rx(r"js_sys::Uint8Array::(?:length|byte_length)", r"js_sys::Array::length")
def _jslen(c):
    return T.length(c.v(0))


@rx(r"js_sys::Uint8Array::new", r"<js_sys::Uint8Array as core::convert::From>::from")
def _u8array(c):
    s = c.v(0)
    if T._intish(s):
        k = T.fresh("k", "nat")
        return T.tab(s, T.lam(k, T.I(0)))
    k = T.fresh("k", "nat")
    with T.under(c.st.facts.plus(T.lt(k, T.length(s)))):
        x = T.at(s, k, "u8")
        return T.tab(T.length(s), T.lam(k, T.icast("u8", x)))


@rx(r"js_sys::Uint8Array::new_with_length")
def _u8zeros(c):
    k = T.fresh("k", "nat")
    return T.tab(c.v(0), T.lam(k, T.I(0)))


@rx(r"js_sys::Uint8Array::copy_from")
def _u8copy(c):
    d, s = c.v(0), c.v(1)
    if c.args[0].op != "mref" or not c.require(T.eq(T.length(d), T.length(s)), "lengths"):
        raise Unsup("copy into a shared array")
    c.set(0, s)
    return T.UNIT


@rx(r"core::iter::traits::iterator::Iterator::collect", r"<js_sys::Array as core::iter::traits::collect::FromIterator>::from_iter")
def _collect(c):
    if any(t["k"] == "adt" and ty_name(t) == "Array" and "js_sys" in t["path"] for t in c.ty[-1:]) or c.path.startswith("<js_sys"):
        return seqarg(c, c.args[0])
    from .models import _collect as old
    return old(c)


RX[:0] = _own
