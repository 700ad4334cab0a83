"""Models of files, paths and command-line options.

A path is the sequence of its UTF-8 bytes (the tool takes paths from texts).  What changes the file
system is recorded as an event of the path it happens on; reading is a function of the path.
"""
import os
import re

from . import images as G
from . import interp as N
from . import terms as T
from . import webio as W
from .exec import Unsup
from .models import RX, isok, isopt, it, short, ty_name

CONTENT, CANON, CREATED, STEM, SUFFIX, NAME, PARENT, JOIN = ("fs:content", "fs:canonicalize", "fs:created", "path:stem", "path:extension", "path:name", "path:parent", "path:join")
PARSE, OPT, PRESENT = "getopts:parse", "getopts:opt_str", "getopts:present"
ARGV = T.sym("argv", "seq:seq:u8")
CREATE, ENCODE, MKDIR, OTHER = "create", "encode", "mkdir", "other"
FILE, OPENOPT, OPTIONS = "std::fs::File", "std::fs::OpenOptions", "getopts::Options"

_own = []


def rx(*pats):
    def d(f):
        for p in pats:
            _own.append((re.compile("^(?:" + p + ")$"), f))
        return f
    return d


# ---------------------------------------------------------------- meaning at constants

def txt(v):
    return W.octets(v).decode("utf8", "surrogateescape")


def back(s):
    return N.Seq.of(list(s.encode("utf8", "surrogateescape")))


def opt(s):
    return W.NONE if s is None else W.SOME(back(s))


def file_name(p):
    """last component as the standard library sees it"""
    parts = [x for k, x in enumerate(p.split("/")) if x and not (x == "." and (k or p.startswith("/")))]
    if not parts or parts[-1] in ("..", "."):
        return None
    return parts[-1]


def stem_ext(n):
    if n is None:
        return None, None
    k = n.rfind(".")
    if k <= 0:
        return n, None
    return n[:k], n[k + 1:]


def parent(p):
    q = p.rstrip("/")
    if not q:
        return None
    k = q.rfind("/")
    return (q[:k].rstrip("/") or "/") if k >= 0 else ""


def join(a, b):
    return b if b.startswith("/") or not a else a + b if a.endswith("/") else a + "/" + b


def absolute(p):
    """the place a path means, in a file system without links"""
    return os.path.normpath(os.path.join("/cwd", p))


I = N.INTERP
I[STEM] = lambda p: opt(stem_ext(file_name(txt(p)))[0])
I[SUFFIX] = lambda p: opt(stem_ext(file_name(txt(p)))[1])
I[NAME] = lambda p: opt(file_name(txt(p)))
I[PARENT] = lambda p: opt(parent(txt(p)))
I[JOIN] = lambda a, b: back(join(txt(a), txt(b)))
I[CANON] = lambda p: W.OK(back(absolute(txt(p))))
I[CREATED] = lambda p: W.OK(N.Ctor(FILE, [p], 0))
I["fs:mkdir"] = lambda p: W.OK(None)
I["fs:encoded"] = lambda *a: W.OK(None)
I["fs:is_dir"] = lambda p: txt(p).rstrip("/").endswith("out") or txt(p) in (".", "/", "..")
I["fs:exists"] = lambda p: I["fs:is_dir"](p) or N.digest(p)[0] % 2 == 0
I["fs:is_file"] = lambda p: not I["fs:is_dir"](p) and I["fs:exists"](p)


def _magic(p):
    e = W._ext(stem_ext(file_name(txt(p)) or "")[1] and back(stem_ext(file_name(txt(p)))[1]) or back(""))
    m = next((m for m, f in W.MAGIC if e.vidx == 1 and short(e.fs[0].name) == f), b"")
    return N.Seq.of(list(m + N.digest(b"content", p)))


I[CONTENT] = _magic


def _parse(decls, args):
    """short options with or without an argument, as the library reads them"""
    d = {}
    for x in N.seqof(decls).all():
        s, l, kind = txt(x.fs[0]), txt(x.fs[1]), x.fs[2]
        for n in (s, l):
            if n:
                d[n] = (s or l, kind, {s, l} - {""})
    vals, free = {}, []
    a = [txt(x) for x in N.seqof(args).all()]
    while a:
        x = a.pop(0)
        if x == "--":
            free += a
            break
        if x.startswith("--") or not x.startswith("-") or x == "-":
            if not x.startswith("--"):
                free.append(x)
                continue
            n, _, v = x[2:].partition("=")
            if n not in d or len(n) < 2:
                return W.ERR(N.Tok(b"getopts", "Fail"))
            v = v if "=" in x else None
            if d[n][1] == 0:
                if v is not None:
                    return W.ERR(N.Tok(b"getopts", "Fail"))
                vals.setdefault(d[n][0], []).append(None)
                continue
        else:
            n, v = x[1], x[2:] or None
            if n not in d:
                return W.ERR(N.Tok(b"getopts", "Fail"))
            if d[n][1] == 0:
                vals.setdefault(d[n][0], []).append(None)
                if v:
                    a.insert(0, "-" + v)
                continue
        if v is None:
            if not a:
                return W.ERR(N.Tok(b"getopts", "Fail"))
            v = a.pop(0)
        vals.setdefault(d[n][0], []).append(v)
    if any(len(v) > 1 for v in vals.values()):
        return W.ERR(N.Tok(b"getopts", "Fail"))
    m = N.Ctor("getopts::Matches", [None, None, N.Seq.of([back(x) for x in free]), None], 0)
    m.fs[0] = N.Tok(N.digest(decls), "opts")
    m.fs[1] = N.Seq.of([N.Ctor("()", [back(k), opt(v[0])], 0) for k, v in vals.items()])
    m.fs[3] = N.Seq.of([back(n) for k in vals for n in d[k][2]])
    m.fs.append(N.Seq.of([N.Ctor("()", [back(n), N.Seq.of([back(z) for z in d[n][2]])], 0) for n in d]))
    return W.OK(m)


def _canonical(m, n):
    for x in N.seqof(m.fs[4]).all():
        if txt(x.fs[0]) == n:
            return {txt(z) for z in N.seqof(x.fs[1]).all()}
    raise N.Undef("undeclared option")


def _opt_str(m, n):
    names = _canonical(m, txt(n))
    for x in N.seqof(m.fs[1]).all():
        if txt(x.fs[0]) in names:
            return x.fs[1]
    return W.NONE


def _present(m, n):
    names = _canonical(m, txt(n))
    return any(txt(x.fs[0]) in names for x in N.seqof(m.fs[1]).all())


I[PARSE] = _parse
I[OPT] = _opt_str
I[PRESENT] = _present
I["getopts:usage"] = lambda *a: N.Seq.of([])


# ---------------------------------------------------------------- paths

@rx(r"std::path::Path::(?:new|as_os_str|to_path_buf|to_string_lossy|display|as_path|into_os_string|as_mut_os_str)", r"std::path::PathBuf::(?:as_path|into_os_string|as_os_str|from)",
    r"std::ffi::os_str::(?:OsStr|OsString)::(?:to_os_string|to_string_lossy|as_os_str|new|from|display)", r"<std::(?:path|ffi)::.* as core::(?:ops::deref::Deref|convert::AsRef|borrow::Borrow)>::\w+",
    r"<std::(?:path::PathBuf|ffi::os_str::OsString) as core::(?:convert::From|str::traits::FromStr)>::from", r"<(?:str|alloc::string::String) as core::convert::AsRef>::as_ref")
def _same(c):
    return c.v(0)


@rx(r"std::(?:path::Path|ffi::os_str::OsStr)::to_str")
def _to_str(c):
    return T.some(c.v(0))


@rx(r"std::(?:path::PathBuf|ffi::os_str::OsString)::(?:into_string)")
def _into_string(c):
    return T.ok(c.v(0))


@rx(r"std::path::Path::(file_stem|extension|file_name|parent)")
def _part(c, w):
    return T.app({"file_stem": STEM, "extension": SUFFIX, "file_name": NAME, "parent": PARENT}[w], "Option", c.v(0))


@rx(r"std::path::Path::join")
def _join(c):
    return T.app(JOIN, "seq:u8", c.v(0), c.v(1))


@rx(r"std::path::PathBuf::push")
def _push(c):
    c.set(0, T.app(JOIN, "seq:u8", c.v(0), c.v(1)))
    return T.UNIT


@rx(r"std::path::PathBuf::new")
def _pnew(c):
    return T.EMPTY


I["path:with name"] = lambda p, n: back(join(parent(txt(p)) if parent(txt(p)) is not None else txt(p), txt(n)))


def _with_ext(p, e):
    p, e = txt(p), txt(e)
    n = file_name(p)
    if n is None:
        return back(p)
    s = stem_ext(n)[0]
    return back(join(parent(p) or "", s + ("." + e if e else "")))


I["path:with extension"] = _with_ext


@rx(r"std::path::Path::with_(file_name|extension)")
def _with(c, w):
    return T.app("path:with name" if w == "file_name" else "path:with extension", "seq:u8", c.v(0), c.v(1))


@rx(r"std::path::PathBuf::set_(file_name|extension)")
def _set(c, w):
    c.set(0, T.app("path:with name" if w == "file_name" else "path:with extension", "seq:u8", c.v(0), c.v(1)))
    return T.UNIT if w == "file_name" else T.TRUE


I["path:is_absolute"] = lambda p: txt(p).startswith("/")


@rx(r"std::path::Path::(is_absolute|is_relative)")
def _isabs(c, w):
    a = T.app("path:is_absolute", "bool", c.v(0))
    return a if w == "is_absolute" else T.bnot(a)


@rx(r"std::path::Path::(is_dir|exists|is_file)")
def _probe(c, w):
    return T.app("fs:" + w, "bool", c.v(0))


@rx(r"std::path::Path::canonicalize", r"std::fs::canonicalize")
def _canon(c):
    return T.app(CANON, "Result", c.v(0))


# ---------------------------------------------------------------- files

def created(c, p):
    c.E.event(c.st, CREATE, [p], c.span)
    return T.app(CREATED, "Result", p)


def encoded(c, image, file, f):
    c.E.event(c.st, ENCODE, [image, file, f], c.span)
    return T.app("fs:encoded", "Result", image, file, f)


@rx(r"std::fs::create_dir(?:_all)?")
def _mkdir(c):
    c.E.event(c.st, MKDIR, [c.v(0)], c.span)
    return T.app("fs:mkdir", "Result", c.v(0))


@rx(r"std::fs::File::(?:create|create_new)")
def _create(c):
    return created(c, c.v(0))


@rx(r"std::fs::File::open")
def _fopen(c):
    p = c.v(0)
    return T.app("fs:opened", "Result", p)


I["fs:opened"] = lambda p: W.OK(N.Ctor("fs:read", [p], 0))


@rx(r"std::fs::(?:OpenOptions::new|File::options)")
def _oo(c):
    return T.ctor(OPENOPT, [T.FALSE], 0)


@rx(r"std::fs::OpenOptions::(read|write|append|truncate|create|create_new)")
def _oof(c, w):
    v = c.v(0)
    if w in ("write", "append"):
        v = T.ctor(OPENOPT, [T.bor(v.args[1][0], c.v(1))], 0)
        c.set(0, v)
    return c.args[0]


@rx(r"std::fs::OpenOptions::open")
def _oopen(c):
    w = c.v(0).args[1][0]
    if w is T.TRUE:
        return created(c, c.v(1))
    if w is T.FALSE:
        return T.app("fs:opened", "Result", c.v(1))
    raise Unsup("mode of opening")


@rx(r"std::fs::(read|read_to_string)")
def _fread(c, w):
    return T.ok(T.app(CONTENT, "seq:u8", c.v(0)))


@rx(r"std::fs::(write|copy|rename|remove_file|remove_dir|remove_dir_all|hard_link|set_permissions)", r"std::os::unix::fs::(symlink)")
def _other(c, w, w2=None):
    w = w or w2
    ps = [c.v(0)] if w in ("write", "remove_file", "remove_dir", "remove_dir_all", "set_permissions") else [c.v(1)] if w == "copy" else [c.v(0), c.v(1)]
    for p in ps:
        c.E.event(c.st, OTHER, [T.S(w), p], c.span)
    return T.app("fs:" + w, "Result", *[c.v(k) for k in range(len(c.args))])


for _w in ("write", "copy", "rename", "remove_file", "remove_dir", "remove_dir_all", "hard_link", "set_permissions", "symlink"):
    I["fs:" + _w] = lambda *a: W.OK(None)


@rx(r"std::fs::File::set_len", r"std::fs::File::(?:sync_all|sync_data)", r"std::io::Write::flush", r"<std::.* as std::io::Write>::flush")
def _sync(c):
    if c.path.endswith("set_len"):
        raise Unsup(c.path)
    return T.ok(T.UNIT)


@rx(r"std::io::buffered::(?:bufwriter::BufWriter|bufreader::BufReader)::(?:new|with_capacity)", r"std::io::(?:BufWriter|BufReader)::(?:new|with_capacity)")
def _buf(c):
    return c.v(len(c.args) - 1)


# ---------------------------------------------------------------- images in files

def _from_ext(p):
    """format a path names: Option"""
    e = T.app(SUFFIX, "Option", p)
    f = T.app(W.EXT, "Option", T.fld(e, "Some", 0, "seq:u8"))
    return T.ite(isopt(e), f, T.none)


def _result(o, what):
    return T.ite(isopt(o), T.ok(T.fld(o, "Some", 0, "ImageFormat")), W._err(what))


@rx(r"image::dynimage::open", r"image::open")
def _open(c):
    p = c.v(0)
    f = _from_ext(p)
    with T.under(c.st.facts):
        return T.renorm(T.ite(isopt(f), T.app(W.DECODE, "Result", T.app(CONTENT, "seq:u8", p), T.fld(f, "Some", 0, "ImageFormat")), W._err("format")))


@rx(r"image::io::reader::Reader::open")
def _ropen(c):
    p = c.v(0)
    return T.ok(T.ctor(W.READER, [T.app(CONTENT, "seq:u8", p), _from_ext(p)], 0))


@rx(r"image::image::ImageFormat::from_path")
def _fpath(c):
    return _result(_from_ext(c.v(0)), "format")


@rx(r"image::image::ImageFormat::from_extension")
def _fext(c):
    return T.app(W.EXT, "Option", c.v(0))


@rx(r"<image::(?:io::free_functions|image)::ImageOutputFormat as core::convert::From>::from", r"<image::\w+::ImageOutputFormat as core::convert::From>::from")
def _outfmt(c):
    return c.v(0)


@rx(r"image::dynimage::DynamicImage::write_to")
def _write_to(c):
    return encoded(c, c.v(0), c.v(1), c.v(2))


@rx(r"image::dynimage::DynamicImage::save")
def _save(c):
    p = c.v(1)
    f = _from_ext(p)
    created(c, p)
    return encoded(c, c.v(0), T.fld(T.app(CREATED, "Result", p), "Ok", 0), T.fld(f, "Some", 0, "ImageFormat"))


@rx(r"image::dynimage::DynamicImage::save_with_format")
def _savef(c):
    p = c.v(1)
    created(c, p)
    return encoded(c, c.v(0), T.fld(T.app(CREATED, "Result", p), "Ok", 0), c.v(2))


# ---------------------------------------------------------------- command line

@rx(r"std::env::args")
def _args(c):
    return it(ARGV)


@rx(r"getopts::Options::new")
def _gnew(c):
    return T.ctor(OPTIONS, [T.lst()], 0)


@rx(r"getopts::Options::(optopt|optflag|reqopt)")
def _gopt(c, w):
    v = c.v(0)
    d = T.ctor("getopts::decl", [c.v(1), c.v(2), T.I(0 if w == "optflag" else 1)], 0)
    if w == "reqopt" or v.op != "ctor":
        raise Unsup(c.path)
    c.set(0, T.ctor(OPTIONS, [T.cat(v.args[1][0], T.lst(d))], 0))
    return c.args[0]


@rx(r"getopts::Options::parse")
def _gparse(c):
    v = c.v(0)
    if v.op != "ctor":
        raise Unsup(c.path)
    a = c.v(1)
    if a.op == "ctor" and a.args[0] == "It":
        a = T.slc(a.args[1][0], a.args[1][1], T.length(a.args[1][0]))
    return T.app(PARSE, "Result", v.args[1][0], a)


@rx(r"getopts::Matches::opt_str")
def _gstr(c):
    return T.app(OPT, "Option", c.v(0), c.v(1))


@rx(r"getopts::Matches::opt_present")
def _gpres(c):
    return T.app(PRESENT, "bool", c.v(0), c.v(1))


@rx(r"getopts::Matches::(?:opts_present|opts_str|free)")
def _gother(c):
    raise Unsup(c.path)


@rx(r"getopts::Options::(?:usage|short_usage)")
def _usage(c):
    return T.app("getopts:usage", "seq:u8", c.v(0))


@rx(r"<getopts::Fail as alloc::string::ToString>::to_string", r"std::time::Instant::(?:now|elapsed)")
def _neutral(c):
    return T.app("env:" + c.path, "?", *[c.v(k) for k in range(len(c.args))])


RX[:0] = _own
