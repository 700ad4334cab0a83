"""Text: characters, trimming, searching, cases.

A string is the sequence of its UTF-8 bytes, a character an integer.  Most operations stay
uninterpreted in normal forms and have their library meaning at constants.
"""
from . import interp as N
from . import terms as T
from .models import INTS, _cin, adapter, hexok, hexval, hexdigit, rx, seqarg, to_iter, ty_name
from .exec import Unsup, sort_of

CHARS, FROM = "str::chars", "str::from_chars"


# ---------------------------------------------------------------- meaning at constants

def text(v):
    try:
        return bytes(N.seqof(v).all()).decode("utf8")
    except (UnicodeDecodeError, ValueError):
        raise N.Stuck("no text")


def back(s):
    return N.Seq.of(list(s.encode("utf8")))


def _wrap(f):
    return lambda s, *a: back(f(text(s), *a))


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def _matcher(p):
    """how many characters of a pattern match at position i of s (None: no match)"""
    if callable(p):
        return lambda s, i: 1 if i < len(s) and p(ord(s[i])) else None
    q = text(p)
    return lambda s, i: len(q) if s.startswith(q, i) else None


def _trim_l(s, m):
    i = 0
    while i < len(s):
        k = m(s, i)
        if not k:
            break
        i += k
    return s[i:]


def _trim_r(s, p):
    if callable(p):
        while s and p(ord(s[-1])):
            s = s[:-1]
        return s
    q = text(p)
    while q and s.endswith(q):
        s = s[:-len(q)]
    return s


def _find(s, p):
    m = _matcher(p)
    for i in range(len(s) + 1):
        if m(s, i) is not None:
            return i
    return None


def _split(s, p):
    m = _matcher(p)
    out, cur, i = [], "", 0
    while i < len(s):
        k = m(s, i)
        if k:
            out.append(cur)
            cur = ""
            i += k
        else:
            cur += s[i]
            i += 1
    return out + [cur]


I = N.INTERP
I[CHARS] = lambda s: N.Seq.of([ord(c) for c in text(s)])
I[FROM] = lambda s: back("".join(chr(c) for c in N.seqof(s).all()))
I["str::trim"] = _wrap(lambda s: s.strip(WS))
I["str::trim_start"] = _wrap(lambda s: s.lstrip(WS))
I["str::trim_end"] = _wrap(lambda s: s.rstrip(WS))
I["str::trim_start_matches"] = lambda s, p: back(_trim_l(text(s), _matcher(p)))
I["str::trim_end_matches"] = lambda s, p: back(_trim_r(text(s), p))
I["str::trim_matches"] = lambda s, p: back(_trim_r(_trim_l(text(s), _matcher(p)), p))
I["str::to_lowercase"] = _wrap(str.lower)
I["str::to_uppercase"] = _wrap(str.upper)
I["str::contains"] = lambda s, p: _find(text(s), p) is not None
I["str::replace"] = lambda s, p, r: back(text(r).join(_split(text(s), p)))
I["str::split"] = lambda s, p: N.Seq.of([back(x) for x in _split(text(s), p)])
I["str::lines"] = lambda s: N.Seq.of([back(x[:-1] if x.endswith("\r") else x) for x in (text(s)[:-1] if text(s).endswith("\n") else text(s)).split("\n")] if text(s) else [])
I["str::split_whitespace"] = lambda s: N.Seq.of([back(x) for x in text(s).split()])
I["str::repeat"] = lambda s, n: back(text(s) * n)
I["str::find at"] = lambda s, p: (lambda i: len(text(s)[:i].encode()) if i is not None else -1)(_find(text(s), p))
I["str::strip_prefix at"] = lambda s, p: (lambda k: len(text(s)[:k].encode()) if k is not None else -1)(_matcher(p)(text(s), 0))
I["char::is_whitespace"] = lambda c: chr(c) in WS
I["char::is_alphabetic"] = lambda c: chr(c).isalpha()
I["char::is_numeric"] = lambda c: chr(c).isnumeric()
I["char::is_alphanumeric"] = lambda c: chr(c).isalpha() or chr(c).isnumeric()
I["char::is_uppercase"] = lambda c: chr(c).isupper()
I["char::is_lowercase"] = lambda c: chr(c).islower()
I["char::is_control"] = lambda c: c < 32 or 127 <= c < 160
I["utf8len"] = lambda c: len(chr(c).encode())


# ---------------------------------------------------------------- models

def pattern(c, k):
    """a search pattern: text, or a predicate on characters"""
    p = c.args[k]
    if p.op in ("fnv", "clo"):
        x = T.fresh("c", "u32")
        v, s = c.E.call(c.fr, c.st, p, [x], c.span)
        if v is None or s.cells != c.st.cells:
            raise Unsup("pattern with effects")
        return T.lam(x, v)
    p = c.v(k)
    if p.op in ("fnv", "clo"):
        raise Unsup("pattern behind a reference")
    if T._intish(p):
        x = T.fresh("c", "u32")
        return T.lam(x, T.eq(x, p))
    if p.op == "sym" and not str(p.args[1]).startswith("seq"):
        raise Unsup("pattern")
    return p


@rx(r"(?:core::)?str::chars")
def _chars(c):
    return T.app(CHARS, "seq:u32", c.v(0))


@rx(r"(?:core::)?str::(trim|trim_start|trim_end|to_lowercase|to_uppercase)")
def _trims(c, w):
    return T.app("str::" + w, "seq:u8", c.v(0))


@rx(r"(?:core::)?str::(trim_matches|trim_start_matches|trim_end_matches)")
def _trimm(c, w):
    return T.app("str::" + w, "seq:u8", c.v(0), pattern(c, 1))


@rx(r"(?:core::)?str::contains")
def _contains(c):
    return T.app("str::contains", "bool", c.v(0), pattern(c, 1))


@rx(r"(?:core::)?str::find")
def _find_m(c):
    f = T.app("str::find at", "int", c.v(0), pattern(c, 1))
    return T.ite(T.lt(f, T.I(0)), T.none, T.some(f))


@rx(r"(?:core::)?str::strip_prefix")
def _strip(c):
    s = c.v(0)
    f = T.app("str::strip_prefix at", "int", s, pattern(c, 1))
    return T.ite(T.lt(f, T.I(0)), T.none, T.some(T.slc(s, f, T.length(s))))


@rx(r"(?:core::|alloc::)?str::replace")
def _replace(c):
    return T.app("str::replace", "seq:u8", c.v(0), pattern(c, 1), c.v(2))


@rx(r"(?:core::)?str::split")
def _split_m(c):
    return T.app("str::split", "seq:seq:u8", c.v(0), pattern(c, 1))


@rx(r"(?:core::)?str::(lines|split_whitespace)")
def _lines(c, w):
    return T.app("str::" + w, "seq:seq:u8", c.v(0))


@rx(r"(?:core::|alloc::)?str::repeat")
def _repeat(c):
    return T.app("str::repeat", "seq:u8", c.v(0), c.v(1))


@rx(r"char::(?:methods::)?(is_whitespace|is_alphabetic|is_numeric|is_alphanumeric|is_uppercase|is_lowercase|is_control)", )
def _is(c, w):
    return T.app("char::" + w, "bool", c.v(0))


ASCII = {
    "hexdigit": hexok,
    "digit": lambda x: _cin(x, "0", "9"),
    "lowercase": lambda x: _cin(x, "a", "z"),
    "uppercase": lambda x: _cin(x, "A", "Z"),
    "alphabetic": lambda x: T.bor(_cin(x, "a", "z"), _cin(x, "A", "Z")),
    "alphanumeric": lambda x: T.bor(_cin(x, "a", "z"), _cin(x, "A", "Z"), _cin(x, "0", "9")),
    "whitespace": lambda x: T.bor(*[T.eq(x, T.I(k)) for k in (9, 10, 12, 13, 32)]),
    "graphic": lambda x: _cin(x, "!", "~"),
    "control": lambda x: T.bor(T.lt(x, T.I(32)), T.eq(x, T.I(127))),
    "punctuation": lambda x: T.bor(_cin(x, "!", "/"), _cin(x, ":", "@"), _cin(x, "[", "`"), _cin(x, "{", "~")),
}


@rx(r"(?:char|u8)::(?:methods::)?is_ascii_(%s)" % "|".join(ASCII), r"core::num::is_ascii_(%s)" % "|".join(ASCII))
def _isascii(c, w):
    return ASCII[w](c.v(0))


@rx(r"(?:char|u8)::(?:methods::)?is_ascii")
def _isascii0(c):
    return T.lt(c.v(0), T.I(128))


@rx(r"(?:(?:core::)?str|slice)::is_ascii")
def _isascii_s(c):
    s = c.v(0)
    k = T.fresh("k", "nat")
    n = T.length(s)
    return T.eq(T.first(n, T.lam(k, T.lt(T.I(127), T.at(s, k, "u8")))), n)


def _low(x):
    return T.ite(_cin(x, "A", "Z"), T.add(x, T.I(32)), x)


def _up(x):
    return T.ite(_cin(x, "a", "z"), T.sub(x, T.I(32)), x)


@rx(r"(?:char|u8|(?:core::|alloc::)?str|slice|<\[u8\]>)::(?:methods::)?(to|make)_ascii_(lowercase|uppercase)")
def _case(c, w, d):
    f = _low if d == "lowercase" else _up
    x = c.v(0)
    if c.path.startswith(("char", "u8")):
        r = f(x)
    else:
        k = T.fresh("k", "nat")
        r = T.tab(T.length(x), T.lam(k, f(T.at(x, k, "u8"))))
    if w == "make":
        c.set(0, r)
        return T.UNIT
    return r


@rx(r"(?:char|u8|(?:core::)?str|slice)::(?:methods::)?eq_ignore_ascii_case")
def _eqic(c):
    a, b = c.v(0), c.v(1)
    if c.path.startswith(("char", "u8")):
        return T.eq(_low(a), _low(b))
    k = T.fresh("k", "nat")
    g = lambda x: T.tab(T.length(x), T.lam(k, _low(T.at(x, k, "u8"))))
    return T.eq(g(a), g(b))


@rx(r"char::(?:methods::)?(to_digit|is_digit)")
def _to_digit(c, w):
    x, r = c.v(0), c.v(1)
    if not T.is_int(r):
        raise Unsup("radix")
    r = r.args[0]
    if r == 16:
        ok, v = hexok(x), hexval(x)
    elif r <= 10:
        ok, v = T.band(T.le(T.I(48), x), T.lt(x, T.I(48 + r))), T.sub(x, T.I(48))
    else:
        raise Unsup("radix")
    return ok if w == "is_digit" else T.ite(ok, T.some(v), T.none)


@rx(r"(?:core::char::(?:convert::)?from_digit|char::(?:methods::)?from_digit)")
def _from_digit(c):
    n, r = c.v(0), c.v(1)
    if not T.is_int(r) or not 2 <= r.args[0] <= 16:
        raise Unsup("radix")
    return T.ite(T.lt(n, r), T.some(hexdigit(n)), T.none)


@rx(r"(?:core::char::(?:convert::)?from_u32|char::(?:methods::)?from_u32)")
def _from_u32(c):
    n = c.v(0)
    ok = T.bor(T.lt(n, T.I(0xd800)), T.band(T.le(T.I(0xe000), n), T.le(n, T.I(0x10ffff))))
    return T.ite(ok, T.some(n), T.none)


@rx(r"char::(?:methods::)?len_utf8")
def _len_utf8(c):
    return utf8len(c.v(0))


def utf8len(x):
    return T.ite(T.lt(x, T.I(0x80)), T.I(1), T.ite(T.lt(x, T.I(0x800)), T.I(2), T.ite(T.lt(x, T.I(0x10000)), T.I(3), T.I(4))))


def of_chars(s):
    """the text made of a sequence of characters"""
    k = T.fresh("k", "nat")
    with T.under(T.cur().plus(T.lt(k, T.length(s)))):
        x = T.renorm(T.at(s, k, "u32"))
        ascii = T.prove_ge0(T.sub(T.I(127), x)) if T._intish(x) else False
    if ascii:
        return s
    if s.op == "app" and s.args[0] == CHARS:
        return s.args[2][0]
    return T.app(FROM, "seq:u8", s)
