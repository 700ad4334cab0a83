"""C17-C20: containers and codecs, decided on composed value graphs (write, then read back)."""
from .. import terms as T
from .. import oblig as O
from .. import models as M

ALL_BYTES = list(range(256))


def c19(ctx):
    ctx.rule("value graph of from_bytes composed with to_bytes equals its argument, for a symbolic vector of any length")
    for ty, n in (("u16", 2), ("i64", 8)):
        to, fr = "utils::bytes::vec_%s_to_bytes" % ty, "utils::bytes::vec_%s_from_bytes" % ty
        if not (ctx.anchor(to) and ctx.anchor(fr)):
            continue
        x = T.sym("x", "seq:" + ty)
        r = O.rnd("c19" + ty)
        vals = [{"x": O.seq(O.ints(r, ty, k))} for k in (0, 1, 2, 3, 5, 8, 13, 64)]

        def mk():
            p = O.Prog(ctx)
            return p, p.call(fr, p.call(to, x))
        O.decide(ctx, "round-trip:" + ty, "reading back the bytes of a vector of %s gives the vector" % ty, mk, x, vals, where=to + " / " + fr)

        def mk2():
            p = O.Prog(ctx)
            return p, T.length(p.call(to, x))
        O.decide(ctx, "bytes-per-integer:" + ty, "a vector of n %s takes %d n bytes" % (ty, n), mk2, T.mul(T.I(n), T.length(x)), vals, where=to)
        # and the other way: whole groups of bytes survive
        m = T.sym("m" + ty, "nat")
        b = T.sym("b" + ty, "seq:u8")
        T.SYMLEN[b] = T.mul(T.I(n), m)

        def mk3():
            p = O.Prog(ctx)
            return p, p.call(to, p.call(fr, b))
        O.decide(ctx, "round-trip-bytes:" + ty, "writing back the integers read from %dm bytes gives the bytes" % n, mk3, b,
                 [{"b" + ty: O.seq([r.randint(0, 255) for _ in range(n * k)]), "m" + ty: k} for k in (0, 1, 2, 5)], where=to + " / " + fr)


def _badhex(x):
    i = T.fresh("i", "nat")
    d = [M.hexok(T.at(x, T.add(T.scale(i, 2), T.I(k)), "u8")) for k in (0, 1)]
    return T.lam(i, T.bnot(T.band(*d)))


def c20(ctx):
    enc, dec = "utils::format::encode_hex", "utils::format::decode_hex"
    if not (ctx.anchor(enc) and ctx.anchor(dec)):
        return
    ctx.rule("value graph of decode_hex composed with encode_hex is Ok of its argument; encode_hex yields two digits per byte")
    x = T.sym("x", "seq:u8")
    r = O.rnd("c20")
    vals = [{"x": O.seq(ALL_BYTES)}] + [{"x": O.seq([b])} for b in ALL_BYTES] + [{"x": O.seq([])}, {"x": O.seq([r.randint(0, 255) for _ in range(33)])}]

    def mk():
        p = O.Prog(ctx)
        return p, p.call(dec, p.call(enc, x))
    O.decide(ctx, "round-trip:hex", "decoding the hex text of bytes gives the bytes", mk, T.ok(x), vals, allowed=("ParseIntError",), where=enc + " / " + dec)

    def mk2():
        p = O.Prog(ctx)
        return p, T.length(p.call(enc, x))
    O.decide(ctx, "two-digits", "n bytes give 2n characters", mk2, T.mul(T.I(2), T.length(x)), vals, where=enc)
    # text that is no hex text
    m = T.sym("m", "nat")
    t = T.sym("t", "seq:u8")
    T.SYMLEN[t] = T.mul(T.I(2), m)

    def mk3():
        p = O.Prog(ctx)
        return p, T.eq0(T.sub(T.discr(p.call(dec, t)), T.I(1)))
    good = [ord(c) for c in "0123456789abcdefABCDEF"]
    tv = []
    for b in range(128):
        for pos in range(4):
            s = [r.choice(good) for _ in range(4)]
            s[pos] = b
            tv.append({"t": O.seq(s), "m": 2})
        for k in range(1, 3):
            for s in ([b] * 2 * k + [97, 98], [48, 57] + [b] * 2 * k, [65, 48, b, b, 102, 49], [b] * 2 * k):
                tv.append({"t": O.seq(s), "m": len(s) // 2})
    O.decide(ctx, "non-hex-refused", "ASCII text of even length yields an error exactly when it has a non-hex digit", mk3,
             T.bnot(T.eq0(T.sub(m, T.first(m, _badhex(t))))), tv, where=dec)


NEW_W = "watermarking::watermark::Watermark::new"
SER_W = "watermarking::watermark::Watermark::serialize"
DES_W = "watermarking::watermark::deserialize"
NEW_D = "embedding::io::data::Data::new"
SER_D = "embedding::io::data::Data::serialize"
DES_D = "embedding::io::data::deserialize"


def _anchors(ctx, *names):
    return all([ctx.anchor(n) is not None for n in names])


def _text(r, n):
    """the bytes of a text, of every number of bytes per character in turn"""
    out = []
    while len(out) < n:
        out += r.choice(["a", "Z", "7", " ", "\u00e9", "\u20ac", "\U0001f600"][:7 if len(out) + 4 <= n else 4]).encode()
    return out


def _wvals(seed, sizes):
    r = O.rnd(seed)
    out = []
    for p, s, t, x in sizes:
        bits = [bool(r.getrandbits(1)) for _ in range(p)]
        out.append({"p": O.seq(bits), "s": O.seq([r.randint(0, 255) for _ in range(s)]),
                    "t": O.seq(_text(r, t)), "more": O.seq([r.randint(0, 255) for _ in range(x)])})
    for k, t in enumerate(AWKWARD):
        out.append({"p": O.seq([bool(r.getrandbits(1)) for _ in range(k)]), "s": O.seq([r.randint(0, 255) for _ in range(3)]),
                    "t": O.seq(t.encode()), "more": O.seq([])})
    return out


# texts that a text is easily taken for something else by: blanks and ends, line ends, marks, cases, escapes, numbers
AWKWARD = ["\0", "a\0", "\0a", "a\0\0b\0", " a", "a ", "\ta\t", "a\n", "a\r\n", "\n\r\na", "\ufeffa", "a\u200b", "\u00a0a\u00a0", "A\u00df\u0130",
           "e\u0301", "\u00e9", "\"a\"", "'a'", "a\\n", "%41", "+1", "007", "-0", "\x7f", "\x1b[0m", "a,b", "a b  c", "\ufffd", "\U0010ffff", "\u0085",
           "\u2028a\u2029", "//", "[1]", "{}", "null", "\x80\x81"]


WSIZES = [(12, 4, 12, 0), (255, 255, 255, 0), (0, 0, 0, 0), (1, 0, 0, 5), (7, 1, 1, 3), (8, 2, 3, 9), (9, 64, 2, 1), (16, 3, 0, 300),
          (17, 0, 255, 2), (254, 64, 32, 1), (129, 130, 131, 7), (128, 127, 200, 0), (63, 65, 66, 3), (240, 64, 10, 600)]
WBIG = [(256, 3, 4, 0), (3, 256, 4, 0), (3, 4, 256, 0), (257, 3, 4, 0), (300, 300, 300, 0), (4, 511, 2, 0), (2, 5, 512, 1), (512, 2, 2, 0)]


def _w(ctx):
    p, s, t, more = T.sym("p", "seq:bool"), T.sym("s", "seq:u8"), T.sym("t", "seq:u8"), T.sym("more", "seq:u8")
    return p, s, t, more


def c17(ctx):
    if not _anchors(ctx, NEW_W, SER_W, DES_W):
        return
    ctx.rule("value graph of deserialize . (append anything) . serialize . new equals the container built by new")
    p, s, t, more = _w(ctx)
    pre = [T.le(T.length(x), T.I(255)) for x in (p, s, t)] + [T.app("utf8ok", "bool", t)]
    vals = _wvals("c17", WSIZES)

    def mk():
        pr = O.Prog(ctx, facts=pre)
        w = pr.call(NEW_W, p, s, t)
        b = pr.call(SER_W, w)
        return pr, pr.call(DES_W, T.cat(b, more))
    pr0 = O.Prog(ctx)
    try:
        w0 = pr0.call(NEW_W, p, s, t)
    except Exception:
        w0 = None
    if w0 is None or w0.op != "ctor":
        ctx.undecided("container", "the container is not a plain structure")
        return
    for k, name, x in ((0, "perturbation bits", p), (1, "signature", s), (2, "text", t)):
        idx = [j for j, f in enumerate(w0.args[1]) if f is x]
        if not idx:
            ctx.undecided("keep:" + name, "Watermark::new does not keep the %s as given" % name)
            continue
        O.decide(ctx, "round-trip:" + name, "the %s read back from a serialised watermark (and anything after it) are those written" % name,
                 lambda idx=idx: (lambda q: (q[0], T.fld(q[1], None, idx[0]) if q[1] is not None else None))(mk()), x, vals, pre=pre,
                 where=SER_W + " / " + DES_W)
    # the conversion of the bits on their own, for any number of bits
    a, f = "three_bit_quantization::perturbation_vector_as_bytes", "three_bit_quantization::perturbation_vector_from_bytes"
    if _anchors(ctx, a, f):
        r = O.rnd("c17b")
        bv = [{"p": O.seq([bool(r.getrandbits(1)) for _ in range(n)])} for n in (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 64, 255, 256, 300)]

        def mkb():
            pr = O.Prog(ctx)
            return pr, pr.call(f, pr.call(a, p), T.length(p))
        O.decide(ctx, "bits", "perturbation bits survive the conversion to bytes and back for every bit count", mkb, p, bv, where=a + " / " + f)


def c18(ctx):
    if not _anchors(ctx, NEW_D, SER_D, DES_D):
        return
    ctx.rule("value graph of deserialize . (append anything) . serialize . new gives the payload")
    x, more = T.sym("x", "seq:u8"), T.sym("more", "seq:u8")
    n = T.length(x)
    pre = [T.le(T.I(1), n), T.le(n, T.I(65535))]
    r = O.rnd("c18")
    vals = [{"x": O.seq([r.randint(0, 255) for _ in range(k)]), "more": O.seq([r.randint(0, 255) for _ in range(e)])}
            for k, e in ((1, 0), (2, 0), (1, 7), (3, 1), (100, 50), (255, 3), (256, 3), (257, 0), (511, 9), (600, 0), (4096, 2), (65535, 0), (65535, 5), (32768, 4), (32767, 1))]

    def mk():
        pr = O.Prog(ctx, facts=pre)
        d = pr.call(DES_D, T.cat(pr.call(SER_D, pr.call(NEW_D, x)), more))
        return pr, T.fld(d, None, 0) if d is not None else None
    O.decide(ctx, "round-trip:data", "the bytes read back from a serialised data container (and anything after it) are those written", mk, x, vals, pre=pre,
             where=SER_D + " / " + DES_D)


def c09(ctx):
    ctx.rule("panic edges of the writers are taken exactly when a length does not fit its field; the length read back equals the length written")
    if _anchors(ctx, NEW_W, SER_W):
        p, s, t, more = _w(ctx)
        fit = T.band(*[T.le(T.length(x), T.I(255)) for x in (p, s, t)])
        vals = _wvals("c09", WBIG + WSIZES)

        def mk():
            pr = O.Prog(ctx)
            b = pr.call(SER_W, pr.call(NEW_W, p, s, t))
            return pr, T.lst(*[T.at(b, T.I(k), "u8") for k in range(3)]) if b is not None else None
        O.decide(ctx, "watermark-container", "the three one-byte fields hold the true lengths, and exactly lengths above 255 are refused", mk,
                 T.lst(*[T.length(x) for x in (p, s, t)]), vals, must=T.bnot(fit), where=SER_W)
    x = T.sym("x", "seq:u8")
    n = T.length(x)
    r = O.rnd("c09")
    sizes = [65535, 65536, 1, 255, 256, 65534, 65537, 65791, 131072, 65536 + 256]
    big = [{"x": O.lazy(k, lambda i: (i * 7 + 3) % 256), "cap": 0} for k in sizes]
    if _anchors(ctx, NEW_D, SER_D):
        def mkd():
            pr = O.Prog(ctx)
            b = pr.call(SER_D, pr.call(NEW_D, x))
            return pr, T.add(T.at(b, T.I(0), "u8"), T.mul(T.I(256), T.at(b, T.I(1), "u8"))) if b is not None else None
        O.decide(ctx, "data-container", "the two-byte field holds the true length, and exactly lengths above 65535 are refused", mkd,
                 n, big, pre=[T.le(T.I(1), n)], must=T.lt(T.I(65535), n), where=SER_D)
    enc = "encoding::encode"
    if _anchors(ctx, enc):
        cap = T.sym("cap", "usize")
        for c in (0, 16, 64, 600):
            vals = [dict(v, cap=c) for v in big]

            def mke():
                pr = O.Prog(ctx)
                b = pr.call(enc, x, T.I(c))
                if b is None:
                    return pr, None
                return pr, T.add(T.mul(T.I(256), T.at(b, T.I(0), "u8")), T.at(b, T.I(1), "u8"))
            O.decide(ctx, "encoded-stream:%d" % c, "the stream for capacity %d starts with the true length, and exactly lengths above 65535 are refused" % c,
                     mke, n, vals, must=T.lt(T.I(65535), n), where=enc)


CODES = (16, 32, 64, 128, 256, 512)


def c11(ctx):
    ctx.rule("value graph of decode . (append anything) . encode is the payload, for every class of capacities the code selection distinguishes")
    enc, dec, sel = "encoding::encode", "encoding::decode", "encoding::get_code_by_codeword_length"
    if not _anchors(ctx, enc, dec, sel):
        return
    x, more, cap = T.sym("x", "seq:u8"), T.sym("more", "seq:u8"), T.sym("cap", "usize")
    n = T.length(x)
    r = O.rnd("c11")
    pay = [(0, 0), (1, 0), (2, 5), (5, 1), (6, 0), (7, 9), (13, 0), (14, 2), (15, 40), (29, 0), (30, 3), (31, 1), (62, 0), (100, 17), (254, 2),
           (255, 0), (256, 3), (510, 1), (600, 70), (1030, 0)]

    def vals(caps):
        out = []
        long = [(127, 2), (128, 1), (1023, 0), (4096, 3), (8191, 0), (16384, 1), (32767, 0), (32768, 1), (40000, 0), (65280, 2), (65535, 0)]
        for k, (a, b) in enumerate(pay + (long if caps[0] in (0, 1024) else long[:3])):
            out.append({"x": O.seq([r.randint(0, 255) for _ in range(a)]), "more": O.seq([r.randint(0, 255) for _ in range(b)]), "cap": caps[k % len(caps)]})
        return out
    big = T.I(2 ** 40)
    classes = [("capacity %d" % c, T.I(c), [], [c]) for c in CODES]
    classes.append(("capacities from 1024", cap, [T.le(T.I(1024), cap), T.le(cap, big)], [1024, 1025, 4096, 70000]))
    classes.append(("capacities without a code", cap, [T.lt(cap, T.I(1024))] + [T.bnot(T.eq0(T.sub(cap, T.I(c)))) for c in CODES],
                    [0, 1, 2, 15, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 511, 513, 1023, 600]))
    for name, c, pre, caps in classes:
        pre = pre + [T.le(n, T.I(65535))]

        def mk():
            pr = O.Prog(ctx, facts=pre)
            e = pr.call(enc, x, c)
            return pr, pr.call(dec, T.cat(e, more), c) if e is not None else None
        O.decide(ctx, "round-trip:" + name, "decoding what encode wrote (and anything after it) gives the payload, at " + name, mk, x, vals(caps), pre=pre,
                 where=enc + " / " + dec)
    # a codeword fits
    from .. import ldpc

    def mkf():
        pr = O.Prog(ctx)
        v = pr.call(sel, cap)
        fits = _fits(v, cap, ldpc)
        return pr, fits
    O.decide(ctx, "codeword-fits", "a codeword of the code chosen for a capacity takes at most that many bytes", mkf, T.TRUE,
             [{"cap": k} for k in list(range(0, 1300)) + [2000, 4096, 8191, 8192, 65536]], pre=[T.le(cap, big)], where=sel)


def _fits(v, cap, ldpc):
    if v.op == "ite":
        return T.ite(v.args[0], _fits(v.args[1], cap, ldpc), _fits(v.args[2], cap, ldpc))
    if v is T.none:
        return T.TRUE
    n = ldpc.param("n", T.fld(v, "Some", 0))
    return T.le(n, T.mul(T.I(8), cap))


CHECKS = {"C11": c11, "C19": c19, "C20": c20, "C17": c17, "C18": c18, "C09": c09}
_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C09": _VG + "the header bytes and the refusal condition of every serialiser against the true lengths.",
    "C11": _VG + "the composed value graph decode(encode(x) ++ more) normalises to x for every class of capacities.",
    "C17": _VG + "the composed value graph deserialize(serialize(w) ++ more) normalises to w.",
    "C18": _VG + "the composed value graph deserialize(serialize(d) ++ more) normalises to d.",
    "C19": "Value numbering of the composed conversions over typed MIR (closed-form loop summaries) against the identity.",
    "C20": "Value numbering of the composed conversions over typed MIR (closed-form loop summaries) against the identity.",
}
ASSUME = {
    "C11": ["LDPC model: encoding is systematic (data, then parity), and decoding an undisturbed codeword returns it"],
    "C09": ["usize arithmetic on lengths does not overflow"],
}
