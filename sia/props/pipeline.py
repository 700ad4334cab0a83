"""C01, C02: what is signed and verified, embedded and extracted, by watermarking and by authentication."""
import hashlib

from .. import crypt
from .. import interp as N
from .. import oblig as O
from .. import spec
from .. import terms as T
from ..exec import LEAFDIM, Unsup
from .stego import find

AUTH, MARK = "watermarking::process::authenticate_channel", "watermarking::process::watermark_channel"
VERIFY, SIGN = "signature::verify", "signature::sign"
NEWC, READC = "watermarking::watermark::Watermark::new", "watermarking::watermark::deserialize"
BYTES = "utils::bytes::vec_i64_to_bytes"
PUBLIC = bytes.fromhex("a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6")
SECRET = bytes.fromhex("e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60")


def _anchors(ctx, *names):
    return all([ctx.anchor(n) is not None for n in names])


def one(v, name, n=None):
    xs = find(v, lambda t: t.op == "app" and t.args[0] == name and (n is None or n(t)))
    if len(xs) != 1:
        raise Unsup("%d different uses of %s" % (len(xs), name))
    return xs[0]


# ---------------------------------------------------------------- C01

def _keys():
    out = [(SECRET, PUBLIC)]
    for k in range(3):
        s = hashlib.sha256(b"sia key %d" % k).digest()
        out.append((s, crypt.public(s)))
    return out


def _sigs(r, msg, keys, n=6):
    """signatures for a message, most of them wrong in one way"""
    s, p = keys[0]
    good = crypt.sign(s, p, msg)
    out = [good]
    flip = lambda b, k: b[:k // 8] + bytes([b[k // 8] ^ 1 << k % 8]) + b[k // 8 + 1:]  # noqa: E731
    out += [flip(good, r.randrange(512)) for _ in range(n)]
    out += [flip(good, k) for k in (0, 7, 255, 256, 504, 508, 511)]
    out += [good[:k] for k in (0, 1, 32, 63)] + [good + b"\0", good + good, b"\0" * 64, b"\1" + b"\0" * 63, b"\xff" * 64, b"\0" * 32, good[32:] + good[:32], good[::-1]]
    out += [crypt.sign(a, b, msg) for a, b in keys[1:]] + [crypt.sign(s, keys[1][1], msg)]
    x = (int.from_bytes(good[32:], "little") + crypt.L).to_bytes(33, "little")[:32]
    out.append(good[:32] + x)
    out.append(hashlib.sha512(msg).digest())
    out.append(msg[:64].ljust(64, b"\0"))
    out += [crypt.sign(s, p, m) for m in (b"", msg[:8], msg[:16], msg[:32], msg[:64], msg[:-8], msg[:-1], msg[8:], msg + b"\0", hashlib.sha512(msg).digest(),
                                          hashlib.sha256(msg).digest(), msg[::-1], msg[:len(msg) // 2]) if m != msg]
    return out


def _ser(xs):
    return b"".join((x & 2 ** 64 - 1).to_bytes(8, "little") for x in xs)


def _container(bits, sig, text):
    b = [0] * ((len(bits) + 7) // 8)
    for k, x in enumerate(bits):
        b[k // 8] |= x << k % 8
    return bytes([len(bits) & 255, len(sig) & 255, len(text) & 255]) + bytes(b) + sig + text


SHAPES = [(b"", b""), (b"\0", b""), (b"\0\0", b""), (b"\x40", b""), (b"", b"\0"), (b"", b"\0" * 8), (b"\0" * 8, b""), (b"\0" * 4, b""), (b"\1", b""), (b"", b"\1"), (b"\0\1", b"")]


def _aimed(v, secret, point):
    """points whose signature fits what some verification in the graph checks"""
    out = []
    for t in find(v, lambda t: t.op == "app" and t.args[0] in (crypt.VERIFY, crypt.STRICT)):
        g = b"\0" * 64
        for _ in range(2):
            try:
                f = N.Fold(point(g))
                k, m = crypt.raw(f.ev(t.args[2][0])), crypt.raw(f.ev(t.args[2][1]))
            except (N.Undef, N.Stuck, TypeError, ValueError, RecursionError):
                break
            if k not in secret:
                break
            g = crypt.sign(secret[k], k, m)
            out.append(point(g))
    return out


def c01(ctx):
    if not _anchors(ctx, AUTH, VERIFY, READC):
        return
    ctx.rule("the verdict is, as a value graph, the outcome of one Ed25519 verification: system key, message restored from the features of the channel and the extracted bits, "
             "extracted signature; no other path yields true")
    r = O.rnd("c01")
    keys = _keys()
    # the verification itself, for any key, message and signature
    msg, sig, hx = T.sym("msg", "seq:u8"), T.sym("sig", "seq:u8"), T.sym("key", "seq:u8")

    def mkv():
        p = O.Prog(ctx)
        return p, p.call(VERIFY, msg, sig, hx)

    def wantv(pr):
        q = O.Prog(ctx)
        k = T.fld(q.call("utils::format::decode_hex", hx), "Ok", 0, "seq:u8")
        return T.band(T.eq(T.length(sig), T.I(64)), T.app(crypt.VERIFY, "bool", k, msg, sig))
    vals = []
    for k, (s, p) in enumerate(keys):
        for n in (0, 1, 8, 33, 88) if k else (0, 1, 8, 16, 24, 33, 64, 88, 300):
            m = bytes(r.randrange(256) for _ in range(n))
            for g in _sigs(r, m, keys[k:] + keys[:k], 3):
                vals.append({"msg": O.seq(m), "sig": O.seq(g), "key": O.seq(p.hex().encode())})
    m, g = b"hello", crypt.sign(SECRET, PUBLIC, b"hello")
    for kx in (PUBLIC.hex().upper(), PUBLIC.hex()[:-2], PUBLIC.hex() + "00", "", "zz" * 32, "00" * 32, "01" + "00" * 31, "ff" * 32, PUBLIC.hex()[:-1], "+1" * 32):
        for gg in (g, b"", b"\0" * 64):
            vals.append({"msg": O.seq(m), "sig": O.seq(gg), "key": O.seq(kx.encode())})
    only = lambda got, want: not got or bool(want)  # noqa: E731
    secret = {p: s for s, p in keys}

    def aimed(v):
        """and signatures made for exactly the message and the key the graph hands to Ed25519"""
        out = list(vals)
        for n in (0, 1, 8, 40, 88, 160, 264, 1000, 4104):
            m = bytes(r.randrange(256) for _ in range(n))
            for pre, post in SHAPES:
                base = {"msg": O.seq(m), "key": O.seq(PUBLIC.hex().encode())}
                out += _aimed(v, secret, lambda g: dict(base, sig=O.seq(pre + g + post)))
        return out
    O.decide(ctx, "verify", "verification answers yes only if Ed25519 accepts this signature for this message under this key", mkv, wantv, aimed, may=O.ANY,
             where=VERIFY, eqv=only, total=False)
    _verdict(ctx, r, keys, only)


def _run(ctx, fn, args, facts=()):
    p = O.Prog(ctx, facts=facts, boundary=dict(spec.STEGO, **dict(spec.CODEC, **dict(spec.CHANNEL, **spec.MOMENTS))))
    v = p.call(fn, *args)
    if v is None:
        raise Unsup("always panics")
    return p, v


def _params():
    return (T.sym("ch", "mat:?"), T.sym("depth", "f64"), T.sym("step", "f64"), T.sym("n", "usize"), T.sym("levels", "usize"))


def _derived(t, ch):
    """the term is a function of the channel (and of the parameters)"""
    return T.has(t, ch)


def _verdict(ctx, r, keys, only):
    args = _params()
    ch, depth, step, n, levels = args
    pre = [T.le(T.I(1), n), T.bnot(T.fcmp("flec", step, T.F(0.0)))]
    F, P = T.sym("features", "seq:f64"), T.sym("payload", "seq:u8")
    T.SYMLEN[F] = n
    state = {}

    def mk():
        p, v = _run(ctx, AUTH, args, pre)
        f, x = one_or(v, p, spec.FEATURES), one_or(v, p, spec.EXTRACT)
        state["f"], state["x"] = f, x
        m = {f: F, x: P}
        _substate(p, m)
        with T.under(p.st.facts):
            return p, T.renorm(T.subst(v, m))

    def want(pr):
        q = O.Prog(ctx, facts=pre)
        w = q.call(READC, P)
        if w is None:
            raise Unsup("container")
        bits, sg = _container_fields(ctx, w)
        ints = T.app(spec.RESTORED, "seq:i64", F, bits, step)
        with T.under(q.st.facts):
            msg = q.call(BYTES, ints)
            return T.renorm(T.band(T.eq(T.length(sg), T.I(64)), T.app(crypt.VERIFY, "bool", T.lst(*[T.I(b) for b in PUBLIC]), msg, sg)))
    ok = O.decide(ctx, "verdict", "a channel is authentic only if the system's key accepts the extracted signature for the message restored from its own features", mk, want,
                  _payloads(r, keys), pre=pre, may=O.ANY, where=AUTH, eqv=only, total=False)
    for key, what, app in (("own-features", "the features", "f"), ("own-payload", "signature and bits", "x")):
        t = state.get(app)
        if t is None:
            ctx.undecided(key, "%s verified: source not found" % what)
            continue
        ctx.count("obligations over value graphs")
        syms = {s.args[0] for s in N.symbols(t.args[2][0])}
        if O.pure(ctx, [t], ()):
            ctx.undecided(key, "%s verified: uninterpreted %s" % (what, ", ".join(O.pure(ctx, [t], ())[:4])))
        elif "ch" in syms:
            ctx.proved(key, "%s come from that very channel and nothing else but the parameters" % what)
        else:
            ctx.violation(key, "%s: %s used for the verdict do not come from the channel" % (AUTH, what))
    return ok


def one_or(v, p, name):
    return one(T.tup(v, *[c for _, c, _, _, _ in p.E.panics]), name) if not find(v, lambda t: t.op == "app" and t.args[0] == name) else one(v, name)


def _substate(p, m):
    """panic edges and facts of a program with terms replaced"""
    E = p.E

    def facts(fs):
        return T.NOFACTS.plus(*[T.subst(f, m) for f in fs.fs])
    E.panics[:] = [(facts(pf), T.subst(c, m), k, s, fn) for pf, c, k, s, fn in E.panics]
    p.st = p.st.copy()
    p.st.facts = facts(p.st.facts)


def _container_fields(ctx, w):
    """perturbation bits and signature of a container, by what its constructor does with them"""
    q = O.Prog(ctx)
    p, s, t = T.sym("p", "seq:bool"), T.sym("s", "seq:u8"), T.sym("t", "seq:u8")
    c = q.call(NEWC, p, s, t)
    if c is None or c.op != "ctor":
        raise Unsup("container")
    k = {id(f): j for j, f in enumerate(c.args[1])}
    if id(p) not in k or id(s) not in k:
        raise Unsup("container")
    return T.fld(w, None, k[id(p)], "seq:bool"), T.fld(w, None, k[id(s)], "seq:u8")


def _words(v):
    """texts the graph mentions"""
    out = set()
    for t in find(v, lambda t: t.op == "str" or t.op == "list" and len(t.args[0]) < 40 and all(x.op == "int" and 0 <= x.args[0] < 128 for x in t.args[0])):
        w = t.args[0].encode() if t.op == "str" else bytes(x.args[0] for x in t.args[0])
        if 0 < len(w) < 40:
            out.add(w)
    return sorted(out)[:12]


def _payloads(r, keys):
    pts = _fixed_payloads(r, keys)
    secret = {p: s for s, p in keys}

    def more(v):
        out = list(pts)
        ch = pts[0]["ch"]
        texts = [b"Hello world!", b""]
        for w in _words(v):
            texts += [w, w + b"1"] + [x for s, p in keys[:2] for x in (w + p.hex().encode(), p.hex().encode() + w)]
        texts.append(keys[1][1].hex().encode())
        for k, n in enumerate((1, 2, 3, 11, 20, 40, 80)):
            step = [1.0, 0.5, 2.0][k % 3]
            for feats in ([step * (r.randint(0, 30) + 0.34) for _ in range(n)], [step * 0.34] * n):
                bits = [bool(b) for b in N.seqof(N.INTERP[spec.QBITS](O.seq(feats), step)).all()]
                wrong = [not b for b in bits]
                base = {"ch": ch, "depth": 10.0, "step": step, "n": n, "levels": 1, "features": O.seq(feats)}
                for b in (bits, wrong):
                    for t in texts:
                        out += _aimed(v, secret, lambda g: dict(base, payload=O.seq(_container(b, g, t))))
                    for pre, post in SHAPES[1:]:
                        out += _aimed(v, secret, lambda g: dict(base, payload=O.seq(_container(b, pre + g + post, b""))))
        return out
    return more


def _fixed_payloads(r, keys):
    out = []
    s, p = keys[0]
    ch = N.Mat(4, 6, lambda i, j: spec.luma((i * 37 + j * 11) % 256))

    def add(feats, step, payload, n=None):
        out.append({"ch": ch, "depth": 10.0, "step": step, "n": len(feats) if n is None else n, "levels": 1, "features": O.seq(feats), "payload": O.seq(payload)})
    for n in (1, 2, 3, 5, 8, 11, 20, 80):
        step = [1.0, 0.5, 2.0, 0.37][n % 4]
        ints = [r.randint(0, 30) for _ in range(n)]
        orig = [step * (q + r.choice([0.2, 0.34, 0.45, 0.56, 0.7, 0.77])) for q in ints]
        bits = [bool(b) for b in N.seqof(N.INTERP[spec.QBITS](O.seq(orig), step)).all()]
        text = b"Hello world!"
        for drift in (0.0, 0.0, 0.3, 0.6, -0.4, 3.0):
            feats = [x + drift * step * (r.random() if drift else 0) for x in orig]
            for g in _sigs(r, _ser(ints), keys, 1) if n < 12 and not drift else [crypt.sign(s, p, _ser(ints)), crypt.sign(*keys[1], _ser(ints))]:
                add(feats, step, _container(bits, g, text))
            plain = [spec._fq(x, step) for x in feats]
            other = crypt.sign(s, p, _ser(plain))
            add(feats, step, _container(bits, other, text))
            add(feats, step, _container([], other, text))
            add(feats, step, _container(bits[:-1], other, b""))
            add(feats, step, _container(bits[:3], other, b""))
        g = crypt.sign(*keys[1], _ser(ints))
        add(orig, step, _container(bits, g, keys[1][1].hex().encode()))
        add(orig, step, _container(bits, b"", text))
        add(orig, step, _container(bits, b"\0" * 64, b"") + b"\0" * 100)
        near = [x + step * 4 for x in orig]
        add(near, step, _container(bits, crypt.sign(s, p, _ser(ints)), text))
    for junk in (b"", b"\0", b"\0\0\0", b"\0" * 200, b"\xff" * 300, bytes(r.randrange(256) for _ in range(500)), b"\0\x40\0" + b"\0" * 64, b"\1\0\0\0"):
        add([1.2, 3.4], 1.0, junk)
        add([0.0], 1.0, junk)
    return out


# ---------------------------------------------------------------- C02

def _channels(r):
    out = []
    for a, b in [(4, 4), (4, 8), (8, 4), (3, 5), (5, 3), (1, 7), (7, 1), (16, 24), (24, 16), (33, 20), (2, 300), (300, 2), (70, 65), (1025, 3), (3, 1025)]:
        base, amp = r.choice([(128, 100), (128, 127), (30, 20), (220, 30), (7, 0)])
        xs = [[min(255, max(0, base + r.randint(-amp, amp))) for _ in range(b)] for _ in range(a)]
        out.append(N.Mat(a, b, lambda i, j, xs=xs: spec.luma(xs[i][j])))
    return out


def _pvals(seed, dims=None):
    r = O.rnd(seed)
    out = []
    for ch in _channels(r):
        for k in range(4):
            n = r.choice([1, 2, 3, 7, 8, 9, 10, 11, 12, 16, 20, 31, 40, 64, 80, 84, 85])
            step = r.choice([1.0, 0.5, 2.0, 0.25, 4.0])
            out.append({"ch": ch, "depth": r.choice([0.5, 1.0, 10.0, 30.0, 50.0, 0.01, 100.0, 2000.0]), "step": step, "n": n, "levels": r.choice([1, 2, 3, 3, 4, 5, 6, 7, 8]),
                        "features": O.seq([step * (r.choice([r.randint(0, 30), r.randint(0, 5000)]) + r.choice([0.0, 0.2, 0.34, 0.45, 0.5, 0.56, 0.7, 0.77])) for _ in range(n)]),
                        "ints": O.seq([r.choice([r.randint(-9, 99), r.randint(-2 ** 63, 2 ** 63 - 1), 255, 256, -1]) for _ in range(n)])})
    for n in (1, 2, 3, 5, 6, 13, 21, 32, 33, 50, 85):
        for v in out[n % 9:n % 9 + 1]:
            v = dict(v, n=n, features=O.seq([v["step"] * (k % 9 + 0.34) for k in range(n)]), ints=O.seq([k * 1234567 - 9 for k in range(n)]))
            out.append(v)
    return out


def c02(ctx):
    if not _anchors(ctx, MARK, AUTH, READC):
        return
    ctx.rule("the value graphs of watermarking and of authenticating a channel agree on what reaches the features, the quantisation, the serialisation, signing and verifying, "
             "embedding and extracting; the embedded payload read by the reading side gives the signature and the bits")
    args = ch, depth, step, n, levels = _params()
    F, J = T.sym("features", "seq:f64"), T.sym("ints", "seq:i64")
    T.SYMLEN[F] = T.SYMLEN[J] = n
    pre = [T.le(T.I(1), n), T.le(n, T.I(85)), T.bnot(T.fcmp("flec", step, T.F(0.0)))]
    vals = _pvals("c02")
    memo = {}

    def side(fn):
        if fn not in memo:
            try:
                memo[fn] = _run(ctx, fn, args, pre)
            except Unsup as e:
                memo[fn] = e
        if isinstance(memo[fn], Unsup):
            raise memo[fn]
        return memo[fn]

    def parts():
        """the terms that matter, by name"""
        if "parts" not in memo:
            (pw, w), (pa, a) = side(MARK), side(AUTH)
            d = {"fw": one(w, spec.FEATURES), "fa": one(a, spec.FEATURES), "emb": one(w, spec.EMBED), "ext": one(a, spec.EXTRACT),
                 "q": one(w, spec.QINTS), "qb": one(w, spec.QBITS), "r": one(a, spec.RESTORED), "sign": one(w, crypt.SIGN), "ver": one(a, crypt.VERIFY), "w": w, "a": a}
            memo["parts"] = pw, pa, d
        return memo["parts"]

    def out(p, v):
        """a program holding the facts of p, without its panic edges (decided elsewhere)"""
        q = O.Prog(ctx, facts=pre)
        q.st.facts = p.st.facts
        q.E.analysed = p.E.analysed
        with T.under(q.st.facts):
            return q, T.renorm(v)

    def ob(key, text, got, want, **kw):
        def mk():
            pw, pa, d = parts()
            return out(*got(pw, pa, d))

        def exp(pr):
            pw, pa, d = parts()
            with T.under(T.NOFACTS.plus(*pre)):
                return want(d) if callable(want) else want
        O.decide(ctx, key, text, mk, exp, vals, pre=pre, may=O.ANY, where=MARK + " / " + AUTH, **kw)

    tw = lambda d, k: d[k].args[2]  # noqa: E731
    ob("features-image", "the features are calculated from the same preprocessing of the channel", lambda pw, pa, d: (pa, tw(d, "fa")[0]), lambda d: tw(d, "fw")[0])
    ob("features-kind", "the same family of features is calculated", lambda pw, pa, d: (pa, T.discr(tw(d, "fa")[1])), lambda d: T.discr(tw(d, "fw")[1]))
    ob("features-count", "both calculate as many features as the caller asks for", lambda pw, pa, d: (pa, T.tup(tw(d, "fw")[2], tw(d, "fa")[2])), T.tup(n, n))
    ob("step", "both quantise with the caller's step", lambda pw, pa, d: (pa, T.tup(tw(d, "q")[1], tw(d, "qb")[1], tw(d, "r")[2])), T.tup(step, step, step))
    ob("features-whole", "all features as calculated, and nothing else, are quantised and restored",
       lambda pw, pa, d: (pa, T.tup(*[T.subst(x, {d["fw"]: F, d["fa"]: F}) for x in (tw(d, "q")[0], tw(d, "qb")[0], tw(d, "r")[0])])), T.tup(F, F, F))
    ob("serialisation", "the signed and the verified message are the same bytes for the same integers", lambda pw, pa, d: (pa, T.subst(tw(d, "ver")[1], {d["r"]: J})),
       lambda d: T.subst(tw(d, "sign")[2], {d["q"]: J}))
    ob("layout", "embedding and extraction work on the same layout of the samples", lambda pw, pa, d: (pa, tw(d, "ext")[0]), lambda d: tw(d, "emb")[0])
    ob("depth-levels", "both sides use the caller's depth and number of levels", lambda pw, pa, d: (pa, T.tup(*tw(d, "emb")[2:], *tw(d, "ext")[1:])), T.tup(depth, levels, depth, levels))
    M = T.sym("marked", "mat:u8")

    def back(pw, pa, d):
        img = tw(d, "emb")[0]
        LEAFDIM[M] = (T.rows(img), T.cols(img))
        return pa, T.subst(tw(d, "ext")[0], {ch: T.subst(d["w"], {d["emb"]: M})})
    r = O.rnd("c02b")
    for v in vals:
        c = v["ch"]
        xs = [[r.randrange(256) for _ in range(c.r)] for _ in range(c.c)]
        v["marked"] = N.Mat(c.c, c.r, lambda i, j, xs=xs: xs[i][j])
    ob("layout-back", "the watermarked channel is read in the layout it was written in", back, M)
    # the payload
    emb = lambda d, t: T.subst(T.subst(t, {d["ext"]: tw(d, "emb")[1]}), {d["fw"]: F, d["fa"]: F})  # noqa: E731

    def bits(pw, pa, d):
        return pa, emb(d, tw(d, "r")[1])
    ob("payload-bits", "the bits read from the payload are those the quantisation gave", bits, lambda d: T.subst(d["qb"], {d["fw"]: F}))
    ob("payload-signature", "the signature read from the payload is the one made", lambda pw, pa, d: (pa, emb(d, tw(d, "ver")[2])), lambda d: T.subst(d["sign"], {d["fw"]: F}))

    def keys(pw, pa, d):
        return pa, T.tup(tw(d, "sign")[1], tw(d, "ver")[0])

    def pair(d):
        s = crypt.literal(tw(d, "sign")[0])
        if s is None or len(s) != 32:
            raise Unsup("the secret is not a constant")
        p = T.lst(*[T.I(x) for x in crypt.public(s)])
        return T.tup(p, p)
    ob("keys", "the key that verifies is the public half of the pair that signs", keys, pair)


def channel_size(ctx):
    """a watermarked channel is as wide and as high as the channel"""
    if not _anchors(ctx, MARK):
        return
    args = ch, depth, step, n, levels = _params()
    pre = [T.le(T.I(1), n), T.le(n, T.I(85)), T.bnot(T.fcmp("flec", step, T.F(0.0)))]

    def mk():
        p, v = _run(ctx, MARK, args, pre)
        return p, T.tup(T.rows(v), T.cols(v))
    O.decide(ctx, "channel-size", "a watermarked channel is as wide and as high as the channel", mk, lambda pr: T.tup(T.rows(ch), T.cols(ch)), _pvals("c07c"),
             pre=pre, may=O.ANY, where=MARK)


# ---------------------------------------------------------------- C26

GENERATE, SIGNFN, HEX = "signature::keypair::generate", "signature::sign", "utils::format::encode_hex"


def c26(ctx):
    if not _anchors(ctx, GENERATE, SIGNFN, HEX):
        return
    ctx.rule("as value graphs: a new pair is the hex of 32 bytes drawn from the OS and the hex of the public key made of them, in that order; "
             "signing is one Ed25519 signature by the given pair over the given data")
    r = O.rnd("c26")
    E = T.sym("entropy1", "seq:u8")
    T.SYMLEN[E] = T.I(32)
    draws = [bytes([a]) * 32 for a in (0, 1, 9, 15, 16, 127, 128, 255)] + [bytes(r.randrange(256) for _ in range(32)) for _ in range(40)]
    for k in range(32):
        draws += [bytes(b if j == k else 77 for j in range(32)) for b in (0, 5)]

    def mkg():
        p = O.Prog(ctx)
        return p, p.call(GENERATE)

    def wantg(pr):
        q = O.Prog(ctx)
        return T.tup(q.call(HEX, E), q.call(HEX, T.app(crypt.PUBLIC, "seq:u8", E)))
    O.decide(ctx, "pair", "a new pair is the hex of the drawn secret, then the hex of its public key", mkg, wantg, [{"entropy1": O.seq(d)} for d in draws], where=GENERATE)
    data, pk, sk = T.sym("data", "seq:u8"), T.sym("public", "seq:u8"), T.sym("private", "seq:u8")
    T.SYMLEN[pk] = T.SYMLEN[sk] = T.I(32)
    # a proper public key; anything else may be refused
    pre = [T.app(crypt.POINT, "bool", pk)]
    vals = []
    for k, n in enumerate((0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 88, 127, 128, 129, 255, 256, 257, 680, 1000, 1024, 4095, 4096, 4097, 65536, 70001)):
        for s in (bytes(r.randrange(256) for _ in range(32)), SECRET, bytes([r.choice([0, 255, 16, 15])]) * 32):
            for own in ((True, True, False) if n < 300 else (True,)):
                pub = crypt.public(s if own else bytes(r.randrange(256) for _ in range(32)))
                d = bytes([r.choice([0, 255])]) * n if r.random() < 0.3 else bytes(r.randrange(256) for _ in range(n))
                vals.append({"data": O.seq(d), "private": O.seq(s), "public": O.seq(pub)})

    def mks():
        p = O.Prog(ctx, facts=pre)
        q = O.Prog(ctx)
        return p, p.call(SIGNFN, data, q.call(HEX, sk), q.call(HEX, pk))
    O.decide(ctx, "sign", "a signature is made with the given pair over exactly the given data", mks, lambda pr: T.app(crypt.SIGN, "seq:u8", sk, pk, data), vals,
             pre=pre, where=SIGNFN)


_VG = "Value numbering over typed MIR (closed-form loop summaries, no execution, no solver): "
TECHNIQUE = {
    "C26": _VG + "a new pair and a signature as terms over the drawn bytes, the keys and the data.",
    "C01": _VG + "the verdict as one term; it is the outcome of a single Ed25519 verification whose key, message and signature are traced to constants, the channel and the extracted payload.",
    "C02": _VG + "the graphs of both pipelines compared at every common stage, and the reading of the payload composed with its writing.",
}
_LIB = ["the Ed25519 libraries and imageproc's histogram equalisation are functions of their arguments (signing and verifying as in RFC 8032)"]
ASSUME = {"C26": ["Ed25519 key generation takes its secret from the random source it is given"], "C01": _LIB, "C02": _LIB + ["sample buffers hold width times height samples"]}
CHECKS = {"C01": c01, "C02": c02, "C26": c26}
MORE = {"C07": channel_size}
