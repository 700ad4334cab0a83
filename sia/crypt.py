"""Model of the Ed25519 libraries: keys and signatures are their bytes, signing and verifying uninterpreted.

At constants signing and verifying have their meaning (RFC 8032, with the checks of ed25519-dalek 1.0).
"""
import hashlib
import re

from . import interp as N
from . import terms as T
from .models import RX, ty_name

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
ROOT = pow(2, (P - 1) // 4, P)

SIGN, VERIFY, STRICT, POINT, PUBLIC = "ed25519:sign", "ed25519:verify", "ed25519:verify_strict", "ed25519:point", "ed25519:public"


# ---------------------------------------------------------------- meaning at constants

def _add(p, q):
    a, b = (p[1] - p[0]) * (q[1] - q[0]) % P, (p[1] + p[0]) * (q[1] + q[0]) % P
    c, d = 2 * p[3] * q[3] * D % P, 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def _x(y, sign):
    if y >= P:
        y %= P
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * ROOT % P
    if (x * x - x2) % P:
        return None
    if x & 1 != sign:
        x = (P - x) % P
    return x


_GY = 4 * pow(5, P - 2, P) % P
_GX = _x(_GY, 0)
G = (_GX, _GY, 1, _GX * _GY % P)


def _pack(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | (x & 1) << 255).to_bytes(32, "little")


def _unpack(b):
    if len(b) != 32:
        return None
    y = int.from_bytes(b, "little")
    sign, y = y >> 255, y & (1 << 255) - 1
    x = _x(y, sign)
    return None if x is None else (x, y % P, 1, x * y % P)


def _expand(secret):
    h = hashlib.sha512(secret).digest()
    a = int.from_bytes(h[:32], "little")
    return a & (1 << 254) - 8 | 1 << 254, h[32:]


def _hash(*xs):
    return int.from_bytes(hashlib.sha512(b"".join(xs)).digest(), "little") % L


def public(secret):
    return _pack(_mul(_expand(secret)[0], G))


_signed = {}


def sign(secret, pub, msg):
    k = (secret, pub, msg)
    if k not in _signed:
        a, prefix = _expand(secret)
        r = _hash(prefix, msg)
        R = _pack(_mul(r, G))
        _signed[k] = R + ((r + _hash(R, pub, msg) * a) % L).to_bytes(32, "little")
    return _signed[k]


_checked = {}


def verify(pub, msg, sig, strict=False):
    k = (pub, msg, sig, strict)
    if k not in _checked:
        _checked[k] = _verify(pub, msg, sig, strict)
    return _checked[k]


def _verify(pub, msg, sig, strict):
    A = _unpack(pub)
    if A is None or len(sig) != 64:
        return False
    s = int.from_bytes(sig[32:], "little")
    if s >= L:
        return False
    if strict:
        R = _unpack(sig[:32])
        if R is None or any(_pack(_mul(8, q)) == _pack((0, 1, 1, 0)) for q in (A, R)):
            return False
    k = _hash(sig[:32], pub, msg)
    minus = ((P - A[0]) % P, A[1], A[2], (P - A[3]) % P)
    return _pack(_add(_mul(s, G), _mul(k, minus))) == sig[:32]


def raw(v):
    return bytes(N.seqof(v).all())


def _seq(b):
    return N.Seq.of(list(b))


def _isign(s, p, m):
    s = raw(s)
    if len(s) != 32:
        raise N.Undef("key")
    return _seq(sign(s, raw(p), raw(m)))


N.INTERP[SIGN] = _isign
N.INTERP[VERIFY] = lambda p, m, s: verify(raw(p), raw(m), raw(s))
N.INTERP[STRICT] = lambda p, m, s: verify(raw(p), raw(m), raw(s), True)
N.INTERP[POINT] = lambda b: _unpack(raw(b)) is not None
N.INTERP[PUBLIC] = lambda s: _seq(public(raw(s)))
T.SEQLEN[SIGN] = lambda t: T.I(64)
T.SEQLEN[PUBLIC] = lambda t: T.I(32)


def rx(*pats):
    """models of this library go before the general ones"""
    def d(f):
        for p in pats:
            RX.insert(0, (re.compile("^(?:" + p + ")$"), f))
        return f
    return d


def literal(t):
    """the bytes of a constant term"""
    try:
        return raw(N.Fold({}).ev(t))
    except (N.Undef, N.Stuck, TypeError, ValueError):
        return None


# ---------------------------------------------------------------- the library

KEYPAIR, SECRET, KEY, SIG = ("ed25519_dalek::keypair::Keypair", "ed25519_dalek::secret::SecretKey", "ed25519_dalek::public::PublicKey", "ed25519::Signature")
_ERR = T.app("ed25519 error", "?")


def _made(ok, x):
    return T.ite(ok, T.ok(x), T.err(_ERR))


def _plain(b):
    """constant bytes in one form"""
    if N.symbols(b) or N.opaques(b):
        return b
    k = literal(b)
    return b if k is None else T.lst(*[T.I(x) for x in k])


def _point(b):
    k = literal(b)
    return T.B(_unpack(k) is not None) if k is not None and len(k) == 32 else T.app(POINT, "bool", b)


def _bytes(t):
    """the bytes a key or signature is made of"""
    return T.fld(t, None, 0, "seq:u8")


def _pair(t):
    """secret and public bytes"""
    return _bytes(T.fld(t, None, 0, "?")), _bytes(T.fld(t, None, 1, "?"))


@rx(r"ed25519_dalek::public::PublicKey::from_bytes")
def _pk(c):
    b = _plain(c.v(0))
    return _made(T.band(T.eq(T.length(b), T.I(32)), _point(b)), T.ctor(KEY, [b], 0))


@rx(r"ed25519_dalek::secret::SecretKey::from_bytes")
def _sk(c):
    b = _plain(c.v(0))
    return _made(T.eq(T.length(b), T.I(32)), T.ctor(SECRET, [b], 0))


@rx(r"ed25519_dalek::keypair::Keypair::from_bytes")
def _kp(c):
    b = _plain(c.v(0))
    ok = T.eq(T.length(b), T.I(64))
    with T.under(c.st.facts.plus(ok)):
        s, p = T.slc(b, T.I(0), T.I(32)), T.slc(b, T.I(32), T.I(64))
        return _made(T.band(ok, _point(p)), T.ctor(KEYPAIR, [T.ctor(SECRET, [s], 0), T.ctor(KEY, [p], 0)], 0))


@rx(r"<ed25519_dalek::public::PublicKey as core::convert::From>::from")
def _derive(c):
    return T.ctor(KEY, [T.app(PUBLIC, "seq:u8", _bytes(c.v(0)))], 0)


@rx(r"(?:ed25519_dalek::public::PublicKey|ed25519_dalek::secret::SecretKey|ed25519::Signature)::(?:to_bytes|as_bytes|into_bytes)",
    r"<(?:ed25519_dalek::public::PublicKey|ed25519_dalek::secret::SecretKey|ed25519::Signature) as core::convert::AsRef>::as_ref")
def _tobytes(c):
    return _bytes(c.v(0))


@rx(r"ed25519_dalek::keypair::Keypair::to_bytes")
def _kbytes(c):
    return T.cat(*_pair(c.v(0)))


@rx(r"signature::signer::Signer::sign", r"<ed25519_dalek::keypair::Keypair as signature::signer::Signer>::sign")
def _sign(c):
    s, p = _pair(c.v(0))
    return T.ctor(SIG, [T.app(SIGN, "seq:u8", s, p, c.v(1))], 0)


@rx(r"signature::signer::Signer::try_sign", r"<ed25519_dalek::keypair::Keypair as signature::signer::Signer>::try_sign")
def _trysign(c):
    return T.ok(_sign(c))


@rx(r"ed25519::Signature::(?:from_bytes|try_from)", r"<ed25519::Signature as core::convert::TryFrom>::try_from", r"signature::signature::Signature::from_bytes",
    r"<ed25519::Signature as signature::signature::Signature>::from_bytes")
def _sig(c):
    b = c.v(0)
    ok = T.eq(T.length(b), T.I(64))
    if ok is T.FALSE:
        return T.err(_ERR)
    with T.under(c.st.facts.plus(ok)):
        top = T.at(b, T.I(63), "u8")
        return _made(T.band(ok, T.lt(top, T.I(32))), T.ctor(SIG, [b], 0))


@rx(r"signature::verifier::Verifier::verify", r"<ed25519_dalek::(?:public::PublicKey|keypair::Keypair) as signature::verifier::Verifier>::verify",
    r"ed25519_dalek::(?:public::PublicKey|keypair::Keypair)::(verify_strict)", r"ed25519_dalek::(?:keypair::Keypair)::(verify)")
def _verify_(c, *strict):
    k = c.v(0)
    two = any(ty_name(t) == "Keypair" for t in c.ty) or "keypair::Keypair" in c.path or k.op == "ctor" and k.args[0] == KEYPAIR
    p = _pair(k)[1] if two else _bytes(k)
    ok = T.app(STRICT if "verify_strict" in strict else VERIFY, "bool", p, c.v(1), _bytes(c.v(2)))
    return T.ite(ok, T.ok(T.UNIT), T.err(_ERR))



# ---------------------------------------------------------------- new keys

def entropy(c, n):
    """the next n bytes of the operating system's random source: an arbitrary sequence"""
    k = c.E.draws = getattr(c.E, "draws", 0) + 1
    x = T.sym("entropy%d" % k, "seq:u8")
    T.SYMLEN[x] = n
    return x


def _os(c):
    return any(s in str(c.ty) + str(c.fj.get("resargs", "")) + str(c.fj.get("args", "")) + c.path for s in ("rand_core::os::OsRng", "rand::rngs::OsRng"))


@rx(r"ed25519_dalek::(keypair::Keypair|secret::SecretKey)::generate")
def _generate(c, what):
    if not _os(c):
        return c.E.unknown(c.path, c.args, "?", c.st)
    x = entropy(c, T.I(32))
    sk = T.ctor(SECRET, [x], 0)
    return sk if what.startswith("secret") else T.ctor(KEYPAIR, [sk, T.ctor(KEY, [T.app(PUBLIC, "seq:u8", x)], 0)], 0)


@rx(r"<rand_core::os::OsRng as rand_core::RngCore>::(fill_bytes|try_fill_bytes)")
def _fill(c, w):
    c.set(1, entropy(c, T.length(c.v(1))))
    return T.UNIT if w == "fill_bytes" else T.ok(T.UNIT)
