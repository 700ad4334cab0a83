"""Model of the LDPC codes: systematic encoding, and decoding of undisturbed codewords."""
import hashlib

from . import interp as N
from . import terms as T
from .models import model

LD = "labrador_ldpc::codes::LDPCCode::"
# code: (codeword bits n, data bits k, punctured bits)
PARAMS = {"TC128": (128, 64, 0), "TC256": (256, 128, 0), "TC512": (512, 256, 0), "TM1280": (1280, 1024, 128),
          "TM1536": (1536, 1024, 256), "TM2048": (2048, 1024, 512), "TM5120": (5120, 4096, 512),
          "TM6144": (6144, 4096, 1024), "TM8192": (8192, 4096, 2048)}
PARAM = {"n": lambda n, k, p: n, "k": lambda n, k, p: k, "punctured_bits": lambda n, k, p: p,
         "output_len": lambda n, k, p: (n + p) // 8, "decode_bf_working_len": lambda n, k, p: n + p}
PARITY, PUNCT, DECODED = "ldpc::parity", "ldpc::punctured", "ldpc::decoded"


def name(code):
    return code.args[0].split("::")[-1] if code.op == "ctor" else None


def param(what, code):
    if code.op == "ite":
        return T.ite(code.args[0], param(what, code.args[1]), param(what, code.args[2]))
    p = PARAMS.get(name(code))
    return T.I(PARAM[what](*p)) if p else T.mk("app", LD + what, "usize", (code,))


def parity(code, data):
    if code.op == "ite":
        return T.ite(code.args[0], parity(code.args[1], data), parity(code.args[2], data))
    if data.op == "ite":
        return T.ite(data.args[0], parity(code, data.args[1]), parity(code, data.args[2]))
    return T.mk("app", PARITY, "seq:u8", (code, data))


def decoded(code, w, iters):
    """the decoder's output buffer"""
    if code.op == "ite":
        return T.ite(code.args[0], decoded(code.args[1], w, iters), decoded(code.args[2], w, iters))
    if w.op == "ite":
        return T.ite(w.args[0], decoded(code, w.args[1], iters), decoded(code, w.args[2], iters))
    if w.op == "cat":
        last = w.args[0][-1]
        if last.op == "app" and last.args[0] == PARITY and last.args[2][0] is code and T.cat(*w.args[0][:-1]) is last.args[2][1]:
            return T.cat(w, T.mk("app", PUNCT, "seq:u8", (code, last.args[2][1])))
    return T.mk("app", DECODED, "seq:u8", (code, w, iters))


for _w in PARAM:
    T.APPNORM[LD + _w] = (lambda w: lambda code: param(w, code))(_w)

    model(LD + _w)((lambda w: lambda c: param(w, c.v(0)))(_w))
T.APPNORM[PARITY] = parity
T.APPNORM[DECODED] = decoded
T.SEQLEN[PARITY] = lambda t: T.idiv(T.sub(param("n", t.args[2][0]), param("k", t.args[2][0])), T.I(8))
T.SEQLEN[PUNCT] = lambda t: T.idiv(param("punctured_bits", t.args[2][0]), T.I(8))
T.SEQLEN[DECODED] = lambda t: param("output_len", t.args[2][0])


@model(LD + "copy_encode")
def _copy_encode(c):
    code, d, w = c.v(0), c.v(1), c.v(2)
    k, n = param("k", code), param("n", code)
    if not c.require(T.eq0(T.sub(T.mul(T.I(8), T.length(d)), k)), "data must be k bits long"):
        return None
    if not c.require(T.eq0(T.sub(T.mul(T.I(8), T.length(w)), n)), "codeword must be n bits long"):
        return None
    r = T.cat(d, parity(code, d))
    c.set(2, r)
    return r


@model(LD + "encode")
def _encode(c):
    code, w = c.v(0), c.v(1)
    k, n = param("k", code), param("n", code)
    if not c.require(T.eq0(T.sub(T.mul(T.I(8), T.length(w)), n)), "codeword must be n bits long"):
        return None
    d = T.slc(w, T.I(0), T.idiv(k, T.I(8)))
    r = T.cat(d, parity(code, d))
    c.set(1, r)
    return r


@model(LD + "decode_bf")
def _decode_bf(c):
    code, w, out, work = c.v(0), c.v(1), c.v(2), c.v(3)
    if not c.require(T.eq0(T.sub(T.mul(T.I(8), T.length(w)), param("n", code))), "input.len() != n/8"):
        return None
    if not c.require(T.eq0(T.sub(T.length(out), param("output_len", code))), "output.len != (n+p)/8"):
        return None
    if not c.require(T.eq0(T.sub(T.length(work), param("decode_bf_working_len", code))), "working.len() incorrect"):
        return None
    it = c.v(4)
    c.set(2, decoded(code, w, it))
    c.set(3, T.app("ldpc::work", "seq:u8", code, w, it))
    return T.tup(T.app("ldpc::success", "bool", code, w, it), T.app("ldpc::iterations", "usize", code, w, it))


T.SEQLEN["ldpc::work"] = lambda t: param("decode_bf_working_len", t.args[2][0])


# ---------------------------------------------------------------- constants

def _bytes(tag, nm, data, n):
    h = hashlib.shake_128(tag + nm.encode() + b"|" + bytes(data)).digest(n)
    return list(h)


def _nm(code):
    if not isinstance(code, N.Ctor):
        raise N.Stuck("code")
    s = code.name.split("::")[-1]
    if s not in PARAMS:
        raise N.Stuck("code")
    return s


def _par(code, data):
    s = _nm(code)
    n, k, p = PARAMS[s]
    return N.Seq.of(_bytes(b"parity", s, N.seqof(data).all(), (n - k) // 8))


def _pun(code, data):
    s = _nm(code)
    return N.Seq.of(_bytes(b"punct", s, N.seqof(data).all(), PARAMS[s][2] // 8))


def _dec(code, w, iters):
    s = _nm(code)
    n, k, p = PARAMS[s]
    b = list(N.seqof(w).all())
    if len(b) == n // 8 and _bytes(b"parity", s, b[:k // 8], (n - k) // 8) == b[k // 8:]:
        return N.Seq.of(b + _bytes(b"punct", s, b[:k // 8], p // 8))
    return N.Seq.of(_bytes(b"decoded", s, b, (n + p) // 8))


N.INTERP[PARITY] = _par
N.INTERP[PUNCT] = _pun
N.INTERP[DECODED] = _dec
N.INTERP["utf8ok"] = lambda *a: True
for _w in PARAM:
    N.INTERP[LD + _w] = (lambda w: lambda code: PARAM[w](*PARAMS[_nm(code)]))(_w)
