"""Values changed behind shared references: cells, atomics, locks, write-once and thread-local statics.

A static is a cell that holds what earlier calls left behind, a symbol `state:<static>`; these models
read and write it like any other place.  Guards are the place itself; double borrows and poisoned locks
are not followed (a program that runs into them panics).
"""
from . import terms as T
from .exec import Unsup, sort_of, statics, state_sym
from .models import RX, branch2, rx

CELL = r"core::cell::(?:Cell|RefCell|UnsafeCell)"
LOCK = r"std::sync::poison::(?:mutex::Mutex|rwlock::RwLock)"
ATOMIC = r"core::sync::atomic::Atomic\w*"
ONCE = r"(?:std::sync::once_lock::OnceLock|core::cell::once::OnceCell)"


@rx(r"(?:%s|%s|%s)::(?:new|into_inner|get_mut|as_ptr|from)" % (CELL, LOCK, ATOMIC))
def _new(c):
    x = c.args[0]
    if c.path.endswith("::into_inner"):
        x = c.v(0)
        return T.ctor("core::result::Result::Ok", [x], 0) if "poison" in c.path else x
    if c.path.endswith("get_mut") and "poison" in c.path:
        return T.ctor("core::result::Result::Ok", [x], 0)
    return x


@rx(r"core::cell::Cell::(get|set|replace|take|update|swap)", r"std::thread::local::LocalKey::(get|set|replace|take)",
    r"core::cell::RefCell::(replace|take|replace_with|swap)")
def _cell(c, w, w2=None, w3=None):
    w = w or w2 or w3
    r = place(c)
    old = c.E.val(c.st, r)
    if w == "get":
        return old
    if w == "set":
        put(c, r, c.args[1])
        return T.UNIT
    if w == "replace":
        put(c, r, c.args[1])
        return old
    if w == "update":
        v = c.call(c.args[1], old)
        if v is None:
            return None
        put(c, r, v)
        return T.UNIT
    if w == "take":
        z = zero(c.ty[0])
        if z is not None:
            put(c, r, z)
            return old
    raise Unsup(c.path)


def zero(ty):
    k = ty.get("k")
    if k == "int":
        return T.I(0)
    if k == "bool":
        return T.FALSE
    if k == "float":
        return T.F(0.0)
    if k == "adt" and ty["path"].split("::")[-1] in ("Vec", "String"):
        return T.EMPTY
    if k == "adt" and ty["path"].split("::")[-1] == "Option":
        return T.none
    return None


def place(c, k=0):
    """the cell meant by a shared reference"""
    r = c.args[k]
    if r.op == "mref":
        return c.E.target(c.st, r)
    key = local(c, r)
    if key is not None:
        return c.E.target(c.st, c.E.static(c.st, key))
    raise Unsup("shared place " + c.path)


def put(c, r, x):
    c.E.store(c.st, r, x)


def local(c, r):
    """the thread-local a LocalKey stands for"""
    if r.op == "ctor" and r.args[0].endswith("LocalKey") and r.args[1] and r.args[1][0].op == "clo":
        d = r.args[1][0].args[0]
        for k in statics(c.E.P):
            if d.startswith(k + "::{"):
                return k
    return None


@rx(r"std::thread::local::LocalKey::(with|with_borrow|with_borrow_mut)")
def _with(c, w):
    return c.call(c.args[1], place(c))


@rx(r"core::cell::RefCell::(borrow|borrow_mut)", r"core::cell::(?:Cell|UnsafeCell|RefCell)::(as_ptr|get|get_mut)")
def _borrow(c, w, w2=None):
    return place(c)


@rx(r"core::cell::RefCell::(try_borrow|try_borrow_mut)")
def _tryborrow(c, w):
    return T.ctor("core::result::Result::Ok", [place(c)], 0)


@rx(r"%s::(?:try_)?(?:lock|read|write)" % LOCK)
def _lock(c):
    return T.ctor("core::result::Result::Ok", [place(c)], 0)


@rx(r"<(?:core::cell::(?:Ref|RefMut)|std::sync::poison::mutex::MutexGuard|std::sync::poison::rwlock::RwLock(?:Read|Write)Guard) as core::ops::deref::Deref(?:Mut)?>::deref(?:_mut)?")
def _guard(c):
    r = c.args[0]
    return c.E.target(c.st, r) if r.op == "mref" else r


# ---------------------------------------------------------------- atomics

def ity(c):
    s = sort_of(c.E.result_ty)
    return s if s in T.INTR else None


@rx(ATOMIC + r"::(load|store|swap|fetch_\w+|compare_exchange|compare_exchange_weak|compare_and_swap)")
def _atomic(c, w):
    r = place(c)
    old = c.E.val(c.st, r)
    if w == "load":
        return old
    x = c.v(1) if w != "fetch_update" else None
    t = ity(c)
    if w == "store":
        put(c, r, x)
        return T.UNIT
    if w == "swap":
        put(c, r, x)
        return old
    if w in ("compare_exchange", "compare_exchange_weak"):
        k = T.ite(old, x, T.bnot(x)) if c.args[1].op in T.BOOLOPS or old.op in T.BOOLOPS else T.eq(old, x)
        put(c, r, T.ite(k, c.v(2), old))
        return T.ite(k, T.ctor("core::result::Result::Ok", [old], 0), T.ctor("core::result::Result::Err", [old], 1))
    if w == "fetch_add" and t:
        new = T.icast(t, T.add(old, x))
    elif w == "fetch_sub" and t:
        new = T.icast(t, T.sub(old, x))
    elif w == "fetch_max" and t:
        new = T.mx(old, x)
    elif w == "fetch_min" and t:
        new = T.mn(old, x)
    elif w in ("fetch_or", "fetch_and", "fetch_xor", "fetch_not") and t is None:
        new = {"fetch_or": lambda: T.bor(old, x), "fetch_and": lambda: T.band(old, x), "fetch_not": lambda: T.bnot(old),
               "fetch_xor": lambda: T.ite(old, T.bnot(x), x)}[w]()
    else:
        raise Unsup(c.path)
    put(c, r, new)
    return old


# ---------------------------------------------------------------- write-once places

@rx(ONCE + r"::(new|get|set|get_or_init|into_inner|take|get_mut)")
def _once(c, w):
    if w == "new":
        return T.none
    r = place(c)
    old = c.E.val(c.st, r)
    k = T.eq(T.discr(old), T.I(1))
    held = T.fld(T.assume(old, k, True), "Some", 0, sort_of(c.ty[0]) if c.ty else None)
    if w in ("get", "into_inner"):
        return old
    if w == "take":
        put(c, r, T.none)
        return old
    if w == "set":
        x = c.v(1)
        put(c, r, T.ite(k, old, T.some(x)))
        return T.ite(k, T.ctor("core::result::Result::Err", [x], 1), T.ctor("core::result::Result::Ok", [T.UNIT], 0))
    if w == "get_or_init":
        def first():
            v = c.call(c.args[1])
            if v is None:
                return None
            v = c.E.val(c.st, v)
            put(c, r, T.some(v))
            return v
        return branch2(c, k, lambda: held, first)
    raise Unsup(c.path)


@rx(r"(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)::(new|force)")
def _lazy(c, w):
    if w == "new":
        return T.ctor("Lazy", [c.args[0]])
    return force(c)


@rx(r"<(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell) as core::ops::deref::Deref>::deref")
def _lazyderef(c):
    return force(c)


def force(c):
    x = c.v(0)
    if x.op != "ctor" or x.args[0] != "Lazy":
        raise Unsup("lazy value")
    f = x.args[1][0]
    if f.op == "clo" and f.args[1]:
        raise Unsup("lazy value with captures")
    return c.call(f)


# the guards' own models come before the general one for DerefMut
_mine = [x for x in RX if x[1] is _guard]
RX[:] = _mine + [x for x in RX if x[1] is not _guard]
