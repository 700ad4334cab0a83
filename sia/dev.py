"""Development aid: print the value graph of one function."""
import sys
import time

from . import exec as X, facts, prog, terms as T
from . import oblig  # noqa: F401
from .exec import sort_of


def symarg(name, ty):
    from .models import cx
    s = sort_of(ty)
    if s == "cplx":
        return T.ctor("cplx", [T.sym(name + ".re", "f64"), T.sym(name + ".im", "f64")])
    return T.sym(name, s)


def run(P, friendly, boundary=(), models=None, args=None):
    b = P.find(friendly)
    E = X.Engine(P, boundary, models)
    st = X.State()
    av = []
    for i in range(b.argc):
        ty = b.locals[i + 1]
        v = args[i] if args and args[i] is not None else symarg("a%d" % (i + 1), ty)
        if ty["k"] == "ref" and ty.get("mut"):
            v = E.new_cell(st, v)
        av.append(v)
    r, s2 = E.call_body(b, av, st, {})
    return E, av, r, s2


if __name__ == "__main__":
    P = prog.load(facts.ensure())
    for f in sys.argv[1:]:
        t0 = time.time()
        try:
            E, av, r, s2 = run(P, f)
        except X.Unsup as e:
            print(f, "UNSUP", e)
            continue
        print("==", f, "%.2fs" % (time.time() - t0))
        print(r)
        for k, a in enumerate(av):
            if a.op == "mref":
                print("  *a%d = %s" % (k + 1, E.val(s2, a) if s2 else None))
        for p in E.panics:
            print("  panic when", p[1], p[2], p[3])
        print("  opaque", E.opaque)
