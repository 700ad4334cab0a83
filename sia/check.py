"""python3 -m sia.check <property>...: decides properties from /repo's current source."""
import importlib
import os
import sys
import time
import traceback

from . import common, facts, prog

MODULES = ["effects", "loops", "codec", "stego", "quant", "moments", "pipeline", "image", "outer"]


def registry():
    reg = {}
    for m in MODULES:
        mod = importlib.import_module("sia.props." + m)
        for pid, fn in mod.CHECKS.items():
            reg.setdefault(pid, []).append((fn, getattr(mod, "TECHNIQUE", {}).get(pid, ""), getattr(mod, "ASSUME", {}).get(pid, [])))
        # obligations about another part that the property rests on
        for pid, fn in getattr(mod, "MORE", {}).items():
            reg.setdefault(pid, []).append((fn, "", []))
    return reg


def run(pid, tier, seed, P=None):
    t0 = time.time()
    if P is None:
        P = prog.load(facts.ensure())
    ctx = common.Ctx(pid, P, tier)
    tech, assume = [], []
    for fn, t, a in registry()[pid]:
        try:
            fn(ctx)
        except Exception as e:
            if os.environ.get("SIA_STRICT"):
                raise
            traceback.print_exc(limit=-4)
            ctx.undecided("analyser:" + fn.__name__, "the analyser could not finish: %s: %s" % (type(e).__name__, str(e)[:200]))
        tech.append(t)
        assume += a
    assume = assume + ["the analysed program is the one the compiler sees for the host target without test configuration",
                       "library functions outside the workspace behave as their documentation says (models listed in DESIGN.md)"]
    return common.finish(ctx, " ".join(t for t in tech if t), time.time() - t0, seed, assume)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        argv = [a for a in argv if a != "--thorough"]
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    reg = registry()
    pids = argv or sorted(reg)
    rc = 0
    sys.setrecursionlimit(20000)
    for pid in pids:
        try:
            r = run(pid, tier, seed)
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if r != 1 or rc == 0 else rc
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
