"""Development aid: does folding the graph of each small program of mt.rs give what the program computes?

Not a check: it runs the small programs natively, to validate the analyser's models of the standard library.
"""
import json, os, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/mt"
SRC = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1].endswith(".rs") else os.path.join(HERE, "mt.rs")
ONLY = [a for a in sys.argv[1:] if not a.endswith(".rs")]
if not os.path.isdir(W):
    shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
shutil.copy(SRC, W + "/lib/sia/rust/utils/src/mt.rs")
lib = W + "/lib/sia/rust/utils/src/lib.rs"
s = open("/repo/lib/sia/rust/utils/src/lib.rs").read()
open(lib, "w").write(s + "\npub mod mt;\n")
fns = re.findall(r"pub fn (\w+)\(s: Vec<u8>, n: usize, i: i64, f: f64\) -> (\w+)", open(SRC).read())
import random
r = random.Random(5)
pts = []
for k in range(40):
    m = r.choice([0, 1, 2, 3, 5, 8, 13])
    t = [r.choice([0, 1, 7, 50, 100, 101, 255, r.randrange(256)]) for _ in range(m)]
    if k % 4 == 0:
        t.sort()
    pts.append((t, r.choice([0, 1, 2, 3, 7, 8, 64, 100, 1000, r.randrange(70000)]), r.choice([0, 1, -1, -7, 8, 300, -129, r.randrange(-10**6, 10**6)]), r.choice([0.0, 1.5, -2.25, 0.1, 1e-3, 100.0, -0.5, r.uniform(-50, 50)])))
main = "fn lit<T: std::fmt::Debug>(r: std::thread::Result<T>) -> String { match r { Ok(x) => format!(\"{:?}\", x), Err(_) => \"panic\".into() } }\nfn main() { std::panic::set_hook(Box::new(|_| {}));\n"
for nm, ty in fns:
    for (t, n, i, f) in pts:
        main += 'println!("%s\\t{}", lit(std::panic::catch_unwind(|| utils::mt::%s(vec!%s, %d, %d, %r))));\n' % (nm, nm, t, n, i, f)
main += "}\n"
os.makedirs("/tmp/mtn/src", exist_ok=True)
open("/tmp/mtn/src/main.rs", "w").write(main)
open("/tmp/mtn/Cargo.toml", "w").write('[package]\nname="mtn"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\nutils={path="%s/lib/sia/rust/utils"}\n' % W)
shutil.copy("/repo/Cargo.lock", "/tmp/mtn/Cargo.lock") if os.path.exists("/repo/Cargo.lock") else None
o = subprocess.run("cargo run --offline -q", shell=True, cwd="/tmp/mtn", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable"))
if o.returncode:
    print(o.stderr[-3000:]); sys.exit(1)
want = {}
for l in o.stdout.splitlines():
    a, b = l.split("\t")
    want.setdefault(a, []).append(b)
os.environ["SIA_REPO"] = W
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def go():
    from sia import prog, facts, terms as T, interp as N, oblig as O, exec as X
    P = prog.load(facts.ensure())

    class C:
        tier = "quick"
        def __getattr__(self, n):
            if n.startswith("_"):
                raise AttributeError
            return lambda *a, **k: None
    c = C(); c.P = P
    good = bad = 0
    for nm, ty in fns:
        if ONLY and nm not in ONLY:
            continue
        try:
            p = O.Prog(c)
            v = p.call("utils::mt::" + nm, T.sym("s", "seq:u8"), T.sym("n", "usize"), T.sym("i", "i64"), T.sym("f", "f64"))
        except X.Unsup as e:
            print(nm, "UNSUP", str(e)[:150]); bad += 1; continue
        except Exception as e:
            print(nm, "CRASH", repr(e)[:150]); bad += 1
            if ONLY: raise
            continue
        if ONLY:
            print(nm, T.show(v)[:1500])
        ops = {x for t in [v] + [q[1] for q in p.E.panics] if t is not None for x in N.opaques(t) if x not in N.INTERP} | set(p.E.opaque)
        if ops:
            print(nm, "OPAQUE", ops)
        out = p.out(v)
        N.BAD.clear()
        N.BAD.update(ops)
        res = "ok"
        for pt, w in zip(pts, want[nm]):
            val = {"s": O.seq(pt[0]), "n": pt[1], "i": pt[2], "f": pt[3]}
            try:
                pn = O.panics_at(out, val)
                g = "panic" if pn else N.Fold(val).ev(v)
            except N.Undef as e:
                g = "undef"
            except N.Stuck as e:
                res = "STUCK " + str(e); break
            except Exception as e:
                res = "CRASH " + repr(e)[:100]; break
            if w == "panic":
                okp = g in ("panic", "undef")
            elif ty == "f64":
                okp = isinstance(g, float) and N.same(g, float(w.replace("inf", "inf")))
            else:
                okp = g is (w == "true") if ty == "bool" else g == int(w)
            if not okp:
                res = "WRONG %s got %s want %s" % (pt, g, w); break
        good += res == "ok" and not ops
        bad += res != "ok" or bool(ops)
        if res != "ok":
            print(nm, res[:300])
    print("%d good, %d bad" % (good, bad))


t = threading.Thread(target=go); t.start(); t.join()
