"""Effect, state, unsafe-code and secret-flow rules (C03, C04, C05, C06) and the random source
half of C26.

All of them are queries over the typed MIR: which functions a body mentions, which statics and
casts it uses, and (C03) an interprocedural taint analysis.  Every rule is first run over the
positive fixture (/verif/fixtures/positive), where it must match.
"""
import functools

from .. import facts, prog

TECHNIQUE = {
    "C03": "Interprocedural, context-sensitive taint analysis over MIR from the signing key to every output.",
    "C04": "Effect analysis: no function the libraries can run mentions a nondeterminism source, and no static carries state between calls.",
    "C05": "Effect analysis over all callees the compiler resolved: no file, network, process, thread, environment or input access outside the tool.",
    "C06": "Lint over HIR and MIR: no hand-written unsafe block, function, impl, extern item or mutable global.",
    "C26": "Callee query: key generation is instantiated with the OS random source only.",
}
ASSUME = {
    "C03": ["Signer::sign, PublicKey values, lengths and booleans do not reveal the key (declassified by type)"],
    "C04": ["third-party crates called by the libraries are themselves deterministic functions of their arguments"],
    "C05": ["third-party crates called by the libraries have no outside effects other than those of the listed functions"],
    "C06": ["unsafe code inside external macros and third-party crates is sound (out of scope: not hand-written here)"],
}

CATS = [
    ("clock", ("std::time::Instant::", "std::time::SystemTime::", "js_sys::Date", "web_sys::Performance", "core::time::Instant")),
    ("environment", ("std::env::",)),
    ("random", ("rand::", "rand_core::", "rand_chacha::", "getrandom::", "<rand::", "<rand_core::", "<rand_chacha", "js_sys::Math::random",
                "fastrand::", "std::random::", "core::random::", "std::hash::random::RandomState::", "<std::hash::random::RandomState")),
    ("files", ("std::fs::", "<std::fs::", "std::path::Path::exists", "std::path::Path::is_dir", "std::path::Path::is_file",
               "std::path::Path::canonicalize", "std::path::Path::metadata", "std::path::Path::symlink_metadata",
               "std::path::Path::read_dir", "std::path::Path::read_link", "std::path::Path::try_exists", "std::path::Path::is_symlink",
               "std::path::absolute",
               "image::dynimage::open", "image::dynimage::save_buffer", "image::dynimage::DynamicImage::save",
               "image::buffer_::ImageBuffer::save", "image::io::reader::Reader::open", "image::io::free_functions::save",
               "image::dynimage::image_dimensions", "image::io::free_functions::image_dimensions", "tempfile::")),
    ("network", ("std::net::", "<std::net::", "std::os::unix::net", "web_sys::")),
    ("process", ("std::process::", "<std::process::", "std::os::unix::process")),
    ("threads", ("std::thread::functions::", "std::thread::spawn", "std::thread::Builder", "std::thread::builder::", "std::thread::scoped::",
                 "std::thread::current", "std::thread::id", "std::thread::thread::", "rayon::", "rayon_core::", "std::thread::available_parallelism")),
    ("input", ("std::io::stdio::stdin", "std::io::stdio::Stdin", "<std::io::stdio::Stdin", "std::io::stdin")),
    ("thread state", ("std::thread::local::LocalKey::",)),
]
HASHY = ("std::collections::hash::map::", "std::collections::hash::set::", "hashbrown::")
HASHITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter", "drain", "retain",
            "extract_if", "union", "intersection", "difference", "symmetric_difference", "next", "fmt"}


def categorise(path):
    out = []
    for c, pre in CATS:
        if path.startswith(pre):
            out.append(c)
    p = path[1:].lstrip("&") if path.startswith("<") else path
    if p.startswith(HASHY) and path.rsplit("::", 1)[-1] in HASHITER:
        out.append("hash order")
    if path.endswith("fmt::rt::Argument::new_pointer") or path.endswith(("_ptr::addr", "::expose_provenance", "::align_offset", "::is_aligned", "::align_to", "::align_to_mut", "::as_ptr_range",
                                                                                         "_ptr::offset_from", "_ptr::to_raw_parts")):
        out.append("address")
    return out


def in_types(f):
    """types the callee is instantiated with"""
    return " ".join(prog.tystr(a) for a in (f.get("resargs") or f.get("args") or []) if isinstance(a, dict))


def scan(P, crates, skip_expanded=True):
    """[(category, body, callee, span)], number of bodies, number of callees looked at"""
    hits, nb, nc = [], 0, 0
    for b in P.fns():
        if b.crate not in crates or (skip_expanded and b.expanded and b.crate == "web"):
            continue
        nb += 1
        for path, key, f, sp in P.functions_mentioned(b):
            nc += 1
            if key in P.bodies:
                continue
            for c in categorise(path):
                hits.append((c, b, path, sp))
            ty = in_types(f)
            for t in ("rand_core::os::OsRng", "rand::rngs::", "rand_chacha::", "getrandom::"):
                if t in ty:
                    hits.append(("random", b, path + "<" + ty + ">", sp))
                    break
        for i in b.live_blocks():
            for s in b.blocks[i]["st"]:
                if s[0] != "assign":
                    continue
                rv = s[2]
                if rv[0] == "cast" and rv[1] == "PointerExposeProvenance":
                    hits.append(("address", b, "cast of a pointer to an integer", s[3]))
        cs = []
        for i in b.live_blocks():
            prog.consts_in(b.blocks[i]["st"], cs)
            prog.consts_in(b.blocks[i]["t"], cs)
        for c in cs:
            if "static" in c:
                hits.append(("static", b, c["static"], b.span))
    return hits, nb, nc


def _optype(b, op):
    if op[0] in ("copy", "move") and not op[1][1]:
        return b.locals[op[1][0]]
    if op[0] == "const":
        return op[1].get("ty", {})
    return {}


def statics(P):
    return {i["key"]: i for i in P.items if i["kind"].startswith("Static")}


WRITE_ONCE = ("std::sync::lazy_lock::LazyLock", "std::sync::once_lock::OnceLock", "core::cell::once::OnceCell", "core::cell::lazy::LazyCell",
              "std::sync::poison::once::Once", "once_cell::sync::Lazy", "lazy_static::lazy::Lazy")


def state_static(P, key):
    """None when the static cannot carry state between calls, else the reason"""
    i = statics(P).get(key)
    if i is None:
        return None
    if i.get("mut"):
        return "mutable static"
    if i.get("freeze"):
        return None
    t = i.get("ty", {})
    if t.get("k") == "adt" and t["path"] in WRITE_ONCE:
        return None
    return "static with interior mutability (%s)" % prog.tystr(t)


def once_init_captures(P, b):
    """get_or_init with a closure that captures: the stored value depends on the first caller"""
    out = []
    for c in b.calls():
        if c.name in ("get_or_init", "get_or_try_init", "call_once", "set") and c.path and ("OnceLock" in c.path or "OnceCell" in c.path or "Once::" in c.path):
            if c.name == "set":
                out.append(c)
                continue
            ty = c.args[1] if len(c.args) > 1 else None
            t = _optype(b, ty) if ty else {}
            if t.get("k") == "closure":
                cb = P.bodies.get(t["def"])
                if cb is None or _captures(cb):
                    out.append(c)
    return out


def _captures(cb):
    """does a closure body read its environment?"""
    def walk(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 1 and isinstance(o[1], list):
                return True
            return any(walk(x) for x in o)
        return False
    return any(walk(x["st"]) or walk(x["t"]) for x in cb.blocks)


def fixture_hits(ctx, cats):
    """every category must match in the positive fixture"""
    PF = prog.load(facts.ensure_fixture())
    hits, _, _ = scan(PF, set(PF.crates), False)
    got = {h[0] for h in hits}
    ctx.count("positive examples matched", len(got))
    for c in cats:
        if c not in got:
            ctx.violation("fixture:" + c, "the rule for '%s' no longer matches its positive example" % c)
    return PF


def rev_reach(P, key):
    g = P.callgraph()
    inv = {}
    for a, bs in g.items():
        for b in bs:
            inv.setdefault(b, set()).add(a)
    seen, st = {key}, [key]
    while st:
        for n in inv.get(st.pop(), ()):
            if n not in seen:
                seen.add(n)
                st.append(n)
    return seen


def keygen_only(P, body):
    """is the body run by key generation only?"""
    gen = P.find("signature::keypair::generate")
    if gen is None:
        return False
    below = P.reach([gen.key])
    return all(k in below for k in rev_reach(P, body.key))


# ------------------------------------------------------------------------------ C04 / C05 / C06

def library_crates(P):
    return [c for c in P.crates if c != "cli"]


def c04(ctx):
    P = ctx.P
    ctx.rule("no body of a library or of the web module mentions a clock, random, environment, file, network, process, thread-state, "
             "input, hash-iteration or address source (key generation may use the random source)")
    ctx.rule("no body uses a static that can change between calls; a write-once static is initialised without captured values")
    fixture_hits(ctx, ["clock", "environment", "hash order", "address", "static", "thread state"])
    hits, nb, nc = scan(P, library_crates(P))
    ctx.floor("bodies scanned", nb, 60)
    ctx.floor("function mentions scanned", nc, 350)
    bad = 0
    for c, b, path, sp in hits:
        if c == "static":
            why = state_static(P, path)
            if why:
                bad += 1
                ctx.violation("state:%s:%s" % (b.friendly, path), "%s at %s uses %s, a %s: its result can depend on earlier calls" % (
                    b.friendly, sp, path, why))
            continue
        if c == "random" and keygen_only(P, b):
            continue
        bad += 1
        ctx.violation("%s:%s:%s" % (c, b.friendly, path), "%s at %s uses %s (%s): results are not a function of the arguments" % (
            b.friendly, sp, path, c))
    for b in P.fns():
        if b.crate == "cli":
            continue
        for c in once_init_captures(P, b):
            bad += 1
            ctx.violation("once:%s" % b.friendly, "%s at %s stores a value of this call in a write-once static: later calls see it" % (b.friendly, c.span))
    if not bad:
        ctx.proved("no nondeterminism source or carried state in %d bodies" % nb)


def c05(ctx):
    P = ctx.P
    ctx.rule("library and web bodies mention no file, network, process, thread, environment or input function")
    ctx.rule("tool bodies mention no network function and no process function other than exit")
    fixture_hits(ctx, ["files", "network", "process", "threads", "environment"])
    libs = library_crates(P)
    hits, nb, nc = scan(P, libs)
    ctx.floor("library bodies scanned", nb, 60)
    ctx.floor("function mentions scanned", nc, 350)
    bad = 0
    for c, b, path, sp in hits:
        if c in ("files", "network", "process", "threads", "environment", "input"):
            bad += 1
            ctx.violation("%s:%s:%s" % (c, b.friendly, path), "%s at %s calls %s: an outside effect (%s) inside a library" % (b.friendly, sp, path, c))
    hits, n2, _ = scan(P, ["cli"])
    ctx.floor("tool bodies scanned", n2, 4)
    seen_files = 0
    for c, b, path, sp in hits:
        if c == "files":
            seen_files += 1
        if c in ("network", "threads", "input") or (c == "process" and path != "std::process::exit"):
            bad += 1
            ctx.violation("%s:%s:%s" % (c, b.friendly, path), "%s at %s calls %s (%s) in the tool" % (b.friendly, sp, path, c))
    ctx.floor("file accesses seen in the tool", seen_files, 2)
    if not bad:
        ctx.proved("no outside effect in %d library bodies; the tool only uses files" % nb)


def user_unsafe(P):
    """hand-written unsafe code: blocks, functions, impls, foreign items, mutable globals"""
    out = []
    for u in P.unsafe:
        if u["user"] and u["macro"] is None:
            out.append(("unsafe " + u["what"], u["crate"] + ":" + str(u.get("owner")), u["span"]))
    for i in P.items:
        if i.get("macro") in ("wasm_bindgen",) or (i["expanded"] and i.get("macro")):
            continue
        if i.get("unsafe"):
            out.append(("unsafe item", i["key"], i["span"]))
        if i["kind"] == "ForeignMod":
            out.append(("foreign functions", i["key"], i["span"]))
        if i.get("mut"):
            out.append(("mutable static", i["key"], i["span"]))
        elif i["kind"].startswith("Static") and not i.get("freeze"):
            t = i.get("ty", {})
            if not (t.get("k") == "adt" and t["path"] in WRITE_ONCE):
                out.append(("static with interior mutability", i["key"], i["span"]))
    for i in P.items:
        if i["expanded"] and i.get("macro") == "thread_local" and i["kind"] == "Const":
            out.append(("thread-local state", i["key"], i["span"]))
    return out


def c06(ctx):
    P = ctx.P
    ctx.rule("no unsafe block whose tokens were written in this repository (local macros included), no unsafe fn/impl, no foreign block, "
             "no mutable or interior-mutable global (write-once statics excepted)")
    PF = prog.load(facts.ensure_fixture())
    kinds = {k for k, _, _ in user_unsafe(PF)}
    for k in ("unsafe block", "unsafe item", "foreign functions", "mutable static", "static with interior mutability", "thread-local state"):
        if k not in kinds:
            ctx.violation("fixture:" + k, "the rule for '%s' no longer matches its positive example" % k)
    ctx.count("positive examples matched", len(kinds))
    ctx.floor("items scanned", len(P.items), 300)
    ctx.floor("unsafe blocks classified", len(P.unsafe), 40)
    bad = user_unsafe(P)
    for k, name, sp in bad:
        ctx.violation("%s:%s" % (k.replace(" ", "_"), name), "%s in %s at %s" % (k, name, sp))
    if not bad:
        ctx.proved("no hand-written unsafe code or mutable global among %d items" % len(P.items))


def c26(ctx):
    P = ctx.P
    ctx.rule("every instantiation of Keypair::generate (and of SecretKey::generate) names rand_core::os::OsRng as its source, and the "
             "secret is not built from constants")
    n = 0
    for b in P.fns():
        for path, key, f, sp in P.functions_mentioned(b):
            if path.endswith("Keypair::generate") or path.endswith("SecretKey::generate"):
                ty = in_types(f)
                if "rand_core::os::OsRng" in ty or "rand::rngs::OsRng" in ty:
                    n += 1
                    ctx.proved("%s draws from %s" % (b.friendly, ty))
                else:
                    ctx.violation("source:%s" % b.friendly, "%s at %s generates a key from %s, not from the operating system's random source" % (
                        b.friendly, sp, ty))
                    n += 1
            elif path.startswith(("rand::rngs::std", "rand_chacha::", "rand::rngs::mock", "rand::rngs::small", "<rand::rngs::std", "<rand_chacha")) or \
                    path.split("::")[-1] in ("seed_from_u64", "from_seed"):
                ctx.violation("seeded:%s" % b.friendly, "%s at %s builds a generator by %s" % (b.friendly, sp, path))
    gen = ctx.anchor("signature::keypair::generate")
    ctx.floor("key generation sites", n, 1)
    if gen is not None:
        below = P.reach([gen.key])
        ok = any(p.endswith("::generate") and "dalek" in p for k in below for p, _, _, _ in P.functions_mentioned(P.bodies[k]))
        # the generated pair may be assembled from SecretKey::from_bytes(OS bytes): accept only OsRng fills
        if not ok:
            ctx.violation("generate:source", "signature::keypair::generate does not reach Keypair::generate: the secret does not come from the OS source")


# ------------------------------------------------------------------------------ C03

CLEAN_TYPES = {"ed25519::Signature", "ed25519_dalek::public::PublicKey", "ed25519_dalek::signature::Signature", "signature::error::Error",
               "ed25519::Error", "core::num::error::ParseIntError"}
SINKS = ("std::io::stdio::_print", "std::io::stdio::_eprint", "core::panicking::panic_fmt", "core::panicking::panic_display",
         "std::rt::panic_fmt", "core::panicking::panic", "std::panicking::begin_panic", "core::panicking::assert_failed", "std::process::exit",
         "core::option::expect_failed", "core::result::unwrap_failed", "wasm_bindgen::throw_str")


def clean_type(t, depth=0):
    """can a value of this type not carry the key?"""
    if t is None or depth > 6:
        return False
    k = t["k"]
    if k in ("bool", "never", "fndef"):
        return True
    if k in ("ref", "ptr"):
        return clean_type(t["to"], depth + 1)
    if k == "adt":
        if t["path"] in CLEAN_TYPES:
            return True
        if t["path"] in ("core::option::Option", "core::result::Result"):
            return all(clean_type(a, depth + 1) for a in t["args"])
    if k == "tuple":
        return all(clean_type(a, depth + 1) for a in t["of"])
    return False


LENGTHS = {"len", "capacity", "count", "size_hint", "is_empty"}
STREAMS = ("Stdout", "Stderr", "File", "TcpStream", "UdpSocket", "UnixStream", "BufWriter", "LineWriter", "ChildStdin")
OUTSIDE = ("std::env::set", "std::process::", "<std::process::", "std::os::", "std::thread::builder::", "web_sys::", "js_sys::global", "std::net::",
           "<std::net::", "std::sync::mpsc::")


def place_like(t):
    """a number found in a structure beside the key: a position or a length"""
    return clean_type(t) or t is not None and t["k"] in ("int", "float") and t.get("n") not in ("u8", "i8")


def streams(t):
    return any(x in prog.tystr(t) for x in STREAMS)


def texty(t):
    s = prog.tystr(t)
    return "String" in s or "str" in s or "Vec" in s or "[u8" in s


def static_strings(P, key):
    b = P.bodies.get(key)
    if b is None:
        return set()
    cs = []
    for x in b.blocks:
        prog.consts_in(x["st"], cs)
    return {c["str"] for c in cs if "str" in c}


def const_body(P, c):
    """the body that computes a constant which is not written down in the operand itself"""
    for k in (c.get("static"), c.get("promoted"), c.get("named") if "str" not in c else None):
        if isinstance(k, str) and k in P.bodies:
            return k
    return None


def first_field(p):
    """the field a place selects first"""
    for e in p[1]:
        if e[0] == "field":
            return e[1]
        if e[0] not in ("deref", "downcast"):
            return None
    return None


def whole(p):
    return all(e[0] == "deref" for e in p[1])


class Taint:
    """context-sensitive, flow-insensitive taint; one analysis per (body, tainted parameters)"""

    def __init__(self, P, secrets, secret_fields):
        self.P = P
        self.secrets = secrets            # secret strings
        self.fields = secret_fields       # type paths whose values are secret
        self.memo = {}
        self.stack = set()
        self.sinks = {}

    def is_secret_const(self, c):
        s = c.get("str")
        if s is not None:
            return any(len(k) >= 8 and (k in s or (len(s) >= 16 and s in k)) for k in self.secrets)
        if "bytes" in c and isinstance(c["bytes"], str):
            return False
        if isinstance(c.get("static"), str):
            return any(k == x or len(k) >= 8 and k in x for x in static_strings(self.P, c["static"]) for k in self.secrets)
        if "promoted" in c or "fields" in c:
            return self._const_fields(c)
        return False

    def _const_fields(self, c):
        cs = []
        prog.consts_in(c.get("fields", []), cs)
        if any(self.is_secret_const(x) for x in cs):
            return True
        p = c.get("promoted")
        b = self.P.bodies.get(p) if isinstance(p, str) else None
        if b is not None:
            cs = []
            for x in b.blocks:
                prog.consts_in(x["st"], cs)
            return any("str" in y and self.is_secret_const(y) for y in cs)
        return False

    def analyse(self, key, tainted):
        """returns (return value tainted, tainted by-ref params)"""
        k = (key, tainted)
        if k in self.memo:
            return self.memo[k]
        if k in self.stack:
            return (False, frozenset())
        self.stack.add(k)
        b = self.P.bodies[key]
        T = {p for p in tainted}
        for i, t in enumerate(b.locals):
            base = t
            while base["k"] in ("ref", "ptr"):
                base = base["to"]
            if base["k"] == "adt" and base["path"] in self.fields and i > b.argc:
                T.add(i)
        changed = True

        def parts(p):
            """tainted fields of a place named as a whole"""
            if p[0] in T or not whole(p):
                return []
            return [x[1] for x in T if isinstance(x, tuple) and x[0] == p[0]]

        def place_t(p):
            if p[0] not in T:
                f = first_field(p)
                if f is None:
                    return bool([x for x in T if isinstance(x, tuple) and x[0] == p[0]])
                if (p[0], f) not in T:
                    return False
            if True:
                # a projection to a public half is clean
                t = b.locals[p[0]]
                checked = t["k"] == "tuple" and len(t["of"]) == 2 and t["of"][0]["k"] == "int" and t["of"][1]["k"] == "bool"
                for e in p[1]:
                    if e[0] == "field" and isinstance(e[2], dict) and (clean_type(e[2]) or not checked and place_like(e[2])):
                        return False
                return True
            return False

        def op_t(o):
            if o[0] in ("copy", "move"):
                return place_t(o[1])
            if o[0] == "const":
                return bool(self.const_t(o[1]))
            return False

        def rv_t(rv):
            k = rv[0]
            if k in ("use", "repeat"):
                return op_t(rv[1])
            if k in ("ref", "rawptr"):
                pl = rv[-1] if k == "ref" else rv[1]
                return place_t(pl)
            if k == "cast":
                return op_t(rv[2])
            if k == "bin":
                return op_t(rv[2]) or op_t(rv[3])
            if k == "un":
                return op_t(rv[2])
            if k == "array":
                return any(op_t(o) for o in rv[2])
            if k == "tuple":
                return any(op_t(o) for o in rv[1])
            if k == "adt":
                return any(op_t(o) for o in rv[6])
            if k == "closure":
                return any(op_t(o) for o in rv[2])
            return False

        refs = {}     # local -> (local, field) it may point to
        for i in b.live_blocks():
            for s in b.blocks[i]["st"]:
                if s[0] == "assign" and s[2][0] in ("ref", "rawptr") and not s[1][1]:
                    pl = s[2][-1] if s[2][0] == "ref" else s[2][1]
                    refs.setdefault(s[1][0], set()).add((pl[0], first_field(pl)))
                elif s[0] == "assign" and s[2][0] in ("use", "cast") and not s[1][1]:
                    o = s[2][1] if s[2][0] == "use" else s[2][2]
                    if o[0] in ("copy", "move") and not o[1][1]:
                        refs.setdefault(s[1][0], set()).add((o[1][0], None))

        def mark(l, f=None):
            """taint l (or one field of it) and whatever it may point to"""
            nonlocal changed
            st = [(l, f)]
            while st:
                x, f = st.pop()
                if x in T or f is not None and (x, f) in T:
                    continue
                T.add(x if f is None else (x, f))
                changed = True
                if b.locals[x]["k"] in ("ref", "ptr"):
                    st.extend((y, g if g is not None else f) for y, g in refs.get(x, ()))

        def mark_from(lhs, rv):
            """what an assignment of a tainted value taints"""
            l = lhs[0]
            g = first_field(lhs)
            if g is not None:
                return mark(l, g)
            if whole(lhs):
                k = rv[0]
                ops = rv[2] if k == "closure" else rv[6] if k == "adt" else rv[1] if k == "tuple" else None
                if ops is not None:
                    for i, o in enumerate(ops):
                        if op_t(o):
                            mark(l, i)
                    return None
                o = rv[1] if k == "use" else ["copy", rv[-1] if k == "ref" else rv[1]] if k in ("ref", "rawptr") else rv[2] if k == "cast" else None
                if o is not None and o[0] in ("copy", "move"):
                    fs = parts(o[1])
                    if fs:
                        for f in fs:
                            mark(l, f)
                        return None
                hit = self.const_t(o[1]) if o is not None and o[0] == "const" else True
                if hit is not True:
                    for f in hit:
                        mark(l, f)
                    return None
            return mark(l)

        rounds = 0
        while changed and rounds < 50:
            changed = False
            rounds += 1
            for i in sorted(b.live_blocks()):
                for s in b.blocks[i]["st"]:
                    if s[0] == "assign" and rv_t(s[2]):
                        l = s[1][0]
                        if l not in T and not (not s[1][1] and clean_type(b.locals[l])):
                            mark_from(s[1], s[2])
            for c in b.calls():
                at = [op_t(a) for a in c.args]
                if not any(at):
                    # a call may still return a secret (local function producing one)
                    if c.fn is None:
                        continue
                    key2 = self._local(c)
                    if key2 is None:
                        continue
                self.call(b, c, at, T, mark, parts)
        self.depending(b, op_t, rv_t)
        self.kept(b, op_t, rv_t, T)
        ret = True if 0 in T and not clean_type(b.locals[0]) else frozenset(x[1] for x in T if isinstance(x, tuple) and x[0] == 0)
        outp = frozenset(i for i in T if i not in tainted and 1 <= (i[0] if isinstance(i, tuple) else i) <= b.argc
                         and b.locals[i[0] if isinstance(i, tuple) else i]["k"] == "ref" and b.locals[i[0] if isinstance(i, tuple) else i].get("mut"))
        self.stack.discard(k)
        self.memo[k] = (ret, outp)
        return self.memo[k]

    def depending(self, b, op_t, rv_t):
        """prints that only happen for some digits of the key"""
        bits = set()
        for i in b.live_blocks():
            for s in b.blocks[i]["st"]:
                if s[0] == "assign" and not s[1][1] and s[2][0] == "bin" and s[2][1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and (op_t(s[2][2]) or op_t(s[2][3])):
                    if all(_optype(b, o).get("k") in ("int", "char") for o in s[2][2:4]):
                        bits.add(s[1][0])
        for i in b.live_blocks():
            t = b.blocks[i]["t"]
            if t[0] != "switch":
                continue
            o = t[1]
            num = len(t) > 4 and isinstance(t[4], dict) and t[4].get("k") in ("int", "char") and t[4].get("n") not in ("isize",)
            if not (o[0] in ("copy", "move") and (o[1][0] in bits and not o[1][1] or num and op_t(o))):
                continue
            parts = [self.beyond(b, i, x) for x in set(b.succs(i))]
            for r in parts:
                only = r - set.intersection(*parts)
                for c in b.calls():
                    if c.bb in only and c.path and (c.path in ("std::io::stdio::_print", "std::io::stdio::_eprint") or self.prints(c)):
                        self.sink(b, c, "prints depending on the digits of the key")

    def prints(self, c):
        k = self._local(c)
        return k is not None and any(x.path in ("std::io::stdio::_print", "std::io::stdio::_eprint") for y in self.P.reach([k]) if y in self.P.bodies for x in self.P.bodies[y].calls())

    def beyond(self, b, i, x):
        seen, st = {i}, [x]
        while st:
            y = st.pop()
            if y in seen or y is None:
                continue
            seen.add(y)
            st.extend(b.succs(y))
        return seen - {i}

    def kept(self, b, op_t, rv_t, T):
        """the key stored in a global that outlives the call"""
        G = set()

        def glob(o):
            if o[0] in ("copy", "move"):
                return o[1][0] in G
            cs = []
            prog.consts_in(o, cs)
            for c in cs:
                if isinstance(c.get("static"), str):
                    i = statics(self.P).get(c["static"])
                    if i is not None and (i.get("mut") or not i.get("freeze")):
                        return True
                if (c.get("ty") or {}).get("path") == "std::thread::local::LocalKey" or "LocalKey" in prog.tystr(c.get("ty") or {"k": "?"}):
                    return True
            return False
        changed = True
        while changed:
            changed = False
            for i in b.live_blocks():
                for s in b.blocks[i]["st"]:
                    if s[0] != "assign" or s[1][0] in G:
                        continue
                    rv, ops = s[2], []
                    if rv[0] in ("ref", "rawptr"):
                        ops.append(["copy", rv[-1] if rv[0] == "ref" else rv[1]])
                    else:
                        _ops(rv, ops)
                    if any(glob(o) for o in ops):
                        G.add(s[1][0])
                        changed = True
            for c in b.calls():
                if c.dest[0] not in G and any(glob(a) for a in c.args):
                    G.add(c.dest[0])
                    changed = True
        if not G:
            return
        for i in b.live_blocks():
            for s in b.blocks[i]["st"]:
                if s[0] == "assign" and s[1][0] in G and any(e[0] == "deref" for e in s[1][1]) and rv_t(s[2]):
                    self.sinks.setdefault((b.friendly, "a global"), "%s at %s keeps the key in a global" % (b.friendly, b.span))
        for c in b.calls():
            g = [k for k, a in enumerate(c.args) if glob(a)]
            if g and any(op_t(a) for k, a in enumerate(c.args) if k not in g):
                self.sink(b, c, "keeps the key in a global")

    def _local(self, c):
        if c.fn is None:
            return None
        k = c.fn.get("reskey") or c.fn["key"]
        if k in self.P.bodies:
            return k
        return None

    def const_t(self, c):
        """True, or the fields of a constant that hold the key"""
        k = const_body(self.P, c)
        if k is not None:
            return self.analyse(k, frozenset())[0]
        return self.is_secret_const(c) or frozenset()

    def call(self, b, c, at, T, mark, parts):
        path = c.path or ""
        args = c.args
        if any(at) and path in SINKS and path not in ("core::panicking::panic",):
            self.sink(b, c, "prints or panics with the key (%s)" % path)
        if any(at) and (path.startswith("std::fs::") or path.startswith("<std::fs::") or path.startswith("std::net::") or "write_to" in path):
            self.sink(b, c, "writes the key outside (%s)" % path)
        if any(at) and path.startswith(OUTSIDE) and path not in SINKS:
            self.sink(b, c, "hands the key to the system (%s)" % path)
        if any(at[1:]) and c.name and c.name.startswith("write") and streams(_optype(b, args[0])):
            self.sink(b, c, "writes the key outside (%s)" % path)
        if any(at) and c.name in ("unwrap", "expect") and path.startswith("core::result::Result::"):
            t = _optype(b, args[0])
            if t.get("k") == "adt" and len(t["args"]) == 2 and texty(t["args"][1]):
                self.sink(b, c, "panics with the key in its error value")
        if any(at[1:]) and c.name in ("expect", "expect_err"):
            self.sink(b, c, "panics with the key as its message")
        key = self._local(c)
        dest = c.dest
        if key is not None:
            cal = self.P.bodies[key]
            tp = set()
            for i, x in enumerate(at):
                if not x or i >= cal.argc:
                    continue
                fs = parts(args[i][1]) if args[i][0] in ("copy", "move") else []
                tp |= {(i + 1, f) for f in fs} if fs and cal.kind != "closure" else {i + 1}
            tp = frozenset(tp)
            ret, outp = self.analyse(key, tp)
            if cal.friendly.endswith("logging::log") and any(at):
                self.sink(b, c, "logs the key")
            if ret and not clean_type(b.locals[dest[0]] if not dest[1] else None):
                if ret is True or dest[1]:
                    mark(dest[0])
                else:
                    for f in ret:
                        mark(dest[0], f)
            for p in outp:
                p, f = p if isinstance(p, tuple) else (p, None)
                a = args[p - 1]
                if a[0] in ("copy", "move"):
                    mark(a[1][0], f if whole(a[1]) else first_field(a[1]))
            return
        if not any(at):
            return
        # external or indirect: the result and every mutable argument may carry the key
        for a in args:
            # a closure given to an external function runs on the tainted data
            t = _optype(b, a)
            if t.get("k") == "closure" and t["def"] in self.P.bodies:
                cb = self.P.bodies[t["def"]]
                r, _ = self.analyse(t["def"], frozenset(range(2, cb.argc + 1)) | (frozenset([1]) if op_is_tainted(a, T) else frozenset()))
        if c.name == "sign" and "Signer" in path:
            return
        dt = b.locals[dest[0]]
        if not (not dest[1] and (clean_type(dt) or c.name in LENGTHS and dt["k"] in ("int", "tuple"))):
            mark(dest[0])
        for a in args:
            if a[0] in ("copy", "move") and not a[1][1]:
                t = b.locals[a[1][0]]
                if t["k"] == "ref" and t.get("mut"):
                    mark(a[1][0])

    def sink(self, b, c, why):
        self.sinks.setdefault((b.friendly, c.path), "%s at %s %s" % (b.friendly, c.span, why))


def op_is_tainted(a, T):
    return a[0] in ("copy", "move") and (a[1][0] in T or any(isinstance(x, tuple) and x[0] == a[1][0] for x in T))


def backward_strings(P, b, op, seen=None, depth=0, fld=None):
    """string constants that may reach an operand (or its field `fld`) inside a body (copies, references, conversions)"""
    seen = seen if seen is not None else set()
    out = set()
    if op[0] == "const":
        c = op[1]
        if "str" in c:
            out.add(c["str"])
        elif const_body(P, c) is not None:
            out |= backward_strings(P, P.bodies[const_body(P, c)], ["copy", [0, []]], seen, depth + 1, fld)
        elif isinstance(c.get("fields"), list):
            cs = []
            fs = c["fields"]
            prog.consts_in([["const", x] if isinstance(x, dict) else x for x in (fs if fld is None or fld >= len(fs) else [fs[fld]])], cs)
            out |= {x["str"] for x in cs if "str" in x}
        return out
    l = op[1][0]
    f = first_field(op[1])
    f = f if f is not None else fld if whole(op[1]) else None
    if (b.key, l, f) in seen or depth > 40:
        return out
    seen.add((b.key, l, f))
    if 1 <= l <= b.argc:
        # argument: look at every caller
        for o in P.fns():
            for c in o.calls():
                if c.fn and (c.fn.get("reskey") or c.fn["key"]) == b.key and len(c.args) >= l:
                    out |= backward_strings(P, o, c.args[l - 1], seen, depth + 1, f)
        return out
    for i in b.live_blocks():
        for s in b.blocks[i]["st"]:
            if s[0] == "assign" and s[1][0] == l:
                g = first_field(s[1])
                if g is not None and f is not None and g != f:
                    continue
                rv = s[2]
                k = rv[0]
                parts = rv[2] if k == "closure" else rv[6] if k == "adt" else rv[1] if k == "tuple" else None
                if parts is not None and g is None and f is not None and f < len(parts):
                    out |= backward_strings(P, b, parts[f], seen, depth + 1)
                    continue
                ops = []
                if k in ("ref", "rawptr"):
                    ops.append(["copy", rv[-1] if k == "ref" else rv[1]])
                else:
                    _ops(rv, ops)
                for o in ops:
                    out |= backward_strings(P, b, o, seen, depth + 1, f if g is None and k in ("use", "ref", "rawptr", "cast") else None)
    for c in b.calls():
        if c.dest[0] == l:
            k = c.fn and (c.fn.get("reskey") or c.fn["key"])
            if k in P.bodies:
                out |= backward_strings(P, P.bodies[k], ["copy", [0, []]], seen, depth + 1, f)
                if out:
                    continue
            for a in c.args:
                out |= backward_strings(P, b, a, seen, depth + 1)
    return out


def _ops(o, out):
    if isinstance(o, list):
        if len(o) == 2 and o[0] in ("copy", "move", "const"):
            out.append(o)
            return
        for x in o:
            _ops(x, out)


def secret_flow(P, sign_name, gen_name):
    """(secrets, Taint after analysing every entry, violations of the return rule)"""
    sign = P.find(sign_name)
    secrets = set()
    if sign is not None:
        for b in P.fns():
            for c in b.calls():
                if c.fn and (c.fn.get("reskey") or c.fn["key"]) == sign.key and len(c.args) > 1:
                    secrets |= {s for s in backward_strings(P, b, c.args[1]) if len(s) >= 16}
    T = Taint(P, secrets, {"ed25519_dalek::secret::SecretKey", "ed25519_dalek::keypair::Keypair", "ed25519_dalek::secret::ExpandedSecretKey"})
    if sign is not None:
        T.analyse(sign.key, frozenset([2]))
    returned = []
    for b in P.fns():
        if b.kind != "fn":
            continue
        ret, _ = T.analyse(b.key, frozenset())
        if ret:
            returned.append(b)
    for b in P.fns():
        if b.kind == "closure" and (b.key, frozenset()) not in T.memo:
            T.analyse(b.key, frozenset())
    return secrets, T, returned


def c03(ctx):
    P = ctx.P
    ctx.rule("sources: strings that reach the private-key argument of signature::sign, that argument itself, and every value of the secret-key types")
    ctx.rule("sinks: standard output, panics, logs, files, and results of functions visible outside their crate (key generation excepted)")
    ctx.rule("no item visible outside its crate holds the key")
    PF = prog.load(facts.ensure_fixture())
    s2, T2, r2 = secret_flow(PF, "sia_positive::sign", None)
    if not s2 or not T2.sinks or not any(b.friendly.endswith("leak_by_return") for b in r2):
        ctx.violation("fixture:leak", "the taint rule no longer finds the leaks of its positive examples")
    ctx.count("positive examples matched", len(T2.sinks) + len(r2))
    sign = ctx.anchor("signature::sign")
    gen = ctx.anchor("signature::keypair::generate")
    if sign is None or gen is None:
        return
    secrets, T, returned = secret_flow(P, "signature::sign", "signature::keypair::generate")
    ctx.count("secret constants", len(secrets))
    if not secrets:
        ctx.undecided("secret", "no string constant was found to reach the private-key argument of signature::sign")
    ctx.count("body contexts analysed", len(T.memo))
    for (f, p), t in sorted(T.sinks.items()):
        ctx.violation("leak:%s:%s" % (f, p), t)
    vis = {i["key"]: i.get("reach") for i in P.items}
    gens = {gen.key} | {k for k in P.reach([gen.key]) if all(x in P.reach([gen.key]) for x in rev_reach(P, k))}
    bad = len(T.sinks)
    for b in returned:
        if b.key in gens:
            continue
        if vis.get(b.key) or (b.crate == "web") or (b.crate == "watermarking" and b.friendly.endswith(("::watermark_channel", "::authenticate_channel", "::watermark"))):
            bad += 1
            ctx.violation("return:%s" % b.friendly, "%s (%s), visible outside, returns a value derived from the private key" % (b.friendly, b.span))
    # items holding the key
    hold = 0
    for b in P.bodies.values():
        cs = []
        for x in b.blocks:
            prog.consts_in(x["st"], cs)
            prog.consts_in(x["t"], cs)
        mine = any(T.is_secret_const(c) for c in cs if "str" in c)
        if b.kind == "const" and mine:
            hold += 1
            if vis.get(b.key):
                bad += 1
                ctx.violation("public:%s" % b.friendly, "%s (%s) makes the private key visible outside its crate" % (b.friendly, b.span))
        if b.kind in ("fn", "closure") and any(c.get("named") and T.is_secret_const(c) and vis.get(c["named"]) for c in cs if "str" in c):
            bad += 1
            ctx.violation("public:%s" % b.friendly, "the private key used in %s is a constant visible outside its crate" % b.friendly)
    ctx.count("constants holding the key", hold)
    if not bad:
        ctx.proved("no flow from the signing key to an output in %d analysed contexts" % len(T.memo))


CHECKS = {"C03": c03, "C04": c04, "C05": c05, "C06": c06, "C26": c26}
