"""Builds the compiler driver and extracts the facts (typed MIR) of /repo's current source.

Facts are cached by the content of every source and manifest file that can influence them,
so a run always describes the tree as it is now.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("SIA_REPO", "/repo")
WORK = os.environ.get("SIA_WORK", os.path.join(ROOT, ".work"))
DRIVER = os.path.join(ROOT, "driver")

EXPECTED = ["cli.bin", "embedding.lib", "encoding.lib", "feature.lib", "image_features.lib", "moments.lib",
            "pseudo_zernike.lib", "signature.lib", "three_bit_quantization.lib", "utils.lib",
            "watermarking.lib", "web.lib", "zernike.lib"]


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTC",
              "CARGO_INCREMENTAL", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def _files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "public", "test", "src")
                       or (x == "src" and d != root))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")) or f in ("build.rs", "rust-toolchain"):
                out.append(os.path.join(d, f))
    return out


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    return p.returncode, p.stdout


def ensure(log=lambda s: None):
    """Directory holding the facts of /repo's current tree."""
    os.makedirs(WORK, exist_ok=True)
    env = _env()
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dsrc = sorted(glob.glob(DRIVER + "/src/*.rs")) + [DRIVER + "/Cargo.toml"]
        dh = _hash(dsrc)
        exe = os.path.join(WORK, "driver-" + dh, "release", "sia-mirdump")
        if not os.path.exists(exe):
            e = dict(env)
            e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver-" + dh)
            rc, out = _run(["cargo", "+nightly", "build", "--release", "--offline"], e, DRIVER)
            if rc or not os.path.exists(exe):
                raise FactsError("driver build failed:\n" + out[-4000:])
        key = _hash(_files(REPO), dh)
        dest = os.path.join(WORK, "facts-" + key)
        if os.path.exists(os.path.join(dest, "done")):
            return dest
        tmp = dest + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(WORK, "tgt")
        rc, out = _run(["cargo", "metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path",
                        REPO + "/Cargo.toml"], env, REPO)
        try:
            meta = json.loads(out[out.index("{"):])
            pk = [p["name"] for p in meta["packages"]]
        except Exception:
            raise FactsError("cargo metadata failed:\n" + out[-4000:])
        # defeat cargo's freshness cache for the workspace crates only
        for p in pk:
            for g in (p, p.replace("-", "_")):
                for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", g + "-*")):
                    shutil.rmtree(d, ignore_errors=True)
                shutil.rmtree(os.path.join(tgt, "debug", "build", g), ignore_errors=True)
        e = dict(env)
        rc, sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, REPO)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot.strip(), "lib")
        e["SIA_FACTS_DIR"] = tmp
        e["CARGO_TARGET_DIR"] = tgt
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        for again in (True, False):
            rc, out = _run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline",
                            "--manifest-path", REPO + "/Cargo.toml"], e, REPO)
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                raise FactsError("cargo check of /repo failed:\n" + out[-6000:])
            got = sorted(os.path.basename(f)[:-5] for f in glob.glob(tmp + "/*.json"))
            missing = [x for x in EXPECTED if x not in got]
            if not missing:
                break
            if again:
                # cargo took some crates for fresh after all
                shutil.rmtree(tgt, ignore_errors=True)
        if missing:
            raise FactsError("no facts for %s (got %s)" % (missing, got))
        open(os.path.join(tmp, "done"), "w").close()
        os.rename(tmp, dest)
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(WORK, "facts-*")), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        return dest


def ensure_fixture():
    """Facts of the positive examples (a crate of ours, never of /repo)."""
    ensure_dir = ensure()
    env = _env()
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dsrc = sorted(glob.glob(DRIVER + "/src/*.rs")) + [DRIVER + "/Cargo.toml"]
        dh = _hash(dsrc)
        exe = os.path.join(WORK, "driver-" + dh, "release", "sia-mirdump")
        fx = os.path.join(ROOT, "fixtures", "positive")
        dest = os.path.join(WORK, "fixture-" + _hash([fx + "/src/lib.rs", fx + "/Cargo.toml"], dh))
        if os.path.exists(os.path.join(dest, "done")):
            return dest
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        tgt = os.path.join(WORK, "tgt-fixture")
        shutil.rmtree(tgt, ignore_errors=True)
        e = dict(env)
        rc, sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], env, REPO)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot.strip(), "lib")
        e["SIA_FACTS_DIR"] = dest
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        rc, out = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", fx + "/Cargo.toml"], e, fx)
        if rc:
            raise FactsError("cargo check of the positive examples failed:\n" + out[-4000:])
        open(os.path.join(dest, "done"), "w").close()
        return dest


if __name__ == "__main__":
    print(ensure())
