#!/usr/bin/env python3
"""Planted bugs: write one down, and confirm it in a scratch copy of /repo.

    seed.py validate ID...     builds, runs the stable tests and the demo with and without the patch
    seed.py check ID...        runs the property's check (or those given by --checks) against the patched scratch copy
"""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
SCRATCH = os.environ.get("SEED_SCRATCH", "/tmp/seedrepo")


def add(sid, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)], demo: text of main.rs"""
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    out = []
    files = {}
    for f, old, new in edits:
        if not f.startswith("lib/"):
            f = "lib/sia/rust/" + f
        s = files.get(f) or open("/repo/" + f).read()
        files.setdefault(f, s)
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open("/repo/" + f).read()
        out += list(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    text = ""
    for l in out:
        text += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w").write(text)
    open(os.path.join(d, "main.rs"), "w").write(demo.lstrip("\n"))
    shutil.copy(os.path.join(HERE, "demo", "run.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return r.returncode, r.stdout


def scratch():
    if not os.path.isdir(SCRATCH):
        sh("cp -a /repo %s" % SCRATCH)
    sh("git checkout -q -- . && git clean -fdq && git fetch -q /repo && git reset -q --hard FETCH_HEAD", SCRATCH)


ENV = ". /opt/vp/env.sh; cd %s; " % SCRATCH


def demo(sid):
    return sh("bash %s/demo.sh" % os.path.join(SEEDED, sid), SCRATCH, timeout=400)


def validate(sid):
    d = os.path.join(SEEDED, sid)
    scratch()
    rc, o = demo(sid)
    if rc != 0:
        return "demo fails on the unchanged tree (%d): %s" % (rc, o[-1500:])
    rc, o = sh("git apply %s/patch.diff" % d, SCRATCH)
    if rc:
        return "patch does not apply: " + o
    rc, o = demo(sid)
    if rc == 0:
        return "demo passes with the patch"
    if rc == 2 and "error" in o:
        return "demo does not build with the patch: " + o[-1500:]
    note = [x[:200] for x in o.strip().splitlines()[-2:]]
    rc, o = sh("bash -c '%s cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1'" % ENV, timeout=900)
    base = json.load(open("/opt/vp/BASELINE.json"))
    failed = [l for l in o.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    if "could not compile" in o:
        return "does not build: " + o[-1500:]
    npass = sum(1 for l in o.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    scratch()
    if failed or npass < 48:
        return "tests fail (%d pass): %s" % (npass, failed[:5])
    return "ok (%s)" % " / ".join(note)


def check(sid, props=None):
    d = os.path.join(SEEDED, sid)
    scratch()
    rc, o = sh("git apply %s/patch.diff" % d, SCRATCH)
    if rc:
        return "patch does not apply"
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    rc, o = sh("SIA_REPO=%s python3 -m sia.check %s" % (SCRATCH, " ".join(props)), os.path.dirname(HERE))
    scratch()
    lines = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ") or "Error" in l]
    return "%s rc=%d %s" % ("CAUGHT" if rc == 1 else "missed", rc, "\n      ".join(x[:260] for x in lines[:4]))


if __name__ == "__main__":
    what, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    ids = ids or sorted(os.listdir(SEEDED))
    for i in ids:
        r = validate(i) if what == "validate" else check(i, [p for a in sys.argv[2:] if a.startswith("--checks=") for p in a[9:].split(",")] or None)
        print(("%-32s %s" % (i, r))[:900], flush=True)
