"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from sia import check  # noqa: E402

DEFAULT_NOTE = ("Static decision on the typed MIR of the current source; holds for all inputs for the obligations it reports as proved. "
                "Trusts rustc's MIR, the Python analyser and the documented models of library functions.")
NOTE = {
    "C06": "Sound for the project's own code; third-party crates and macro-generated code are out of scope.",
}
NA = {
    "C28": "Not claimed: on hostile bytes the current code does panic (deserialisers index and unwrap freely), and a panic-freedom argument for "
           "arbitrary bytes needs value-range facts through three third-party codecs (LDPC decoding, ed25519, bitvec) that no static analysis in reach bounds.",
    "C29": "Quantifies over run-time quantities: whether rounding to 8 bits plus feature drift stay within the margins is a numeric question about the image "
           "content, with no sound static bound (it is false for some images).",
    "C30": "Perceptual distortion and survival of recompression are empirical properties of images and codecs; nothing in the source decides them.",
}


def main():
    reg = check.registry()
    props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in reg:
            short = "; ".join(t for _, t, _ in reg[pid] if t)
            checks.append({
                "property": pid,
                "quick_cmd": "python3 -m sia.check %s" % pid,
                "thorough_cmd": "python3 -m sia.check %s --thorough" % pid,
                "technique": short,
                "level": "other",
                "level_note": NOTE.get(pid, DEFAULT_NOTE),
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "not covered by a check yet")})
    json.dump({"version": 1, "setup_cmd": "python3 -m sia.facts", "checks": checks, "not_applicable": na,
               "notes": "Static analysis only: a rustc driver dumps the typed MIR of /repo's workspace, Python passes decide the properties on it. "
                        "No hooks in /repo are needed."},
              open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", [n["property"] for n in na])


main()
