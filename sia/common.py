"""Check context: obligations, violations, evidence."""
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "undecided"


class Ctx:
    def __init__(self, pid, P, tier):
        self.pid = pid
        self.P = P
        self.tier = tier
        self.obls = []      # (key, verdict, text)
        self.viol = {}      # key -> text
        self.known = {}
        self.counts = {}
        self.rules = []
        self.notes = []

    # -- reporting -----------------------------------------------------------
    def rule(self, text):
        self.rules.append(text)

    def note(self, text):
        self.notes.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def proved(self, key, text=""):
        self.obls.append((key, PROVED, text))

    def undecided(self, key, text=""):
        self.obls.append((key, UNKNOWN, text))

    def violation(self, key, text):
        """key: stable identification without line numbers; text: where and why"""
        self.obls.append((key, REFUTED, text))
        self.viol.setdefault(key, text)

    def floor(self, name, got, least, what=""):
        """A rule that matches fewer instances than were confirmed by hand decides nothing: fail."""
        self.counts[name] = got
        if got < least:
            self.violation("instances:" + name,
                           "only %d instance(s) of '%s' found, %d expected%s; the rule would pass vacuously" % (
                               got, name, least, (" (" + what + ")") if what else ""))

    def anchor(self, friendly):
        b = self.P.find(friendly)
        if b is None:
            self.violation("anchor:" + friendly, "no function %s in the program; its obligations cannot be checked" % friendly)
        return b


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' and 'fixed: ...' lines"""
    out = {}
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                parts = l.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(pid, key)] = parts[3] if len(parts) > 3 else ""
    return out


def finish(ctx, technique, wall, seed, assumptions):
    """Writes the evidence, prints the verdict, returns the exit status."""
    known = load_known()
    viol = {}
    for k, t in ctx.viol.items():
        if (ctx.pid, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, known[(ctx.pid, k)] or t))
            ctx.known[k] = t
        else:
            viol[k] = t
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    n = {v: sum(1 for o in ctx.obls if o[1] == v) for v in (PROVED, REFUTED, UNKNOWN)}
    P = ctx.P
    cov = {
        "explanation": "Static analysis of the typed MIR of /repo's current source (nothing is executed). " + technique,
        "rules": ctx.rules,
        "units_analysed": sorted(P.crates) if P else [],
        "bodies_extracted": len(P.bodies) if P else 0,
        "obligations_total": len(ctx.obls),
        "obligations_proved": n[PROVED],
        "obligations_refuted": n[REFUTED],
        "obligations_undecided": n[UNKNOWN],
        "counts": ctx.counts,
        "obligations": [{"key": k, "verdict": v, "detail": t[:600]} for k, v, t in ctx.obls],
        "known_findings_seen": sorted(ctx.known),
        "notes": ctx.notes,
    }
    json.dump({"property": ctx.pid, "tier": ctx.tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(viol)},
              open(os.path.join(ev, ctx.pid + ".json"), "w"), indent=1)
    rep = os.path.join(ev, ctx.pid + ".violation.txt")
    if os.path.exists(rep):
        os.remove(rep)
    print("%s: %d obligation(s): %d proved, %d refuted, %d undecided; %s" % (
        ctx.pid, len(ctx.obls), n[PROVED], n[REFUTED], n[UNKNOWN],
        ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items()))))
    for k, v, t in ctx.obls:
        if v == UNKNOWN:
            print("  undecided: %s %s" % (k, t[:300]))
    if viol:
        with open(rep, "w") as f:
            for k, t in viol.items():
                f.write("property %s violated\n  rule instance: %s\n  %s\n\n" % (ctx.pid, k, t))
        for k, t in viol.items():
            print("  [%s] %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rep))
        return 1
    return 0
