"""Obligations, violations and the evidence file of one check."""
import json
import os
import time

from .state import TAINT

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Violation(Exception):
    pass


def known_findings(prop):
    """keys of the recorded, unrepaired findings of a property"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        rest = line.split(" ", 2)[2]
        key, _, what = rest.partition(" ")
        if key.startswith("key="):
            out[key[4:]] = what
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.rules = {}
        self.bad = []
        self.unk = []
        self.done = []
        self.notes = []
        self.assumptions = []
        self.explain = ""
        self.suffix = ""
        self.listed = known_findings(prop)
        self.on_fresh = None

    # one obligation per (rule, subject)
    def ok(self, rule, subject):
        subject = str(subject) + self.suffix
        self.rules.setdefault(rule, [0, 0, 0])[0] += 1
        if len(self.done) < 4000:
            self.done.append((rule, str(subject)))

    def violation(self, rule, subject, where, why, key=None):
        if TAINT:
            # something no model covers was met on the way: the reason may be the model, not the code
            return self.unknown(rule, subject, "%s (not decided: %s)" % (why, ", ".join("%s %s" % x for x in list(TAINT.items())[:3])))
        self.rules.setdefault(rule, [0, 0, 0])[1] += 1
        self.bad.append({"rule": rule, "subject": str(subject) + self.suffix, "where": where, "why": why, "key": key or "%s/%s" % (rule, subject)})
        if self.on_fresh and self.bad[-1]["key"] not in self.listed:
            self.on_fresh()
            self.on_fresh = None

    def unknown(self, rule, subject, why):
        self.rules.setdefault(rule, [0, 0, 0])[2] += 1
        self.unk.append((rule, str(subject) + self.suffix, str(why)))

    def expect(self, cond, rule, subject, where, why, key=None):
        if cond:
            self.ok(rule, subject)
        else:
            self.violation(rule, subject, where, why, key)
        return cond

    def finish(self, seen):
        n_ok = sum(v[0] for v in self.rules.values())
        n_bad = len(self.bad)
        n_unk = len(self.unk)
        known = known_findings(self.prop)
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        fresh, listed = [], {}
        for b in self.bad:
            if b["key"] in known:
                listed[b["key"]] = b
            else:
                fresh.append(b)
        replay = os.path.join(ev, "%s.violation.txt" % self.prop)
        if os.path.exists(replay):
            os.remove(replay)
        if fresh:
            with open(replay, "w", encoding="utf-8") as f:
                f.write("property %s: %d violated obligation(s)\n" % (self.prop, len(fresh)))
                for b in fresh:
                    f.write("\nrule      %s\nsubject   %s\nconstruct %s\nreason    %s\n" % (b["rule"], b["subject"], b["where"], b["why"]))
        for k, b in sorted(listed.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k] or b["why"]))
        doc = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": self.explain
                + " Decided statically from the current source by path-sensitive abstract interpretation of the syntax tree;"
                " no code of the repository is executed.",
                "obligations": n_ok + n_bad + n_unk,
                "discharged": n_ok,
                "violated": n_bad,
                "inconclusive": n_unk,
                "rules": {k: {"holds": v[0], "violated": v[1], "inconclusive": v[2]} for k, v in sorted(self.rules.items())},
                "subjects": ["%s: %s" % x for x in self.done[:400]],
                "subjects_total": len(self.done),
                "functions_analysed": sorted(seen),
                "unmodelled_constructs": ["%s %s" % x for x in TAINT.items()],
                "inconclusive_obligations": ["%s: %s: %s" % x for x in self.unk[:50]],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": ASSUMPTIONS + self.assumptions,
            "violations": n_bad - sum(1 for b in self.bad if b["key"] in known),
        }
        with open(os.path.join(ev, "%s.json" % self.prop), "w", encoding="utf-8") as f:
            json.dump(doc, f, indent=1, default=str)
            f.write("\n")
        for r, s, w in self.unk[:20]:
            print("INCONCLUSIVE: %s: %s: %s" % (r, s, w))
        for b in fresh[:20]:
            print("  %s [%s] at %s: %s" % (b["rule"], b["subject"], b["where"], b["why"]))
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("%s: %d obligations discharged, %d inconclusive, %d known, %.1f s" % (self.prop, n_ok, n_unk, len(listed), time.time() - self.t0))
        if n_unk > n_ok:
            # nothing explored breaks the property; what was not explored is in the evidence
            print("UNDECIDED: %s: most obligations could not be decided, see evidence/%s.json" % (self.prop, self.prop))
        return 0


ASSUMPTIONS = [
    "CPython semantics of the builtins, asyncio, struct, enum and serial calls are as modelled in sa/lib.py",
    "zigpy 0.25 base-class behaviour (registry lookups, retry decorator, type serialisation) is as modelled in sa/lib.py",
    "callbacks of the event loop run to completion between awaits (single-threaded asyncio)",
]
