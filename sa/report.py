"""Obligation bookkeeping, known findings, evidence and exit codes.

Exit codes: 0 every obligation discharged (known findings aside); 1 at least one
violation that known_findings.txt does not list; 2 the analysis itself could not
be carried out (vanished anchor, construct outside the analysed subset, ...).
"""

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis cannot give a verdict."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obligations = 0
        self.by_rule = {}
        self.violations = []  # (key, msg)
        self.samples = []
        self.analysed = {}
        self.assumptions = []
        self.explanation = ""
        self._seen = set()

    # -- obligations -----------------------------------------------------
    def ok(self, rule, construct, detail=None):
        self.obligations += 1
        self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
        if len([s for s in self.samples if s["rule"] == rule]) < 2:
            self.samples.append({"rule": rule, "construct": str(construct),
                                 "result": "holds",
                                 "detail": str(detail)[:300] if detail is not
                                 None else ""})

    def fail(self, rule, construct, msg):
        """key = rule + construct: never a line number."""
        self.obligations += 1
        self.by_rule[rule] = self.by_rule.get(rule, 0) + 1
        key = "%s|%s" % (rule, construct)
        if (key, msg) in self._seen:
            return
        self._seen.add((key, msg))
        self.violations.append((key, msg))

    def check(self, cond, rule, construct, msg, detail=None):
        if cond:
            self.ok(rule, construct, detail)
        else:
            self.fail(rule, construct, msg)
        return bool(cond)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def need(self, what, minimum):
        """A rule that matched fewer instances than confirmed by hand is
        broken, not satisfied."""
        if self.analysed.get(what, 0) < minimum:
            raise AnalysisError("only %d %s analysed, at least %d expected" % (
                self.analysed.get(what, 0), what, minimum))


def load_known():
    """finding lines: 'finding: property=<id> key=<rule|construct> :: text'."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            rest = line[len("finding:"):].strip()
            p, rest = rest.split(None, 1)
            k, _, text = rest.partition(" :: ")
            prop = p.split("=", 1)[1]
            key = k.split("=", 1)[1]
            known.setdefault(prop, {})[key] = text
    return known


def finish(rep, tier, seed, error=None):
    known = load_known().get(rep.prop, {})
    evdir = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    new, old = [], []
    for key, msg in rep.violations:
        (old if key in known else new).append((key, msg))

    stale = [k for k in known if k not in {k2 for k2, _ in rep.violations}]
    held = rep.obligations - len(rep.violations)
    ev = {
        "property": rep.prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": rep.explanation,
            "obligations": rep.obligations,
            "discharged": held,
            "obligations_by_rule": rep.by_rule,
            "analysed": rep.analysed,
            "samples": rep.samples[:24],
            "known_findings": ["%s: %s" % x for x in old],
            "known_findings_not_seen_on_this_tree": stale,
        },
        "assumptions": rep.assumptions,
        "wall_s": round(time.time() - rep.t0, 3),
        "violations": len(new),
    }
    if error:
        ev["coverage"]["analysis_error"] = error
    with open(os.path.join(evdir, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")

    print("%s: %d obligations (%s); analysed %s" % (
        rep.prop, rep.obligations,
        ", ".join("%s=%d" % kv for kv in sorted(rep.by_rule.items())),
        ", ".join("%s=%d" % kv for kv in sorted(rep.analysed.items()))))
    for key, msg in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (
            rep.prop, known[key] or msg, key))
    replay = os.path.join(evdir, "%s.violation.txt" % rep.prop)
    if new:
        with open(replay, "w") as f:
            for key, msg in new:
                f.write("[%s] %s\n" % (key, msg))
        for key, msg in new[:40]:
            print("  violated [%s] %s" % (key, msg))
        if len(new) > 40:
            print("  ... %d more in %s" % (len(new) - 40, replay))
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        if error:
            print("(analysis also incomplete: %s)" % error)
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if error:
        print("ANALYSIS-ERROR property=%s %s" % (rep.prop, error))
        return 2
    if rep.obligations == 0:
        print("ANALYSIS-ERROR property=%s no obligations generated" % rep.prop)
        return 2
    print("OK property=%s (%.1fs)" % (rep.prop, time.time() - rep.t0))
    return 0


def run(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop)
    err = None
    try:
        fn(rep, tier)
    except AnalysisError as e:
        err = str(e)
    except Exception as e:  # an internal error is never a verdict
        err = "internal: %r" % (e,)
        traceback.print_exc(file=sys.stdout)
    return finish(rep, tier, seed, err)
