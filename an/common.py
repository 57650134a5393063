"""Shared parts of the checks: reports, known findings, evidence."""
import json
import os
import sys
import time

import prog
from prog import AnalysisBroken, VERIF

T0 = time.time()
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Report:
    """Collects what one check analysed and what it found."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.counts = {}
        self.samples = []
        self.viol = {}          # key -> (where, msg, trace)
        self.unres = {}         # key -> msg
        self.assumptions = []
        self.obligations = 0
        self.discharged = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def sample(self, x, limit=12):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, key, where, msg, trace=()):
        self.obligations += 1
        self.viol.setdefault(key, (where, msg, list(trace)))

    def unresolved(self, key, msg):
        self.obligations += 1
        self.unres.setdefault(key, msg)

    def floor(self, name, n):
        """The analysis must have seen at least n instances."""
        have = self.counts.get(name, 0)
        if have < n:
            raise AnalysisBroken("only %d %s were analysed, expected at least %d" % (have, name, n))

    def take(self, eng, kinds=None, keyfn=None):
        """Adopt the obligations of an engine run."""
        for o in eng.oblig.values() if isinstance(eng.oblig, dict) else eng.oblig:
            pass


def known(pid):
    """Keys of the listed findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    if key.startswith("key="):
                        out[key[4:]] = what
    return out


def finish(rep):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    lst = known(rep.pid)
    listed = {k: v for k, v in rep.viol.items() if k in lst}
    new = {k: v for k, v in rep.viol.items() if k not in lst}
    tier = os.environ.get("VERIF_TIER", "quick")
    cov = {"explanation": rep.rule, "obligations": rep.obligations,
           "discharged": rep.discharged, "unresolved": len(rep.unres),
           "violations": len(new), "known_findings": len(listed)}
    cov.update(rep.counts)
    cov["samples"] = rep.samples
    if rep.unres:
        cov["unresolved_list"] = ["%s: %s" % (k, v) for k, v in list(rep.unres.items())[:40]]
    doc = {"property": rep.pid, "tier": tier if tier in ("quick", "thorough") else "quick",
           "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
           "coverage": cov, "assumptions": rep.assumptions,
           "violations": [{"key": k, "where": w, "what": m, "path": t}
                          for k, (w, m, t) in new.items()],
           "wall_s": round(time.time() - T0, 3)}
    with open(os.path.join(ev, rep.pid + ".json"), "w", encoding="utf8") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1, default=str)
        f.write("\n")
    print("%s: %d obligations, %d discharged, %d unresolved; %s" % (
        rep.pid, rep.obligations, rep.discharged, len(rep.unres),
        ", ".join("%s=%s" % x for x in rep.counts.items())))
    for k, m in list(rep.unres.items())[:20]:
        print("  unresolved %s: %s" % (k, m))
    for k, (w, m, t) in listed.items():
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, lst[k]))
    if not new:
        return 0
    path = os.path.join(ev, rep.pid + "-violation.txt")
    with open(path, "w", encoding="utf8") as f:
        for k, (w, m, t) in new.items():
            f.write("%s\n  at %s\n  rule %s\n" % (m, w, k))
            for x in t:
                f.write("    %s\n" % (x,))
    for k, (w, m, t) in list(new.items())[:10]:
        print("  %s: %s [%s]" % (w, m, k))
        for x in t[-12:]:
            print("      %s" % (x,))
    print("VIOLATION property=%s replay=%s" % (rep.pid, path))
    return 1
