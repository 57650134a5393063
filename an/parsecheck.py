"""C01-C05, C24: verdicts from the abstract interpretation of the parser.

All of them come from one analysis.  Its result is kept under build/ for the
other checks, keyed by the exported program and the analyser itself, so that
an unchanged program is not analysed six times in a row."""
import glob
import hashlib
import os
import pickle
import time

import engine
import parse
import prog
from common import Report, T0
from prog import AnalysisBroken, VERIF

KINDS = {
    "C01": (("text-bounds", "array-bounds", "lookup", "assert", "iterator-deref", "null-deref", "buffer", "escapes"),
            "obligations on every character access, table lookup, dereference, library buffer and assertion reached from the "
            "public entry point on a text of unknown length and content must hold in every abstract state"),
    "C02": (("progress",),
            "every partial analysis put back into the pool must lie further on in the text than the one taken out (or the same, with its "
            "word end moved on), and every loop that rewrites the graph must consume what it inspects"),
    "C03": (("edge-label", "edge-from", "edge-forward", "state-end", "result-end", "moved-label", "remove", "literal"),
            "every edge added to a pronunciation graph must start at a node that some path of the graph reaches, go forward, and carry "
            "the end position of its node; every partial analysis must have its position as the only loose end of its graph; finished "
            "analyses end at the end of the text; literal labels are the text between their positions"),
    "C04": (("complete",), "no component of a syllable attached to the graph may be a placeholder in any abstract state"),
    "C05": (("tone",), "the tone of each syllable attached to the graph is compared with the tone rules for the class of the letter that "
            "leads it, the tone marks inside it, its vowel and its final, over every combination the abstract state allows"),
    "C24": (("initial", "vowel", "final"),
            "the sounds of each syllable attached to the graph are compared with an independent table of what the letters, vowel signs and "
            "finals in its stretch of text stand for, for every combination the abstract state allows"),
}
KINDS["C23"] = (("kept", "drained"), "a partial analysis handed to the waiting list is put into it unchanged, or its graph is united into a waiting one at "
                "the same place of the text with the same link to what precedes, and nothing waiting is dropped or altered; taking one out "
                "hands over exactly what waited and removes exactly that; nothing waits when the result is returned, and every finished one "
                "is united into the result")
FLOOR = {"C23": 2, "C01": 60, "C02": 4, "C03": 20, "C04": 3, "C05": 3, "C24": 9}
LIMIT = 780


def key(p):
    h = p.digest.copy()
    for f in sorted(glob.glob(os.path.join(VERIF, "an", "*.py"))):
        with open(f, "rb") as g:
            h.update(g.read())
    return h.hexdigest()[:24]


def result():
    p = prog.Program()
    d = os.path.join(VERIF, "build")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "parse-" + key(p))
    if os.path.exists(path):
        with open(path, "rb") as f:
            return pickle.load(f)
    a = None
    stop = None
    engine.Engine.deadline = T0 + LIMIT
    try:
        a, outs = parse.analyse(p)
    except engine.NoFixpoint as x:
        a = x.analysis
        stop = str(x)
    e = a.e
    r = {"oblig": dict(e.oblig), "findings": dict(e.findings), "unresolved": dict(e.unresolved), "inv": list(a.inv),
         "functions": len(e.fnseen), "steps": e.steps, "stop": stop,
         "thrown": [(x, s.taint, s.trace()[-6:]) for s, x in e.thrown[0]]}
    for old in glob.glob(os.path.join(d, "parse-*")):
        if time.time() - os.path.getmtime(old) > 3600:
            os.unlink(old)
    if stop is None:
        tmp = path + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(r, f)
        os.rename(tmp, path)
    return r


def check(pid):
    kinds, rule = KINDS[pid]
    rep = Report(pid, rule)
    r = result()
    rep.counts["functions"] = r["functions"]
    rep.counts["steps"] = r["steps"]
    rep.counts["sites"] = 0
    for (kind, loc, tag), (n, bad, unres) in sorted(r["oblig"].items(), key=str):
        if kind not in kinds:
            continue
        rep.counts["sites"] += 1
        rep.count("states_" + kind.replace("-", "_"), n)
        if not bad and not unres:
            rep.ok()
        if rep.counts["sites"] % 7 == 1:
            rep.sample("%s at %s: %d abstract states, %d failing" % (kind, loc, n, bad))
    for k, f in r["findings"].items():
        if k[0] in kinds:
            rep.violation("%s/%s/%s" % (k[0], f["fn"], k[2]), "%s (%s)" % (f["loc"], f["fn"]), f["msg"],
                          ["in " + " > ".join(f["calls"])] + list(f["trace"]) + list(f["facts"]))
    for k, m in r["unresolved"].items():
        if k[0] in kinds or k[0] in ("pool", "edge", "result", "union"):
            rep.unresolved("/".join(map(str, k)), m)
    if pid == "C01":
        for x, taint, tr in r["thrown"]:
            if x != "std::range_error":
                if taint:
                    rep.unresolved("thrown/" + str(x), str(taint))
                else:
                    rep.violation("thrown/%s" % x, tr[-1] if tr else "?", "%s can leave the parser" % x, tr)
    if pid == "C02":
        lost = [n for n, _, _ in parse.Parse.INV if n not in r["inv"]]
        if lost:
            rep.count("weakened_invariants", len(lost))
    if r["stop"]:
        rep.unresolved("analysis", r["stop"])
    rep.counts["invariants"] = len(r["inv"])
    rep.assumptions = ["the word breaker returns at most as many positions as it was given room for, each within the text",
                       "dictionary matches end within the text, after their start"]
    if not rep.viol and not rep.unres:
        rep.floor("sites", FLOOR[pid])
    return rep
