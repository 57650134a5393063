#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, check=None, na=None, note=None, observe=(), state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, check=check, na=na, note=note, observe=list(observe), state=list(state)))


AI = "abstract interpretation of the type-checked AST"
NOTE = ("Decided from the current sources by interpreting the resolved AST over abstract values; no execution, "
        "no solver. Trusts the clang front end, the models of the standard library and libthai used by the "
        "interpreter, and that text is shorter than 10^7 characters. ")
PENDING = "check under construction; static analysis can address it, see DESIGN.md"

ARGS_IN = ["inputs"]

exec(open(os.path.join(V, "tools", "table.py"), encoding="utf8").read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            d["anchors"]["hook_needed"] = None
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 an/prog.py", "checks": [], "not_applicable": [],
           "notes": "All checks are static analyses of /repo's current sources (see DESIGN.md). "
                    "python3 tools/gen.py regenerates this file and properties.jsonl."}
    for p in P:
        if p["check"]:
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 an/run.py " + p["id"],
                                  "thorough_cmd": "python3 an/run.py " + p["id"],
                                  "evidence_file": "evidence/%s.json" % p["id"],
                                  "technique": p["check"], "level": "other", "level_note": NOTE + (p["note"] or "")})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"] or PENDING})
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(man, f, ensure_ascii=False, indent=1)
        f.write("\n")


main()
