#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed and unclaimed properties
NOTE = ("Decides the listed obligations for every input, schedule and configuration the rule quantifies over, from the SSA form of "
        "the current tree; no code is run. Trusts the Go type checker and SSA builder, the checker's value-flow engine, the models of "
        "libraries listed in DESIGN.md, and that integers do not wrap unless the rule says so.")

def prop(id, title, statement, over, q, why, files, mech, technique=None, note="", na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                            "technique": "static analysis: " + p["technique"], "level": "other", "level_note": (p["note"] + " " + NOTE).strip()})
m["notes"] = "All checks are one static analyser (checker/), run once per property; see DESIGN.md. Repairs of genuine defects are listed in known-findings.txt."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
