#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, run=None, note=None, na=None, observe=None, tech=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, run=run, note=note, na=na, observe=observe or [], tech=tech, thorough=thorough))

exec(open(os.path.join(here, "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    if p["run"]:
        crate, b = p["run"]
        cmd = f"bash check.sh {crate} {b} {p['id']}"
        c = {"property": p["id"], "quick_cmd": cmd,
             "technique": p["tech"] or "property-based testing: generated inputs and histories against an explicit oracle, with shrinking",
             "level": "exploration", "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"}
        if p["thorough"]:
            c["thorough_cmd"] = "VERIF_TIER=thorough " + cmd
        checks.append(c)
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not finished yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based / fuzzing drivers built from /verif/vcore and the harness crates; no hooks in /repo are needed (the crate's own feature `_internals` exposes the totalizer database)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
