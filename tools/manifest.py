#!/usr/bin/env python3
"""Write MANIFEST.json from the contract modules that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(VERIF, "tools", "notes.json")))
NA = {
    "C26": "a liveness and scheduling property of several processes around a barrier; contracts on "
        "single functions of sequential code cannot express it (the sequential part is C09)",
    "C27": "depends on SQLite's locking and crash behaviour, which is outside the code under "
        "contract (the sequential part is C21)",
}
checks = []
na = []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(VERIF, "contracts", p.lower() + ".py")) and p in NOTES:
        checks.append({
            "property": p,
            "quick_cmd": f"python3-vt -B check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt -B check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "contract-based deductive verification: verification conditions generated "
                "from /repo's source on every run, discharged by z3/cvc5; bounded cross-check on "
                "the real code",
            "level": "proof",
            "level_note": NOTES[p],
        })
    else:
        na.append({"property": p, "reason": "the check is not built yet"})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1,
        "setup_cmd": "python3-vt -B -c 'import z3, sys; sys.path.insert(0, \".\"); import pyvc.interp, vf.api'",
        "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
