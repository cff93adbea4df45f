#!/usr/bin/env python3
"""writes MANIFEST.json from tools/checks.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(f"{R}/tools/checks.json"))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
checks, na = [], []
for p in props:
    c = conf.get(p["id"])
    if c and "not_applicable" not in c:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "contract-based deductive verification with Verus of the functions extracted from /repo on every run",
            "level": c.get("level", "proof"),
            "level_note": c.get("note", "Every function listed in the evidence is proved against its contract for all inputs; the oracle supplies counterexamples and a bounded search."),
            "theorems": c.get("theorems", []),
        })
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("not_applicable", "no check yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check.py extracts the functions of a property from /repo with tools/vx, has Verus discharge their obligations and searches for counterexamples on the real code with harness/. See DESIGN.md."}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
open(f"{R}/MANIFEST.json", "a").write("\n")
