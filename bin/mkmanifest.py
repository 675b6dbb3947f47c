#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl, props/<id>/note.txt and na.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "na.json")))
checks, not_app = [], []
for p in props:
    i = p["id"]
    n = os.path.join(V, "props", i, "note.txt")
    if os.path.exists(n):
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification of the real C code (CBMC obligations per function, loop contracts, callee contracts)",
            "level": "proof",
            "level_note": " ".join(open(n).read().split()),
        })
    else:
        not_app.append({"property": i, "reason": na.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": not_app,
     "notes": "No hooks in /repo: harnesses include the real source files of the working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(not_app), "not claimed")
