#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = "gated algebraic value numbering (abstract interpretation) of client instantiations on LLVM IR, compared with closed-form oracles"
TECH = {p: VN for p in ("C16", "C17", "C18", "C19", "C13")}
NOTE = ("every obligation is an equality of canonical forms decided over all real inputs for the enumerated instantiations; "
        "rounding is outside, Eigen kernels and libm are taken by contract")
TECH.update(json.load(open(os.path.join(ROOT, "tools", "techniques.json"))))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i + ".py")):
        t = TECH.get(i, VN)
        note = NOTE
        if isinstance(t, dict):
            t, note = t["technique"], t.get("note", NOTE)
        checks.append({"property": i, "quick_cmd": "python3-vt checks/%s.py" % i, "thorough_cmd": "python3-vt checks/%s.py" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": "no static check built for it yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. Nothing from /repo is executed by a check."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
