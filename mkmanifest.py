#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os
from jobs import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "symbolic execution of the compiled LLVM IR of immer's own templates; Z3 decides every branch and assertion"),
            "level": "model_checking",
            "level_note": c.get("note", "Bounded: holds for every symbolic value within the bounds stated in the evidence. Trusts clang's IR generation, the "
                                "engine's IR semantics (cross-validated by native replays of path witnesses) and Z3 (sampled queries re-decided by cvc5).")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use immer's public API with their own memory policies and element types."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
