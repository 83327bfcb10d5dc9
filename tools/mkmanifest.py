#!/usr/bin/env python3
"""Writes MANIFEST.json from check/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "check"))
from jobs import JOBS, LEVEL_NOTE, NOT_APPLICABLE
TECH = "Symbolic execution of the library's LLVM bitcode (compiled from /repo on every run) with symbolic inputs and states; equalities with the reference and every branch, bound and memory access are decided over all values by a self-checked bit-level normal form and z3; counterexamples are replayed natively under AddressSanitizer"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if JOBS.get(i):
        checks.append({"property": i, "quick_cmd": "python3 check/run.py %s --tier quick" % i, "thorough_cmd": "python3 check/run.py %s --tier thorough" % i,
          "technique": TECH, "level": "model_checking", "level_note": LEVEL_NOTE.get(i) or "Bounded: " + "; ".join(sorted({j["bounds"] for j in JOBS[i] if j.get("tier", "quick") == "quick" and j.get("bounds")}))[:900], "evidence_file": "evidence/%s.json" % i})
    else: na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "make -s -C rsx -j8", "checks": checks, "not_applicable": na,
     "notes": "All checks: check/run.py (compile /repo to bitcode, run build/rsx on every job of check/jobs.py, replay). No hooks in /repo are needed. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
