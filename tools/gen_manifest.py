#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/*.cpp and tools/not_applicable.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
checks, nas = [], []
for p in props:
    pid = p["id"]
    if os.path.exists("%s/harness/%s.cpp" % (V, pid)):
        assume = [l[10:].strip() for l in open("%s/harness/%s.cpp" % (V, pid)) if l.startswith("//@assume ")]
        bounds = [l[10:].strip() for l in open("%s/harness/%s.cpp" % (V, pid)) if l.startswith("//@bounds ")]
        checks.append({"property": pid, "quick_cmd": "python3 vp.py check " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 vp.py check " + pid,
                       "technique": "symbolic execution of the compiled LLVM IR of the real code, z3 decides every branch and assertion, counterexamples replayed natively",
                       "level": "model_checking",
                       "level_note": ("Every value within the bounds is decided by the solver. Bounds: " + "; ".join(bounds) + (". Assumes: " + "; ".join(assume) if assume else "") + ". Trusts the IR interpreter and the runtime models in rt/ and engine/.")[:3000]})
    else:
        nas.append({"property": pid, "reason": na.get(pid, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 vp.py setup", "checks": checks, "not_applicable": nas,
           "notes": "Solver-based checking with a purpose-built symbolic executor for LLVM IR (engine/). See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
