#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os
import registry
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "symbolic execution of the compiled source (LLVM bitcode) with SMT (z3) and algebraic normal-form decisions over all inputs within bounds; counterexamples replayed natively"
NOTE = ("Every path of the harness over the real functions is executed symbolically from bitcode compiled from /repo on this run; each assertion is decided for all "
        "values within the bounds. Trusted: clang's translation to bitcode, the executor, z3, the stated stubs. ")
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "check not built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier=quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier=thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", TECH), "level": c.get("level", "model_checking"),
                   "level_note": NOTE + "Bounds: " + c.get("bounds", "") + ("" if not c.get("bounds_thorough") else " Thorough: " + c["bounds_thorough"].split("in addition: ")[-1])
                   + ("" if not c.get("assumptions") else " Assumes: " + "; ".join(c["assumptions"]))})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "All checks: python3 check.py <ID>. Known findings and repaired defects: known-findings.json. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
