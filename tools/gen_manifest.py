#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed = registered there)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "g++ --version > /dev/null", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        eng = [e for e in ("sched", "asan", "tsan") if c["quick"].get(e)]
        names = {"sched": "controlled-schedule execution of the real code with race, lifetime, leak and deadlock monitors", "asan": "AddressSanitizer+UBSan stress", "tsan": "ThreadSanitizer stress"}
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": "runtime monitoring: " + c.get("oracle", "oracle checks") + " over randomly generated client programs; " + " + ".join(names[e] for e in eng),
            "level": "exploration",
            "level_note": "Executions of the real headers and library only, no model: every execution is judged by the property's oracle and by the generic monitors. Assurance is statistical: random programs and schedules (random walk and PCT), bounded to a few threads and tens of operations each; sequentially consistent interleavings with memory-order-aware happens-before race detection (weak-memory value effects are seen only as missing happens-before edges). Trusts gcc's instrumentation, libstdc++ and the runtime in engine/.",
        })
    else:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed;", len(out["not_applicable"]), "not")
