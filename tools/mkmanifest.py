#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import info
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C29": "pure functions of their input (no schedule, clock, I/O or fault to decide): not a simulation target",
    "C30": "pure arithmetic on recorded samples (no schedule, clock, I/O or fault involved): not a simulation target",
    "C31": "pure text/value conversion (no schedule, clock, I/O or fault involved): not a simulation target",
}
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": [], "notes": "All checks: python3 tools/check.py ID TIER. No hooks in /repo: the seams are the libc symbols of freediag's object files, redirected with objcopy. Replay a violation: .build/simrun replay FILE -v"}
for i in ids:
    if i in info.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "technique": info.TECH[i], "level": "exploration", "level_note": info.PROPS[i].get("note", info.NOTE), "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
