#!/usr/bin/env python3
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
for n in "N01 N02 N03 N04 N05 N06 N07 N08".split():
    NA[n] = "Pure function of its arguments: no schedule, time, I/O, failure or second party it could depend on, so simulation with fault injection has nothing to vary."
M = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        M["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
          "technique": s.get("technique", "deterministic simulation with fault injection: seeded search over schedules, inputs and faults"),
          "level": "exploration", "level_note": s.get("note", "Sampled, exactly replayable executions of the real code; real: %s. Stubbed: %s. Nothing is proved about executions not sampled." % ("; ".join(s["real"]), "; ".join(s["stub"])))})
    else:
        M["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
