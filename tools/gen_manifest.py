#!/usr/bin/env python3
"""Writes MANIFEST.json from vplib/info.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from vplib import info
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "VP_UNUSED", "enable": "no hook is needed: the checks compile the sources of /repo/src with sanitizers and redirect the allocation and stream-opening symbols of the resulting object files (objcopy)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p, i in info.INFO.items():
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                        "technique": i["technique"], "level": i["level"], "level_note": i["note"] + " Trusts the reference model and the instrumentation; nothing is proved beyond the executions observed."})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
