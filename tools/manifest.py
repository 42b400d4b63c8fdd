#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1,
     "setup_cmd": "python3 --version && clang++ --version && g++ --version",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged, with instrumentation by the compiler", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check builds what it needs from /repo's working tree into the git-ignored build directory (content hashed). See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS and not CHECKS[i].get("draft"):
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
