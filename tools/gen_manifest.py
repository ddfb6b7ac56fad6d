#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
m = {"version": 1,
     "setup_cmd": "cd harness && GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOFLAGS=-mod=readonly go build ./vt",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API (and, for goroutine schedules, Go's own synctest fake clock). check.py builds harness/<pkg> against /repo's working tree on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
