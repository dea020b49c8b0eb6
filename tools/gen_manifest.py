#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every rules/cNN.py, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = {"C29": "equality of whole histories after a write and read: quantifies over runtime values; its structural parts are C02-C05, C27",
      "C30": "correctness of ring assembly is a value-dependent geometric algorithm behind GEOS, which is not compilable here",
      "C31": "numerical accuracy of floating point results cannot be decided by the static analyses in reach",
      "C32": "memory use depends on runtime sizes (handler-kept objects, allocator, library buffers)"}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "rules", p.lower() + ".py")):
        t = TECH.get(p, {})
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": t.get("technique", "static analysis over LLVM IR"), "level": "other",
                       "level_note": t.get("note", "sound up to the assumptions listed in the evidence file")})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash tool/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
