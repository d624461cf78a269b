#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the CHECKS table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "checks_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none (no hooks: everything is driven through public APIs and generated code)", "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Specifications in spec/ (TLA+, TLC); conformance machinery in lib/ and harness/. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "specification and conformance harness not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
