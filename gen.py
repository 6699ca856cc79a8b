#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(props.PROPS + getattr(props, "NA", []), key=lambda p: p["id"]):
        f.write(json.dumps({k: p[k] for k in KEYS}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props.PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                        "technique": p.get("technique", "deterministic simulation with fault injection (seeded schedule and fault search)"),
                        "level": p["level"], "level_note": p.get("level_note", "")})
for p in getattr(props, "NA", []):
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
m["hooks"] = {"guard": "none", "enable": "no hooks: /repo is compiled unmodified; every seam is at the pthread / libc / allocator / compiler-instrumentation level", "source_commits": []}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
