#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util, importlib.machinery
loader = importlib.machinery.SourceFileLoader("check", os.path.join(V, "check"))
spec = importlib.util.spec_from_loader("check", loader); m = importlib.util.module_from_spec(spec); loader.exec_module(m)
NOTE = {}
exec(open(os.path.join(V, "tools/manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in m.CHECKS or i in EXTRA:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, TECH["*"]),
                       "level": "exploration", "level_note": LEVEL.get(i, LEVEL["*"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py --warm", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
