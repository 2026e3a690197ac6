#!/usr/bin/env python3
"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import checks as C
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 bin/setup.py", checks=[], not_applicable=[], notes="All checks are runs of bin/check.py over the harnesses in harness/; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in C.CHECKS:
        c = C.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            technique=c["technique"], level=c.get("level", "exploration"),
            level_note=c.get("note", "Sampled executions: every case is judged by an exact oracle and sanitizers; inputs and histories not generated are not covered.")))
    else:
        out["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(out, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
