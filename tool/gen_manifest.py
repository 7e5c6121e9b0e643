#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rule modules present in sa/rules."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tool"))
from notes import TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "sa", "rules", i.lower() + ".py")
    if os.path.exists(f) and i in TECH:
        src = open(f).read()
        level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check compiles /repo's current tree to LLVM IR, normalises it (tool/irx.cpp) and decides the property by dataflow/typestate/effect/abstract interpretation; nothing of the analysed program is run. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
