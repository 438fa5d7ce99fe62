#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "technique": c.get("technique", "runtime monitoring: ASan+UBSan build of the real code under generated workloads, online oracles against an independent model"),
                   "level": c["level"], "level_note": c["rule"]})
na = [{"property": p, "reason": "check not built yet"} for p in ids if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile run.py checks.py", "checks": checks, "not_applicable": na,
           "notes": "Every check builds its own instrumented binaries from /repo's working tree into /verif/build (git-ignored)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
