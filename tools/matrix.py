#!/usr/bin/env python3
"""Writes the catch matrix into DESIGN.md from seeded/*/meta.json.
MISSED_FIRST: bugs that the checks did not catch when they were written."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED_FIRST = {
    "p20-error-stale": "error objects in kern.h now live only as long as the call",
    "p27-zm-stride": "P27 mixes dimensions in collections",
    "p17-wkb-adjacent": "play() permutes the dimensions in memory",
    "p10-size16": "geom.h makes sequences, members and rows beyond 16-bit counts",
    "p18-contiguous": "nodes whose dimensions are spread over blocks with strides of their own",
    "p22-static-print": "P22 also runs in configuration U",
    "p29-eq-prefix": "P29 compares types with nearly the same, also long, CRS",
    "p30-deserialize-inherit": "P30 deserialises by means of types that have metadata",
}
MISSED_FIRST.update(json.load(open(os.path.join(V, "tools/missed.json"))) if os.path.exists(os.path.join(V, "tools/missed.json")) else {})
rows = ["| bug | what it needs to show | caught by | missed at first; what was added |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["needs"].replace("|", "/"), m["property"], MISSED_FIRST.get(b, "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- matrix -->.*", lambda _: "<!-- matrix -->\n" + "\n".join(rows) + "\n", s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
