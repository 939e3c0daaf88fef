#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    by.setdefault(m["property"], []).append(d)
t = ["| check | planted bugs it catches |", "|---|---|"]
for p in sorted(by): t.append("| %s | %s |" % (p, ", ".join(re.sub(r"^c\d\d-", "", x) for x in by[p])))
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
s = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + "\n".join(t) + "\n<!-- /seeded -->", s)
open(f, "w").write(s)
print(sum(map(len, by.values())))
