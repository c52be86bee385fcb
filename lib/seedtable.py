#!/usr/bin/env python3
"""developer helper: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and caught.json
(what seedcheck.py observed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/lib/caught.json"))
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    c = k.get(s, {})
    yes = [x for x in sorted(c) if c[x]]
    no = [x for x in sorted(c) if not c[x]]
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {', '.join(yes) or '-'} | {', '.join(no)} |")
t = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->", "<!-- /planted -->"
i, j = t.index(a) + len(a), t.index(b)
t = t[:i] + "\n| planted bug | property | needs | caught by | quiet (of those run) |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n" + t[j:]
open(V + "/DESIGN.md", "w").write(t)
