#!/usr/bin/env python3
"""developer helper: rewrites the "fixed" list of known_findings.json from the table below."""
import json, subprocess
T = [l.rstrip("\n").split("|", 2) for l in open("/verif/lib/fixed.txt") if l.strip()]
log = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h|%s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split("|", 1); log[h] = s
out = []
used = set()
for h, props, what in T:
    assert h in log, h
    used.add(h)
    for p in props.split(","):
        out.append(f"fixed: property={p} {h} {what}")
for h, s in log.items():
    if s.startswith("fix:") and h not in used: print("not listed:", h, s)
k = json.load(open("/verif/known_findings.json")); k["fixed"] = out
json.dump(k, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=False)
