#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DD = ["pkg/ddl/postgres", "pkg/ddl/cockroachdb", "pkg/ddl/mysql", "pkg/ddl/spanner"]
def ff(*names): return [f"{d}/{n}" for n in names for d in DD]
PARSE = ff("lexar.go", "parser.go")
DIFF = ff("diff.go", "diff_create_table.go")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, level_note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, level_note=level_note, technique=technique))

exec(open(os.path.join(V, "lib", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                 "technique": p["technique"], "level": LEVEL.get(p["id"], "exploration"), "level_note": p["level_note"]} for p in P],
     "not_applicable": NOT_APPLICABLE,
     "notes": NOTES}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
