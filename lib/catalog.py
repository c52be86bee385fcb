#!/usr/bin/env python3
"""Answers catalogue queries with a real SQL engine (SQLite): the harness sends the rows of the
catalogue tables of a simulated database and a query of the tool, one JSON object per line."""
import json, re, sqlite3, sys

def connect(dialect):
    c = sqlite3.connect(":memory:")
    c.execute("ATTACH ':memory:' AS information_schema")
    c.create_function("database", 0, lambda: "appdb")
    c.create_function("schema", 0, lambda: "appdb")
    c.create_function("quote_ident", 1, quote_ident)
    c.create_function("current_schema", 0, lambda: "public")
    return c

# every keyword of PostgreSQL 16 that is not unreserved: quote_ident quotes these
PGKEYWORDS = set("""all analyse analyze and any array as asc asymmetric authorization between bigint binary bit boolean both case cast
char character check coalesce collate collation column concurrently constraint create cross current_catalog current_date current_role
current_schema current_time current_timestamp current_user dec decimal default deferrable desc distinct do else end except exists extract
false fetch float for foreign freeze from full grant greatest group grouping having ilike in initially inner inout int integer intersect
interval into is isnull join json json_array json_arrayagg json_object json_objectagg lateral leading least left like limit localtime
localtimestamp national natural nchar none normalize not notnull null nullif numeric offset on only or order out outer overlaps overlay
placing position precision primary real references returning right row select session_user setof similar smallint some substring symmetric
system_user table tablesample then time timestamp to trailing treat trim true union unique user using values varchar variadic verbose when
where window with xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse xmlpi xmlroot xmlserialize xmltable""".split())

def quote_ident(s):
    if s is None: return None
    if re.fullmatch(r"[a-z_][a-z0-9_]*", s) and s not in PGKEYWORDS: return s
    return '"' + s.replace('"', '""') + '"'

def load(dialect, cat):
    c = connect(dialect)
    for name, t in cat.items():
        cols = ", ".join('"%s"' % x for x in t["cols"])
        c.execute(f'CREATE TABLE {name} ({cols})')
        if t["rows"]:
            c.executemany(f'INSERT INTO {name} VALUES ({", ".join("?" * len(t["cols"]))})', t["rows"])
    return c

def translate(q, dialect):
    if dialect == "postgres":
        q = re.sub(r"\bE'((?:[^'\\]|''|\\.)*)'", lambda m: "'" + m.group(1).replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\") + "'", q)
        q = re.sub(r"\bpg_catalog\.pg_indexes\b", "pg_indexes", q)
    return q

key, conn = None, None
for line in sys.stdin:
    m = json.loads(line)
    try:
        if m["key"] != key:
            if conn: conn.close()
            try: conn, key = load(m["dialect"], m["catalog"]), m["key"]
            except Exception as e: raise SystemError(f"harness: {e}")
        cur = conn.execute(translate(m["sql"], m["dialect"]), m.get("args") or [])
        rows = [list(r) for r in cur.fetchall()]
        out = {"cols": [d[0] for d in cur.description or []], "rows": rows}
    except Exception as e:
        key = None
        out = {"err": f"{type(e).__name__}: {e}"}
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
