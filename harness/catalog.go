package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// serverStatements renders a state as the server's own SHOW CREATE does: one
// statement per table (cockroachdb: with its indexes), in name order.
func serverStatements(s *State, raw map[string]string) []string {
	var out []string
	for _, t := range s.Tables {
		if s.D == MY || s.D == CR { // the server lists indexes with their table
			t = t.clone()
			for _, ix := range s.Indexes {
				if ix.Table == t.Name && ix.Using == "" {
					t.Cons = append(t.Cons, &Con{Kind: KIndex, Name: ix.Name, Unique: ix.Unique, Cols: ix.Cols, Using: ix.Post})
				}
			}
		}
		one := &State{D: s.D, Tables: []*Table{t}, Order: []string{"t:" + t.Name}}
		out = append(out, renderServer(one, raw))
		if s.D == CR {
			for _, ix := range s.Indexes {
				if ix.Table == t.Name && ix.Using != "" {
					out = append(out, renderServer(&State{D: s.D, Indexes: []*Index{ix}, Order: []string{"i:" + ix.Name}}, raw))
				}
			}
		}
	}
	return out
}

func renderServer(s *State, raw map[string]string) string {
	g := newGen(newRand(1), s.D)
	if raw != nil {
		g.raw = raw
	}
	st := plainStyle(newRand(1))
	st.Inline = 0
	return strings.TrimSpace(g.render(s, st))
}

// catalogOf lists the catalogue rows of a state.
func catalogOf(s *State, raw map[string]string) map[string]catTable {
	switch s.D {
	case PG:
		return pgCatalog(s, raw)
	case SP:
		return spannerCatalog(s, raw)
	case MY:
		rows := [][]any{}
		for _, t := range s.Tables {
			rows = append(rows, []any{"def", "appdb", t.Name, "BASE TABLE"})
		}
		rows = append(rows, []any{"def", "appdb", "a_view", "VIEW"})
		rows = append(rows, []any{"def", "otherdb", "elsewhere", "BASE TABLE"}, []any{"def", "information_schema", "TABLES", "SYSTEM VIEW"})
		return map[string]catTable{"information_schema.TABLES": {Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE"}, Rows: rows}}
	}
	return map[string]catTable{}
}

func splitSchema(n string) (string, string) {
	if a, b, ok := strings.Cut(n, "."); ok {
		return a, b
	}
	return "public", n
}

// pgCatalog: the columns of information_schema and pg_indexes that describe the state.
func pgCatalog(s *State, raw map[string]string) map[string]catTable {
	tables := catTable{Cols: []string{"table_catalog", "table_schema", "table_name", "table_type"}}
	cols := catTable{Cols: []string{"table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type", "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision"}}
	tcs := catTable{Cols: []string{"constraint_schema", "constraint_name", "table_schema", "table_name", "constraint_type"}}
	kcu := catTable{Cols: []string{"constraint_schema", "constraint_name", "table_schema", "table_name", "column_name", "ordinal_position", "position_in_unique_constraint"}}
	rc := catTable{Cols: []string{"constraint_schema", "constraint_name", "unique_constraint_schema", "unique_constraint_name", "update_rule", "delete_rule"}}
	idx := catTable{Cols: []string{"schemaname", "tablename", "indexname", "tablespace", "indexdef"}}
	for _, t := range s.Tables {
		sch, name := splitSchema(t.Name)
		tables.Rows = append(tables.Rows, []any{"db", sch, name, "BASE TABLE"})
		for i, c := range t.Cols {
			typ, length, prec, scale, dprec := c.Type, any(nil), any(nil), any(nil), any(nil)
			if b, n, ok := strings.Cut(c.Type, "("); ok {
				typ, length = strings.TrimSpace(b), strings.TrimSpace(strings.TrimSuffix(n, ")"))
			}
			switch typ {
			case "NUMERIC":
				if n, ok := length.(string); ok {
					a, b, ok := strings.Cut(n, ",")
					if !ok {
						b = "0"
					}
					prec, scale, length = atoi(a), atoi(b), nil
				}
			case "INTEGER":
				prec, scale = 32, 0
			case "BIGINT":
				prec, scale = 64, 0
			case "SMALLINT":
				prec, scale = 16, 0
			case "TIMESTAMP", "TIMESTAMPTZ":
				dprec = 6
				if n, ok := length.(string); ok {
					dprec, length = atoi(n), nil
				}
			case "REAL":
				prec = 24
			case "DOUBLE PRECISION":
				prec = 53
			}
			if n, ok := length.(string); ok {
				length = atoi(n)
			}
			typ = pgShowType(typ)
			var def any
			if c.Default != "" {
				def = spelled(c.Default, raw)
			}
			nullable := "YES"
			if c.NotNull {
				nullable = "NO"
			}
			cols.Rows = append(cols.Rows, []any{"db", sch, name, c.Name, i + 1, def, nullable, typ, length, prec, scale, dprec})
		}
		for _, k := range t.Cons {
			tcs.Rows = append(tcs.Rows, []any{sch, k.Name, sch, name, k.Kind})
			if k.Kind == KCheck {
				continue
			}
			for i, kc := range k.Cols {
				var pos any
				if k.Kind == KFK {
					if u := refKey(s, k); u != nil {
						for j, uc := range u.Cols {
							if uc.Name == k.RefCols[i] {
								pos = j + 1
							}
						}
					}
				}
				kcu.Rows = append(kcu.Rows, []any{sch, k.Name, sch, name, kc.Name, i + 1, pos})
			}
			if k.Kind == KFK {
				upd, del := k.OnUpd, k.OnDel
				if upd == "" {
					upd = "NO ACTION"
				}
				if del == "" {
					del = "NO ACTION"
				}
				var usch, uname any
				if u := refKey(s, k); u != nil {
					usch, uname = sch, u.Name
				}
				rc.Rows = append(rc.Rows, []any{sch, k.Name, usch, uname, upd, del})
				continue
			}
			ix := &Index{Name: k.Name, Table: t.Name, Unique: true, Cols: k.Cols}
			idx.Rows = append(idx.Rows, []any{sch, name, k.Name, nil, pgIndexDef(ix)})
		}
	}
	// a view, and other schemas with tables of the same names
	tables.Rows = append(tables.Rows, []any{"db", "public", "a_view", "VIEW"}, []any{"db", "pg_catalog", "pg_class", "BASE TABLE"})
	cols.Rows = append(cols.Rows, []any{"db", "public", "a_view", "seen", 1, nil, "YES", "text", nil, nil, nil, nil}, []any{"db", "pg_catalog", "pg_class", "relname", 1, nil, "NO", "name", nil, nil, nil, nil})
	idx.Rows = append(idx.Rows, []any{"pg_catalog", "pg_class", "pg_class_oid_index", nil, "CREATE UNIQUE INDEX pg_class_oid_index ON pg_catalog.pg_class USING btree (oid)"})
	for i, t := range s.Tables {
		_, name := splitSchema(t.Name)
		tables.Rows = append(tables.Rows, []any{"db", "archive", name, "BASE TABLE"})
		cols.Rows = append(cols.Rows, []any{"db", "archive", name, "elsewhere", 1, "1", "NO", "integer", nil, 32, 0, nil})
		for j, k := range t.Cons {
			if k.Kind == KPK || i+j == 0 {
				tcs.Rows = append(tcs.Rows, []any{"archive", k.Name, "archive", name, KUnique})
				kcu.Rows = append(kcu.Rows, []any{"archive", k.Name, "archive", name, "elsewhere", 1, nil})
			} else if k.Kind == KFK { // a foreign key of the same name in another schema
				tcs.Rows = append(tcs.Rows, []any{"archive", k.Name, "archive", name, KFK})
				kcu.Rows = append(kcu.Rows, []any{"archive", k.Name, "archive", name, "elsewhere", 1, 1})
				rc.Rows = append(rc.Rows, []any{"archive", k.Name, "archive", "nowhere", "SET NULL", "RESTRICT"})
			}
		}
		idx.Rows = append(idx.Rows, []any{"archive", name, name + "_elsewhere", nil, "CREATE INDEX elsewhere ON archive." + name + " USING btree (elsewhere)"})
	}
	for _, ix := range s.Indexes {
		sch, name := splitSchema(ix.Table)
		idx.Rows = append(idx.Rows, []any{sch, name, ix.Name, nil, pgIndexDef(ix)})
	}
	// rows come in no particular order
	for _, t := range []*catTable{&tables, &cols, &tcs, &kcu, &rc, &idx} {
		shuffleRows(t.Rows, len(s.Tables)*31+len(t.Rows))
	}
	return map[string]catTable{
		"information_schema.tables": tables, "information_schema.columns": cols, "information_schema.table_constraints": tcs,
		"information_schema.key_column_usage": kcu, "information_schema.referential_constraints": rc, "pg_indexes": idx,
	}
}

func atoi(s string) any {
	n, err := strconv.Atoi(strings.TrimSpace(s))
	if err != nil {
		return nil
	}
	return n
}

var rePlainIdent = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

// pgQuoteIdent is the server's quote_ident.
func pgQuoteIdent(n string) string {
	if rePlainIdent.MatchString(n) && !pgKeywords[n] {
		return n
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

// keywords of the generated names that the server does not quote itself
var pgKeywords = wordSetLower("all and as check constraint create default desc foreign from group order primary references select table unique user using where with")

func wordSetLower(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func shuffleRows(rows [][]any, seed int) {
	newRand(int64(seed)).Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
}

func pgIndexDef(ix *Index) string {
	u := ""
	if ix.Unique {
		u = "UNIQUE "
	}
	using := strings.ToLower(ix.Using)
	if using == "" {
		using = "btree"
	}
	var cs []string
	for _, c := range ix.Cols {
		n := pgQuoteIdent(c.Name)
		if c.Desc {
			n += " DESC"
		}
		cs = append(cs, n)
	}
	sch, name := splitSchema(ix.Table)
	return "CREATE " + u + "INDEX " + pgQuoteIdent(ix.Name) + " ON " + pgQuoteIdent(sch) + "." + pgQuoteIdent(name) + " USING " + using + " (" + strings.Join(cs, ", ") + ")"
}

// spannerCatalog: INFORMATION_SCHEMA of a spanner database.
func spannerCatalog(s *State, raw map[string]string) map[string]catTable {
	tables := catTable{Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "PARENT_TABLE_NAME", "ON_DELETE_ACTION", "SPANNER_STATE", "ROW_DELETION_POLICY_EXPRESSION"}}
	cols := catTable{Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_DEFAULT", "DATA_TYPE", "IS_NULLABLE", "SPANNER_TYPE"}}
	copts := catTable{Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "OPTION_NAME", "OPTION_TYPE", "OPTION_VALUE"}}
	idx := catTable{Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "PARENT_TABLE_NAME", "IS_UNIQUE", "IS_NULL_FILTERED", "INDEX_STATE", "SPANNER_IS_MANAGED"}}
	icols := catTable{Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_ORDERING", "IS_NULLABLE", "SPANNER_TYPE"}}
	ord := func(k KeyCol) string {
		if k.Desc {
			return "DESC"
		}
		return "ASC"
	}
	for _, t := range s.Tables {
		var rdp any
		if v := t.opt("ROW DELETION POLICY"); v != "" {
			rdp = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(spelled(v, raw)), "("), ")"))
		}
		var parent, action any
		if v := t.opt("INTERLEAVE"); v != "" {
			parent, action = interleaveParent(v), "NO ACTION"
			if strings.HasSuffix(v, " ON DELETE CASCADE") {
				action = "CASCADE"
			}
		}
		tables.Rows = append(tables.Rows, []any{"", "", t.Name, "BASE TABLE", parent, action, "COMMITTED", rdp})
		for i, c := range t.Cols {
			var def any
			if c.Default != "" {
				def = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(spelled(c.Default, raw), "("), ")"))
			}
			nullable := "YES"
			if c.NotNull {
				nullable = "NO"
			}
			cols.Rows = append(cols.Rows, []any{"", "", t.Name, c.Name, i + 1, def, nil, nullable, c.Type})
			for _, o := range colOptions(c) {
				copts.Rows = append(copts.Rows, []any{"", "", t.Name, c.Name, o[0], "BOOL", o[1]})
			}
		}
		idx.Rows = append(idx.Rows, []any{"", "", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, nil, false})
		for i, k := range parseKeyColsCanon(t.opt("PRIMARY KEY")) {
			icols.Rows = append(icols.Rows, []any{"", "", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", k.Name, i + 1, ord(k), "NO", ""})
		}
		for _, ix := range s.Indexes {
			if ix.Table != t.Name {
				continue
			}
			idx.Rows = append(idx.Rows, []any{"", "", t.Name, ix.Name, "INDEX", "", ix.Unique, false, "READ_WRITE", false})
			for i, k := range ix.Cols {
				icols.Rows = append(icols.Rows, []any{"", "", t.Name, ix.Name, "INDEX", k.Name, i + 1, ord(k), "NO", ""})
			}
		}
	}
	tables.Rows = append(tables.Rows, []any{"", "", "AView", "VIEW", nil, nil, nil, nil})
	cols.Rows = append(cols.Rows, []any{"", "", "AView", "Seen", 1, nil, nil, "NO", "STRING(MAX)"})
	for i, t := range s.Tables { // another schema with tables of the same names
		tables.Rows = append(tables.Rows, []any{"", "archive", t.Name, "BASE TABLE", "elsewhere_parent", "CASCADE", "COMMITTED", nil})
		cols.Rows = append(cols.Rows, []any{"", "archive", t.Name, "Elsewhere", 1, nil, nil, "NO", "INT64"})
		copts.Rows = append(copts.Rows, []any{"", "archive", t.Name, "Elsewhere", "allow_commit_timestamp", "BOOL", "TRUE"})
		idx.Rows = append(idx.Rows, []any{"", "archive", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, nil, false})
		icols.Rows = append(icols.Rows, []any{"", "archive", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "Elsewhere", 1, "DESC", "NO", "INT64"})
		name := fmt.Sprintf("elsewhere_%d", i)
		if len(s.Indexes) > i {
			name = s.Indexes[i].Name
		}
		idx.Rows = append(idx.Rows, []any{"", "archive", t.Name, name, "INDEX", "", i%2 == 0, false, "READ_WRITE", false})
		icols.Rows = append(icols.Rows, []any{"", "archive", t.Name, name, "INDEX", "Elsewhere", 1, "ASC", "NO", "INT64"})
	}
	for _, n := range []string{"TABLES", "COLUMNS"} {
		tables.Rows = append(tables.Rows, []any{"", "INFORMATION_SCHEMA", n, "VIEW", nil, nil, nil, nil})
		cols.Rows = append(cols.Rows, []any{"", "INFORMATION_SCHEMA", n, "TABLE_NAME", 1, nil, nil, "NO", "STRING(MAX)"})
	}
	for _, t := range []*catTable{&cols, &copts, &idx, &icols} {
		shuffleRows(t.Rows, len(s.Tables)*31+len(t.Rows))
	}
	sort.SliceStable(copts.Rows, func(i, j int) bool { return copts.Rows[i][4].(string) < copts.Rows[j][4].(string) })
	return map[string]catTable{
		"information_schema.TABLES": tables, "information_schema.COLUMNS": cols, "information_schema.COLUMN_OPTIONS": copts,
		"information_schema.INDEXES": idx, "information_schema.INDEX_COLUMNS": icols,
	}
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

// pgShowType is the data_type of information_schema.columns.
func pgShowType(t string) string {
	switch t {
	case "TIMESTAMPTZ":
		return "timestamp with time zone"
	case "TIMESTAMP":
		return "timestamp without time zone"
	case "SERIAL":
		return "integer"
	case "BIGSERIAL":
		return "bigint"
	case "SMALLSERIAL":
		return "smallint"
	}
	return strings.ToLower(t)
}

// colOptions lists the OPTIONS of a spanner column.
func colOptions(c *Col) [][2]string {
	var out [][2]string
	v := strings.TrimSpace(c.Attrs["OPTIONS"])
	v = strings.TrimSuffix(strings.TrimPrefix(v, "("), ")")
	for _, p := range strings.Split(v, ",") {
		if k, val, ok := strings.Cut(p, "="); ok {
			out = append(out, [2]string{strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(val)})
		}
	}
	return out
}

// spelled is the source spelling of a canonical expression.
func spelled(canon string, raw map[string]string) string {
	if v, ok := raw[canon]; ok {
		return v
	}
	return canon
}

// refKey finds the primary key or unique constraint that a foreign key refers to.
func refKey(s *State, k *Con) *Con {
	t := s.table(k.Ref)
	if t == nil {
		return nil
	}
	for _, u := range t.Cons {
		if u.Kind != KPK && u.Kind != KUnique || len(u.Cols) != len(k.RefCols) {
			continue
		}
		have := map[string]bool{}
		for _, c := range u.Cols {
			have[c.Name] = true
		}
		all := true
		for _, c := range k.RefCols {
			all = all && have[c]
		}
		if all {
			return u
		}
	}
	return nil
}
