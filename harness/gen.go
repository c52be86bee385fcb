package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// Schema generator. Raw (verbatim) expression text lives in RawExpr maps so the
// renderer can print it; canonical text lives in the State.

type Gen struct {
	r *rand.Rand
	d Dialect
	// Raw text of expressions, keyed by canonical text.
	raw map[string]string
	// size knobs
	MaxTables, MaxCols, MaxCons, MaxIdx int
	Hostile                             int // percent of hostile names / literals
	serial                              int
}

func newGen(r *rand.Rand, d Dialect) *Gen {
	g := &Gen{r: r, d: d, raw: map[string]string{}, MaxTables: 3, MaxCols: 6, MaxCons: 4, MaxIdx: 3, Hostile: 15}
	if r.Intn(30) == 0 { // wide tables
		g.MaxTables, g.MaxCols, g.MaxCons, g.MaxIdx = 2, 24, 30, 12
	}
	return g
}

func (g *Gen) pct(p int) bool          { return g.r.Intn(100) < p }
func (g *Gen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

var plainNames = []string{"id", "user_id", "user", "users", "users2", "a", "b", "ab", "a_b", "b_c", "c", "name", "names", "created_at", "updated_at", "group_id", "description", "age", "status", "total", "x1", "x2", "x11", "item", "items", "email", "code", "long_column_name_with_many_parts_0123456789", "_u", "t", "tt", "val", "n", "parent_id", "amount", "orders", "event", "log", "balance"}

// Names that only work quoted: reserved words, spaces, mixed case, comment
// markers, separators and non ASCII text.
var hostileNames = []string{"order", "select", "Table", "primary", "not null", "My Table", "a--b", "semi;colon", "comma,name", "paren(x)", "naïve", "日本語", "MixedCase", "default", "check", "it's", "tab\tname", "unique", "on delete", "index", "x y z", "CREATE", "constraint", "foreign key", "references", "1st", "-", "é"}

func needsQuote(n string) bool {
	for _, p := range plainNames {
		if p == n {
			return false
		}
	}
	if n == "" {
		return true
	}
	for i := 0; i < len(n); i++ {
		c := n[i]
		ok := c >= 'a' && c <= 'z' || c == '_' || i > 0 && (c >= '0' && c <= '9' || c == '.')
		if !ok {
			return true
		}
	}
	return sqlKeyword[strings.ToUpper(n)]
}

var sqlKeyword = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`EQUAL GREATER LESS CREATE ALTER DROP RENAME TRUNCATE DELETE UPDATE TABLE INDEX VIEW IF EXISTS USING ON TO
BOOLEAN BOOL SMALLINT INTEGER INT BIGINT DECIMAL NUMERIC REAL DOUBLE PRECISION SMALLSERIAL SERIAL BIGSERIAL UUID JSONB CHARACTER VARYING VARCHAR TEXT
TIMESTAMP TIMESTAMPTZ WITH TIME ZONE DEFAULT NOT ASC DESC CASCADE NO ACTION CONSTRAINT PRIMARY KEY FOREIGN REFERENCES UNIQUE CHECK NULLIF NULL TRUE FALSE
INT2 INT4 INT8 FLOAT4 FLOAT8 STRING VISIBLE AS STORED VIRTUAL RESTRICT SET BIT TINYINT MEDIUMINT JSON CHAR MEDIUMTEXT LONGTEXT DATETIME DATE ENUM COMMENT
ENGINE CHARSET COLLATE AUTO_INCREMENT CURRENT_TIMESTAMP INT64 FLOAT64 BYTES ARRAY STRUCT OPTIONS INTERLEAVE IN PARENT ROW DELETION POLICY OLDER_THAN INTERVAL DAY
SELECT ORDER GROUP WHERE FROM AND OR VALUES LIMIT`) {
		sqlKeyword[k] = true
	}
}

// name returns a name not in used.
func (g *Gen) name(used map[string]bool) string {
	for i := 0; ; i++ {
		var n string
		if g.pct(g.Hostile) {
			n = hostileNames[g.r.Intn(len(hostileNames))]
			if g.d != SP && g.pct(15) { // with the quotation mark itself
				n = g.pick("\"id", "id\"", "\"id\"", "a\"b", "`id", "id`", "`id`", "a`b")
			}
		} else {
			n = plainNames[g.r.Intn(len(plainNames))]
		}
		if i > 20 {
			g.serial++
			n = fmt.Sprintf("n%d", g.serial)
		}
		if (g.d == PG || g.d == CR) && i == 0 && g.pct(g.Hostile/3) {
			if v := g.caseVariant(used); v != "" {
				return v
			}
		}
		if !used[strings.ToLower(n)] {
			markUsed(used, n)
			return n
		}
	}
}

// markUsed records a name in lower case and, behind "=", as it is.
func markUsed(used map[string]bool, n string) {
	used[strings.ToLower(n)], used["="+n] = true, true
}

// caseVariant is a name that differs from one in use by the case of its letters only.
func (g *Gen) caseVariant(used map[string]bool) string {
	var l []string
	for k := range used {
		if !strings.HasPrefix(k, "=") && !strings.Contains(k, ".") {
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return ""
	}
	sort.Strings(l)
	v := l[g.r.Intn(len(l))]
	if g.pct(50) {
		v = strings.ToUpper(v)
	} else {
		v = strings.ToUpper(v[:1]) + v[1:]
	}
	if strings.ToLower(v) == v || used["="+v] || !utf8.ValidString(v) {
		return ""
	}
	markUsed(used, v)
	return v
}

func (g *Gen) expr(raw string) string {
	c := canonToks(mustLex(raw, g.d))
	g.raw[c] = raw
	return c
}

// onUpdate is the ON UPDATE that a column of the type can have.
func (g *Gen) onUpdate(typ string) string {
	i := strings.IndexByte(typ, '(')
	if base := strings.TrimSpace(typ[:max(i, 0)]); i > 0 && (base == "DATETIME" || base == "TIMESTAMP") {
		return "CURRENT_TIMESTAMP" + g.expr(typ[i:])
	}
	if typ == "DATETIME" || typ == "TIMESTAMP" {
		return "CURRENT_TIMESTAMP"
	}
	return ""
}

var litContents = []string{"", "x", "hello world", "a--b", "-- not a comment", "a;b", "; DROP TABLE users;", "a,b", "(", ")", "a)b(", "NULL", "NOT NULL", "日本語", "naïve", "\"dq\"", "100%", "a/b", "tab\there", "line1\nline2", "x\n-1, y", "x\n+1\n--2\n- 3", "cr\rDROP TABLE users;", "crlf\r\nx", "  spaces  ", "PRIMARY KEY", "#hash", "/* c */", "{}", "[1,2]", "a=b", "CURRENT_TIMESTAMP"}

func (g *Gen) strLit() string {
	s := g.pick(litContents...)
	if !g.pct(g.Hostile * 2) {
		s = g.pick("x", "y", "abc", "open", "closed", "0")
	}
	if g.pct(g.Hostile/2) && g.d != SP {
		s += "''" + g.pick("", "s", "x")
	}
	if g.d == MY && g.pct(g.Hostile/3) {
		s += "\\'" + g.pick("", "s")
	}
	return "'" + s + "'"
}

// ---- types ----

func (g *Gen) typ(family string) string {
	n := func(a ...string) string { return g.pick(a...) }
	switch g.d {
	case PG:
		switch family {
		case "int":
			return n("INTEGER", "BIGINT", "SMALLINT")
		case "text":
			return n("TEXT", "CHARACTER VARYING(10)", "CHARACTER VARYING(255)", "CHARACTER VARYING")
		case "bool":
			return "BOOLEAN"
		case "time":
			return n("TIMESTAMPTZ", "TIMESTAMP", "TIMESTAMPTZ(3)", "TIMESTAMP(0)")
		case "num":
			return n("NUMERIC(10,2)", "NUMERIC(10,4)", "NUMERIC", "NUMERIC(5)", "REAL", "DOUBLE PRECISION")
		case "misc":
			return n("UUID", "JSONB", "SERIAL", "BIGSERIAL", "SMALLSERIAL")
		}
	case CR:
		switch family {
		case "int":
			return n("INT2", "INT4", "INT8")
		case "text":
			return n("STRING", "VARCHAR(10)", "VARCHAR(255)", "VARCHAR", "STRING(36)")
		case "bool":
			return "BOOL"
		case "time":
			return n("TIMESTAMPTZ", "TIMESTAMP", "TIMESTAMPTZ(3)", "TIMESTAMP(0)")
		case "num":
			return n("DECIMAL(10,2)", "DECIMAL", "DECIMAL(12,3)", "FLOAT8", "FLOAT4", "DECIMAL(5)")
		case "misc":
			return n("UUID", "JSONB", "SERIAL", "BIGSERIAL", "SMALLSERIAL")
		}
	case MY:
		switch family {
		case "int":
			return n("INTEGER", "BIGINT", "SMALLINT", "TINYINT", "BIGINT(20)")
		case "text":
			return n("TEXT", "VARCHAR(10)", "VARCHAR(255)", "CHAR(3)", "MEDIUMTEXT", "LONGTEXT", "ENUM('a','b')", "ENUM('a','b','c')", "ENUM('it''s','a,b',')','')", "ENUM('A','b -- c')", "VARCHAR(20000)")
		case "bool":
			return "TINYINT(1)"
		case "time":
			return n("TIMESTAMP", "DATETIME", "DATETIME(6)", "TIMESTAMP(3)", "DATE", "TIME", "TIME(3)")
		case "num":
			return n("DECIMAL(10,2)", "DECIMAL(10,4)", "DECIMAL(5)", "DOUBLE", "DOUBLE(10,2)", "DECIMAL")
		case "misc":
			return n("JSON", "BIT(8)", "BIT")
		}
	case SP:
		switch family {
		case "int":
			return "INT64"
		case "text":
			return n("STRING(MAX)", "STRING(10)", "STRING(255)", "STRING(2621440)")
		case "bool":
			return "BOOL"
		case "time":
			return "TIMESTAMP"
		case "num":
			return n("NUMERIC", "FLOAT64")
		case "misc":
			return "JSON"
		}
	}
	panic(family)
}

var families = []string{"int", "int", "int", "text", "text", "text", "bool", "time", "num", "misc"}

func (g *Gen) defaultFor(family string) string {
	var c []string
	switch g.d {
	case PG:
		switch family {
		case "int":
			c = []string{"0", "1", "42", "-1", "(1 + 2)", "nextval('seq')", "0::bigint", "length('abc')", "(3 << 2)", "(7 != 2)::int"}
		case "text":
			c = []string{"''", g.strLit(), g.strLit(), g.strLit() + "::text", "'a' || 'b'", "lower('ABC')", "concat('a', 'b', now())", "E'a\\nb'", "e'it\\'s'::text", "('{}'::jsonb ->> 'a')"}
		case "bool":
			c = []string{"true", "FALSE"}
		case "time":
			c = []string{"now()", "CURRENT_TIMESTAMP", "now() + '1 day'::text", "timezone('utc'::text, now())"}
		case "num":
			c = []string{"0", "1.50", "0.0", "1e-3", "2.5E+4"}
		default:
			return ""
		}
	case CR:
		switch family {
		case "int":
			c = []string{"0", "1", "0:::INT8", "unique_rowid()", "(1 + 2)", "-1"}
		case "text":
			c = []string{"''", g.strLit(), g.strLit() + ":::STRING", g.strLit() + "::TEXT", "'a' || 'b'", "e'a\\nb'", "e'it\\'s':::STRING"}
		case "bool":
			c = []string{"true", "FALSE"}
		case "time":
			c = []string{"now()", "now():::TIMESTAMPTZ", "CURRENT_TIMESTAMP"}
		case "num":
			c = []string{"0", "1.50:::DECIMAL", "1E-3:::DECIMAL"}
		default:
			return ""
		}
	case MY:
		switch family {
		case "int":
			c = []string{"0", "1", "42", "'0'", "(1 + 2)", "b'1'", "x'41'", "(3 << 2)", "(7 != 2)"}
		case "text":
			c = []string{"''", g.strLit(), g.strLit(), "(uuid())"}
		case "bool":
			c = []string{"TRUE", "false", "0", "'1'"}
		case "time":
			c = []string{"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP(6)", "'2024-01-01 00:00:00'"}
		case "num":
			c = []string{"0", "1.50", "0.00", "1e-3", "2.5E+4"}
		default:
			return ""
		}
	case SP:
		switch family {
		case "int":
			c = []string{"(0)", "(1)", "(1 + 2)", "(LENGTH('abc'))", "(3 << 2)"}
		case "text":
			c = []string{"('')", "(" + g.strLit() + ")", "(GENERATE_UUID())", "(r'a\\d')", "('a' || 'b')", "(CONCAT('a', 'b'))"}
		case "bool":
			c = []string{"(TRUE)", "(false)"}
		case "time":
			c = []string{"(CURRENT_TIMESTAMP())", "(TIMESTAMP_ADD(CURRENT_TIMESTAMP(), 1))"}
		case "num":
			c = []string{"(0)", "(1.5)", "(1e-3)"}
		default:
			return ""
		}
	}
	return g.expr(c[g.r.Intn(len(c))])
}

func (g *Gen) familyOf(t string) string {
	b := t
	if i := strings.IndexByte(b, '('); i >= 0 {
		b = b[:i]
	}
	switch b {
	case "INTEGER", "BIGINT", "SMALLINT", "INT2", "INT4", "INT8", "INT64":
		return "int"
	case "TINYINT":
		if t == "TINYINT(1)" {
			return "bool"
		}
		return "int"
	case "TEXT", "CHARACTER VARYING", "STRING", "VARCHAR", "CHAR", "MEDIUMTEXT", "LONGTEXT", "ENUM":
		return "text"
	case "BOOLEAN", "BOOL":
		return "bool"
	case "TIMESTAMPTZ", "TIMESTAMP", "DATETIME", "DATE", "TIME":
		return "time"
	case "NUMERIC", "DECIMAL", "REAL", "DOUBLE PRECISION", "FLOAT4", "FLOAT8", "FLOAT64", "DOUBLE":
		return "num"
	}
	return "misc"
}

func (g *Gen) column(name string) *Col {
	f := families[g.r.Intn(len(families))]
	c := &Col{Name: name, Type: g.typ(f), Attrs: map[string]string{}}
	c.NotNull = g.pct(50)
	if g.pct(35) {
		c.Default = g.defaultFor(f)
	}
	switch g.d {
	case MY:
		if f == "text" && c.Type != "JSON" && g.pct(10) {
			c.Attrs["CHARSET"] = g.pick("UTF8MB4", "LATIN1")
		}
		if f == "text" && g.pct(10) {
			c.Attrs["COLLATE"] = g.pick("UTF8MB4_BIN", "LATIN1_BIN")
		}
		if v := g.onUpdate(c.Type); v != "" && g.pct(40) {
			c.Attrs["ON UPDATE"] = v
		}
		if g.pct(15) {
			c.Attrs["COMMENT"] = g.expr(g.strLit())
		}
	case CR:
		if g.pct(6) {
			c.Attrs["NOT VISIBLE"] = "1"
		}
		if g.pct(6) && (f == "text") && c.Default == "" {
			c.Attrs["AS"] = g.expr("("+g.pick("lower('X')", "concat('a', 'b')", "upper('y' || 'z')")+")") + " " + g.pick("STORED", "VIRTUAL")
		}
	case SP:
		if f == "time" && g.pct(30) {
			c.Attrs["OPTIONS"] = g.columnOptions()
		}
	}
	return c
}

func (g *Gen) checkExpr(t *Table) string {
	c := t.Cols[g.r.Intn(len(t.Cols))]
	n := g.identText(c.Name, false)
	var raw string
	if g.pct(40) {
		return g.expr(g.operatorExpr(n))
	}
	switch g.r.Intn(8) {
	case 0:
		raw = "(" + n + " > 0)"
	case 1:
		raw = "(" + n + " >= 1 AND " + n + " <= 10)"
	case 2:
		raw = "(" + n + " <> " + g.strLit() + ")"
	case 3:
		raw = "(" + n + " IN ('a', 'b', " + g.strLit() + "))"
	case 4:
		raw = "((" + n + " IS NOT NULL) OR (length(" + n + ") < 5))"
	case 5:
		raw = "(" + n + " = TRUE OR " + n + " IS NULL)"
	case 6:
		raw = "(" + n + " * 2 + 1 > 3 - 1)"
	default:
		raw = "(" + n + " LIKE " + g.strLit() + ")"
	}
	return g.expr(raw)
}

// operatorExpr is an expression with an operator that is more than one character, or a literal that is more than a quoted text.
func (g *Gen) operatorExpr(n string) string {
	x := g.strLit()
	c := []string{
		n + " != 3", n + " << 1 > 2", n + " >> 2 < 8", n + " || " + x + " <> 'ab'", n + " != " + x + " AND " + n + " <> 'b'",
		n + " NOT IN (1, 2)", n + " BETWEEN 1 AND 10", "NOT (" + n + " = 0)", "CASE WHEN " + n + " > 1 THEN TRUE ELSE FALSE END",
		n + " % 2 = 0", n + " & 1 = 1", n + " | 4 > 0", n + " > -1", n + "<=-1", n + "!=-5", n + " * 1.5e-3 < 2E+10", n + "=b'01'",
	}
	switch g.d {
	case PG:
		c = append(c, n+" ->> 'k' = "+x, n+"->'k' IS NOT NULL", n+" #>> '{a,b}' <> ''", n+" ~* '^a'", n+" !~ 'b$'", n+" !~~ 'c%'", n+" @> '{}'", n+" <@ '{}'", n+" ? 'a'", n+" ?| "+x, n+" && "+x, n+" = E'a\\n'", n+" <> e'it\\'s'", n+" = B'101'", n+" ^ 2 > 1")
	case CR:
		c = append(c, n+" ->> 'k' = "+x, n+"->'k' IS NOT NULL", n+" ~* '^a'", n+" !~ 'b$'", n+" @> '{}'", n+" <@ '{}'", n+" ?| "+x, n+" && "+x, n+" = e'a\\n'", n+" <> E'it\\'s'", n+" // 2 > 1")
	case MY:
		c = append(c, n+"->>'$.k' = "+x, n+"->'$.k' <> 'x'", n+" <=> 3", n+" <=> NULL", n+" && TRUE", n+" = x'4142'", n+" <> N'abc'", n+" ^ 2 > 1", "! ("+n+" > 2)")
	case SP:
		c = append(c, n+" = r'\\d+'", n+" != b'abc'", n+" = rb\"x\"", n+" = B\"\"", n+" = R'a\\'b'")
	}
	return "(" + c[g.r.Intn(len(c))] + ")"
}

// identText quotes a name when needed (or when q asks for it).
func (g *Gen) identText(n string, q bool) string {
	if i := strings.IndexByte(n, '.'); i > 0 && (g.d == PG || g.d == CR) {
		a, b := n[:i], n[i+1:]
		if needsQuote(a) || needsQuote(b) || q && g.pct(60) {
			return g.identText(a, q && g.pct(50)) + "." + g.identText(b, q)
		}
	}
	if q || needsQuote(n) {
		qc := "\""
		if g.d == SP || g.d == MY {
			qc = "`"
		}
		return qc + strings.ReplaceAll(n, qc, qc+qc) + qc
	}
	return n
}

func (g *Gen) keyColsFrom(t *Table, max int, desc bool) []KeyCol {
	p := g.r.Perm(len(t.Cols))
	n := 1 + g.r.Intn(max)
	if n > len(p) {
		n = len(p)
	}
	var out []KeyCol
	for _, i := range p[:n] {
		out = append(out, KeyCol{t.Cols[i].Name, desc && g.pct(25)})
	}
	return out
}

func (g *Gen) canBeUnnamed(t *Table, k *Con) bool {
	return k.Kind != KIndex || k.Unique && len(k.Cols) == 1 && !k.Cols[0].Desc
}

func (g *Gen) conName(s *State, t *Table, kind string) string {
	base := t.Name
	suf := map[string]string{KPK: "_pkey", KFK: "_fkey", KUnique: "_key", KCheck: "_check", KIndex: "_idx"}[kind]
	for i := 0; ; i++ {
		g.serial++
		n := fmt.Sprintf("%s%s%d", strings.ReplaceAll(base, ".", "_"), suf, g.serial)
		if needsQuote(base) || g.pct(30) {
			n = fmt.Sprintf("k%d%s", g.serial, suf)
		}
		if g.pct(g.Hostile / 2) {
			n = g.pick(hostileNames...) + fmt.Sprint(g.serial)
		}
		if g.nameFree(s, n) {
			return n
		}
	}
}

func (g *Gen) nameFree(s *State, n string) bool { return g.free(s, n, false) }

// free tells whether nothing has the name; an index (index) may share the name of a table where the names of indexes are their own.
func (g *Gen) free(s *State, n string, index bool) bool {
	for _, t := range s.Tables {
		if t.Name == n && !(index && (g.d == MY || g.d == CR)) {
			return false
		}
		for _, k := range t.Cons {
			if k.Name == n {
				return false
			}
		}
	}
	return s.index(n) == nil
}

func (g *Gen) fk(s *State, t *Table) *Con {
	var refs []*Table
	for _, x := range s.Tables {
		refs = append(refs, x)
		if x == t {
			break
		}
	}
	if len(refs) == 0 {
		return nil
	}
	r := refs[g.r.Intn(len(refs))]
	if len(r.Cols) == 0 {
		return nil
	}
	n := 1
	if g.pct(20) {
		n = 2
	}
	if n > len(r.Cols) || n > len(t.Cols) {
		n = 1
	}
	k := &Con{Kind: KFK, Ref: r.Name}
	a, b := g.r.Perm(len(t.Cols)), g.r.Perm(len(r.Cols))
	if g.pct(50) { // the columns of a key
		var keys [][]KeyCol
		for _, x := range r.Cons {
			if x.isKey() && len(x.Cols) <= len(t.Cols) {
				keys = append(keys, x.Cols)
			}
		}
		if len(keys) > 0 {
			b = b[:0]
			for _, kc := range keys[g.r.Intn(len(keys))] {
				for i, c := range r.Cols {
					if c.Name == kc.Name {
						b = append(b, i)
					}
				}
			}
			n = len(b)
		}
	}
	for i := 0; i < n; i++ {
		k.Cols = append(k.Cols, KeyCol{Name: t.Cols[a[i]].Name})
		k.RefCols = append(k.RefCols, r.Cols[b[i]].Name)
	}
	if g.d != SP {
		if g.pct(30) {
			k.OnDel = g.pick("CASCADE", "CASCADE", "NO ACTION")
		}
		if g.pct(30) && (g.d == MY || k.OnDel == "") {
			k.OnUpd = g.pick("CASCADE", "CASCADE", "NO ACTION")
		}
	}
	return k
}

func (g *Gen) constraint(s *State, t *Table, kind string) *Con {
	var k *Con
	switch kind {
	case KFK:
		k = g.fk(s, t)
		if k == nil {
			return nil
		}
	case KCheck:
		k = &Con{Kind: KCheck, Expr: g.checkExpr(t)}
	case KUnique:
		k = &Con{Kind: KUnique, Cols: g.keyColsFrom(t, 3, false)}
		for _, pk := range t.Cons { // a column of the primary key that is unique on its own
			if pk.Kind == KPK && len(pk.Cols) > 1 && g.pct(25) {
				k.Cols = []KeyCol{{Name: pk.Cols[g.r.Intn(len(pk.Cols))].Name}}
			}
		}
		switch g.d {
		case SP:
			return nil
		case CR, MY:
			k.Kind, k.Unique = KIndex, true
			for i := range k.Cols {
				k.Cols[i].Desc = g.pct(20)
			}
		}
	case KIndex:
		if g.d == PG || g.d == SP {
			return nil
		}
		k = &Con{Kind: KIndex, Cols: g.keyColsFrom(t, 3, true)}
		if g.d == CR && g.pct(15) {
			k.Using = g.pick(" USING HASH", " USING HASH WITH ( BUCKET_COUNT = 4 )", " USING HASH WITH ( BUCKET_COUNT = 8 )")
		}
	case KPK:
		if g.d == SP {
			return nil
		}
		k = &Con{Kind: KPK, Cols: g.keyColsFrom(t, 2, g.d == CR)}
	}
	for _, x := range t.Cons {
		if x.body() == k.body() {
			return nil
		}
	}
	if g.pct(60) || !g.canBeUnnamed(t, k) {
		k.Name = g.conName(s, t, k.Kind)
	}
	if g.d == MY && k.Kind == KPK {
		k.Name = ""
	}
	return k
}

// checkColumn returns the column a CHECK can be attached to: the first column
// of the table named in it.
func checkColumn(t *Table, k *Con, d Dialect) string {
	toks := strings.Fields(k.Expr)
	for _, c := range t.Cols {
		want := strings.ToUpper(c.Name)
		if needsQuote(c.Name) {
			want = "\"" + c.Name + "\""
			if strings.Contains(k.Expr, want) {
				return c.Name
			}
			continue
		}
		for _, x := range toks {
			if x == want {
				return c.Name
			}
		}
	}
	return ""
}

func (g *Gen) tableNamed(s *State, name string) *Table {
	t := &Table{Name: name}
	s.Tables = append(s.Tables, t)
	s.Order = append(s.Order, "t:"+name)
	used := map[string]bool{}
	nc := 1 + g.r.Intn(g.MaxCols)
	for i := 0; i < nc; i++ {
		t.Cols = append(t.Cols, g.column(g.name(used)))
	}
	if g.d == MY && g.pct(30) {
		for _, c := range t.Cols {
			if g.familyOf(c.Type) == "int" {
				c.Attrs["AUTO_INCREMENT"] = "1"
				c.NotNull, c.Default = true, ""
				break
			}
		}
	}
	if g.d != SP && g.pct(75) {
		if k := g.constraint(s, t, KPK); k != nil {
			for _, c := range t.Cols {
				if c.Attrs["AUTO_INCREMENT"] != "" && g.pct(70) { // mysql wants a key that starts with it
					cols := []KeyCol{{Name: c.Name}}
					for _, x := range k.Cols {
						if x.Name != c.Name {
							cols = append(cols, x)
						}
					}
					k.Cols = cols
				}
			}
			t.Cons = append(t.Cons, k)
		}
	}
	for i := g.r.Intn(g.MaxCons + 1); i > 0; i-- {
		if k := g.constraint(s, t, g.pick(KFK, KFK, KUnique, KCheck, KCheck, KIndex)); k != nil {
			t.Cons = append(t.Cons, k)
		}
	}
	switch g.d {
	case MY:
		if g.pct(60) {
			t.setOpt("ENGINE", "INNODB")
		}
		if g.pct(20) {
			t.setOpt("AUTO_INCREMENT", g.pick("10", "100"))
		}
		if g.pct(50) {
			t.setOpt("DEFAULT CHARSET", g.pick("UTF8MB4", "LATIN1"))
		}
		if g.pct(40) {
			t.setOpt("COLLATE", g.pick("UTF8MB4_BIN", "UTF8MB4_GENERAL_CI"))
		}
		if g.pct(30) {
			t.setOpt("COMMENT", g.expr(g.strLit()))
		}
	case SP:
		t.setOpt(KPK, keyCols(g.keyColsFrom(t, 2, true)))
		g.spannerTail(s, t)
	}
	t.imply(g.d)
	return t
}

func (g *Gen) spannerTail(s *State, t *Table) {
	if g.pct(20) && len(s.Tables) > 1 {
		p := s.Tables[g.r.Intn(len(s.Tables)-1)]
		v := qn(p.Name)
		if g.pct(60) {
			v += " ON DELETE CASCADE"
		}
		t.setOpt("INTERLEAVE", v)
	}
	if g.pct(20) {
		for _, c := range t.Cols {
			if c.Type == "TIMESTAMP" && !needsQuote(c.Name) {
				t.setOpt("ROW DELETION POLICY", g.expr(fmt.Sprintf("(OLDER_THAN(%s, INTERVAL %s DAY))", c.Name, g.pick("1", "30"))))
				break
			}
		}
	}
}

func (g *Gen) tableName(used map[string]bool) string {
	if (g.d == PG && g.pct(12)) || (g.d == CR && g.pct(8)) {
		for {
			n := g.pick("public", "app", "s1") + "." + g.pick("users", "items", "a", "log", "orders")
			if g.pct(g.Hostile) {
				n = g.pick("public", "app", "My App") + "." + g.pick("order", "My Table", "MixedCase", "references")
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	return g.name(used)
}

func (g *Gen) indexFor(s *State, t *Table) *Index {
	ix := &Index{Table: t.Name, Unique: g.pct(30), Cols: g.keyColsFrom(t, 3, g.d != PG)}
	g.serial++
	ix.Name = fmt.Sprintf("idx_%d", g.serial)
	if !needsQuote(t.Name) && !strings.Contains(t.Name, ".") && g.pct(50) {
		ix.Name = fmt.Sprintf("%s_idx%d", t.Name, g.serial)
	} else if g.pct(g.Hostile) {
		ix.Name = g.pick(hostileNames...) + fmt.Sprint(g.serial)
	}
	if (g.d == MY || g.d == CR) && len(s.Tables) > 0 && g.pct(8) {
		if n := s.Tables[g.r.Intn(len(s.Tables))].Name; !strings.Contains(n, ".") {
			ix.Name = n
		}
	}
	if (g.d == PG || g.d == CR) && g.pct(25) {
		ix.Using = g.pick("BTREE", "GIN", "HASH")
		if g.d == CR {
			ix.Using = g.pick("BTREE", "GIN")
		}
	}
	if g.d == CR && ix.Using == "" && g.pct(15) {
		ix.Post = g.pick("HASH", "HASH WITH ( BUCKET_COUNT = 4 )", "HASH WITH ( BUCKET_COUNT = 8 )")
	}
	return ix
}

func (g *Gen) schema() *State {
	s := &State{D: g.d}
	used := map[string]bool{}
	nt := 1 + g.r.Intn(g.MaxTables)
	for i := 0; i < nt; i++ {
		g.tableNamed(s, g.tableName(used))
		if g.pct(50) {
			g.maybeIndexes(s, 1)
		}
	}
	g.maybeIndexes(s, g.MaxIdx-1)
	return s
}

func (g *Gen) maybeIndexes(s *State, max int) {
	for i := g.r.Intn(max + 1); i > 0; i-- {
		ix := g.indexFor(s, s.Tables[g.r.Intn(len(s.Tables))])
		if g.free(s, ix.Name, true) {
			s.Indexes = append(s.Indexes, ix)
			s.Order = append(s.Order, "i:"+ix.Name)
		}
	}
}

// columnOptions is the OPTIONS list of a spanner column.
func (g *Gen) columnOptions() string {
	o := "allow_commit_timestamp = " + g.pick("true", "NULL")
	if g.pct(30) {
		o += ", locality_group = " + g.pick("'hot'", "'cold_storage'", "NULL")
	}
	return g.expr("(" + o + ")")
}
