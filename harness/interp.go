package main

import (
	"fmt"
	"strings"
)

// Independent DDL interpreter: parses SQL text and applies it to a State.
// It is deliberately strict: anything it does not know is an error.

type cursor struct {
	t   []Tok
	i   int
	d   Dialect
	raw map[string]string // optional: the spelling of each expression, by canonical text
}

func (c *cursor) canon(ts []Tok) string {
	s := canonToks(ts)
	if c.raw != nil {
		p := make([]string, len(ts))
		for i, t := range ts {
			p[i] = t.Raw
		}
		c.raw[s] = strings.Join(p, " ")
	}
	return s
}

type interpErr struct{ msg string }

func (c *cursor) fail(format string, a ...any) {
	ctx := ""
	for j := c.i - 3; j < c.i+4; j++ {
		if j >= 0 && j < len(c.t) {
			if j == c.i {
				ctx += " >>" + c.t[j].Raw + "<<"
			} else {
				ctx += " " + c.t[j].Raw
			}
		}
	}
	panic(interpErr{fmt.Sprintf(format, a...) + " near" + ctx})
}

func (c *cursor) eof() bool { return c.i >= len(c.t) }

func (c *cursor) peek() Tok {
	if c.eof() {
		return Tok{K: 'E'}
	}
	return c.t[c.i]
}

func (c *cursor) at(off int) Tok {
	if c.i+off >= len(c.t) {
		return Tok{K: 'E'}
	}
	return c.t[c.i+off]
}

func (t Tok) isKw(k string) bool { return t.K == 'w' && strings.EqualFold(t.S, k) }
func (t Tok) isOp(o string) bool { return t.K == 'o' && t.S == o }

func (c *cursor) kw(ks ...string) bool {
	for j, k := range ks {
		if !c.at(j).isKw(k) {
			return false
		}
	}
	c.i += len(ks)
	return true
}

func (c *cursor) isKws(ks ...string) bool {
	for j, k := range ks {
		if !c.at(j).isKw(k) {
			return false
		}
	}
	return true
}

func (c *cursor) need(ks ...string) {
	for _, k := range ks {
		if !c.kw(k) {
			c.fail("expected %s", k)
		}
	}
}

func (c *cursor) op(o string) bool {
	if c.peek().isOp(o) {
		c.i++
		return true
	}
	return false
}

func (c *cursor) needOp(o string) {
	if !c.op(o) {
		c.fail("expected %q", o)
	}
}

// reserved words that can never be an unquoted identifier in any dialect
var strictReserved = map[string]bool{"CREATE": true, "TABLE": true, "PRIMARY": true, "FOREIGN": true, "REFERENCES": true, "UNIQUE": true, "CHECK": true, "CONSTRAINT": true, "NOT": true, "NULL": true, "DEFAULT": true, "ON": true}

// ident reads a name; the parts of a qualified name can be quoted on their own.
func (c *cursor) ident() string {
	if c.d != PG && c.d != CR {
		return c.identPart()
	}
	t, n := c.peek(), c.at(1)
	switch {
	case t.K == 'w' && len(t.S) > 1 && strings.HasSuffix(t.S, ".") && n.K == 'q': // a."b"
		c.i++
		return strings.ToLower(t.S) + c.identPart()
	case t.K == 'q' && n.K == 'w' && n.S == "." && c.at(2).K == 'q': // "a"."b"
		c.i += 2
		return t.S + "." + c.identPart()
	case t.K == 'q' && n.K == 'w' && len(n.S) > 1 && strings.HasPrefix(n.S, "."): // "a".b
		c.i += 2
		return t.S + strings.ToLower(n.S)
	}
	return c.identPart()
}

func (c *cursor) identPart() string {
	t := c.peek()
	switch {
	case t.K == 'w':
		if strictReserved[strings.ToUpper(t.S)] {
			c.fail("reserved word used as identifier")
		}
		if strings.HasPrefix(t.S, ".") || strings.HasSuffix(t.S, ".") {
			c.fail("malformed identifier")
		}
	case t.K == 'q' && t.P == "":
	case t.K == 's' && t.Q == '"' && t.P == "" && (c.d == MY || c.d == SP):
	default:
		c.fail("expected identifier")
	}
	if t.S == "" {
		c.fail("empty identifier")
	}
	c.i++
	if t.K == 'w' && (c.d == PG || c.d == CR) {
		return strings.ToLower(t.S) // unquoted identifiers are folded
	}
	return t.S
}

// parens consumes a balanced parenthesised group and returns its tokens
// including the outer parentheses.
func (c *cursor) parens() []Tok {
	if !c.peek().isOp("(") {
		c.fail("expected (")
	}
	st := c.i
	depth := 0
	for !c.eof() {
		t := c.t[c.i]
		c.i++
		if t.isOp("(") {
			depth++
		} else if t.isOp(")") {
			depth--
			if depth == 0 {
				return c.t[st:c.i]
			}
		}
	}
	c.fail("unbalanced parentheses")
	return nil
}

func (c *cursor) keyCols() []KeyCol {
	c.needOp("(")
	var out []KeyCol
	for {
		k := KeyCol{Name: c.ident()}
		if c.kw("DESC") {
			k.Desc = true
		} else {
			c.kw("ASC")
		}
		out = append(out, k)
		if c.op(")") {
			return out
		}
		c.needOp(",")
	}
}

func (c *cursor) names() []string {
	var out []string
	for _, k := range c.keyCols() {
		out = append(out, k.Name)
	}
	return out
}

var baseTypes = map[Dialect]map[string]string{
	PG: {"BOOLEAN": "BOOLEAN", "BOOL": "BOOLEAN", "SMALLINT": "SMALLINT", "INTEGER": "INTEGER", "INT": "INTEGER", "BIGINT": "BIGINT", "DECIMAL": "NUMERIC", "NUMERIC": "NUMERIC", "REAL": "REAL", "SMALLSERIAL": "SMALLSERIAL", "SERIAL": "SERIAL", "BIGSERIAL": "BIGSERIAL", "UUID": "UUID", "JSONB": "JSONB", "VARCHAR": "CHARACTER VARYING", "TEXT": "TEXT"},
	CR: {"BOOLEAN": "BOOL", "BOOL": "BOOL", "INT2": "INT2", "SMALLINT": "INT2", "INT4": "INT4", "INTEGER": "INT4", "INT": "INT4", "INT8": "INT8", "BIGINT": "INT8", "DECIMAL": "DECIMAL", "NUMERIC": "DECIMAL", "REAL": "FLOAT4", "FLOAT4": "FLOAT4", "FLOAT8": "FLOAT8", "SMALLSERIAL": "SMALLSERIAL", "SERIAL": "SERIAL", "BIGSERIAL": "BIGSERIAL", "UUID": "UUID", "JSONB": "JSONB", "VARCHAR": "VARCHAR", "TEXT": "STRING", "STRING": "STRING"},
	MY: {"BOOLEAN": "TINYINT(1)", "BIT": "BIT", "TINYINT": "TINYINT", "SMALLINT": "SMALLINT", "INTEGER": "INTEGER", "INT": "INTEGER", "BIGINT": "BIGINT", "DECIMAL": "DECIMAL", "NUMERIC": "DECIMAL", "REAL": "DOUBLE", "JSON": "JSON", "CHAR": "CHAR", "VARCHAR": "VARCHAR", "TEXT": "TEXT", "MEDIUMTEXT": "MEDIUMTEXT", "LONGTEXT": "LONGTEXT", "TIMESTAMP": "TIMESTAMP", "DATETIME": "DATETIME", "DATE": "DATE", "TIME": "TIME", "ENUM": "ENUM"},
	SP: {"BOOL": "BOOL", "INT64": "INT64", "NUMERIC": "NUMERIC", "FLOAT64": "FLOAT64", "JSON": "JSON", "STRING": "STRING", "TIMESTAMP": "TIMESTAMP", "BYTES": "BYTES", "DATE": "DATE"},
}

func (c *cursor) typeName() string {
	t := c.peek()
	if t.K != 'w' {
		c.fail("expected a data type")
	}
	up := strings.ToUpper(t.S)
	var base string
	switch {
	case (c.d == PG || c.d == CR) && up == "TIMESTAMP" && c.at(1).isOp("("):
		c.i++
		args := canonTypeArgs(c.parens())
		if c.kw("WITH", "TIME", "ZONE") {
			return "TIMESTAMPTZ" + args
		}
		c.kw("WITHOUT", "TIME", "ZONE")
		return "TIMESTAMP" + args
	case (c.d == PG || c.d == CR) && c.kw("TIMESTAMP", "WITH", "TIME", "ZONE"), (c.d == PG || c.d == CR) && c.kw("TIMESTAMPTZ"):
		base = "TIMESTAMPTZ"
	case (c.d == PG || c.d == CR) && (c.kw("TIMESTAMP", "WITHOUT", "TIME", "ZONE") || c.kw("TIMESTAMP")):
		base = "TIMESTAMP"
	case c.d == CR && c.kw("DOUBLE", "PRECISION"):
		base = "FLOAT8"
	case c.d == PG && c.kw("DOUBLE", "PRECISION"):
		base = "DOUBLE PRECISION"
	case c.d == MY && (c.kw("DOUBLE", "PRECISION") || c.kw("DOUBLE")):
		base = "DOUBLE"
	case c.d == PG && c.kw("CHARACTER", "VARYING"):
		base = "CHARACTER VARYING"
	case c.d != SP && c.kw("CHARACTER", "VARYING"):
		base = "VARCHAR"
	default:
		b, ok := baseTypes[c.d][up]
		if !ok {
			c.fail("unknown data type")
		}
		c.i++
		base = b
	}
	if c.peek().isOp("(") {
		ts := c.parens()
		base += canonTypeArgs(ts)
	}
	return base
}

func canonTypeArgs(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(canonTok(t))
	}
	return b.String()
}

var defaultStop = map[Dialect]map[string]bool{
	PG: {"NOT": true, "PRIMARY": true, "UNIQUE": true, "CHECK": true, "REFERENCES": true, "CONSTRAINT": true},
	CR: {"NOT": true, "PRIMARY": true, "UNIQUE": true, "CHECK": true, "REFERENCES": true, "CONSTRAINT": true, "AS": true, "STORED": true, "VIRTUAL": true},
	MY: {"NOT": true, "PRIMARY": true, "UNIQUE": true, "CHECK": true, "REFERENCES": true, "CONSTRAINT": true, "ON": true, "COMMENT": true, "AUTO_INCREMENT": true, "COLLATE": true, "CHARACTER": true},
	SP: {"NOT": true, "PRIMARY": true, "UNIQUE": true, "CHECK": true, "REFERENCES": true, "CONSTRAINT": true, "OPTIONS": true},
}

// valueExpr consumes an expression up to a stop word, comma or closing paren at depth 0.
func (c *cursor) valueExpr() string {
	st := c.i
	for !c.eof() {
		t := c.peek()
		if t.isOp(",") || t.isOp(")") || t.isOp(";") {
			break
		}
		if t.K == 'w' && defaultStop[c.d][strings.ToUpper(t.S)] {
			break
		}
		if t.isKw("NULL") && c.i > st && (c.t[c.i-1].K != 'o' || c.t[c.i-1].isOp(")")) {
			break
		}
		if t.isOp("(") {
			c.parens()
			continue
		}
		c.i++
	}
	if c.i == st {
		c.fail("empty expression")
	}
	return c.canon(c.t[st:c.i])
}

func (c *cursor) fkTail(con *Con) {
	con.Ref = c.ident()
	con.RefCols = c.names()
	for c.kw("ON") {
		var act string
		del := false
		switch {
		case c.kw("DELETE"):
			del = true
		case c.kw("UPDATE"):
		default:
			c.fail("expected DELETE or UPDATE")
		}
		switch {
		case c.kw("CASCADE"):
			act = "CASCADE"
		case c.kw("NO", "ACTION"):
			act = "NO ACTION"
		case c.kw("RESTRICT"):
			act = "RESTRICT"
		case c.kw("SET", "NULL"):
			act = "SET NULL"
		default:
			c.fail("unknown referential action")
		}
		if del {
			if con.OnDel != "" {
				c.fail("duplicate ON DELETE")
			}
			con.OnDel = act
		} else {
			if con.OnUpd != "" {
				c.fail("duplicate ON UPDATE")
			}
			con.OnUpd = act
		}
	}
}

func (c *cursor) crUsing() string {
	if c.kw("USING") {
		st := c.i
		c.ident()
		if c.kw("WITH") {
			c.parens()
		}
		return " USING " + c.canon(c.t[st:c.i])
	}
	return ""
}

// columnDef parses "name type attrs..." and returns inline constraints.
// noNull: DEFAULT NULL is the same as no default
func noNull(v string) string {
	if v == "NULL" {
		return ""
	}
	return v
}

func (c *cursor) columnDef(inlineOK bool) (*Col, []*Con) {
	col := &Col{Name: c.ident(), Attrs: map[string]string{}}
	col.Type = c.typeName()
	var cons []*Con
	seen := map[string]bool{}
	once := func(k string) {
		if seen[k] {
			c.fail("duplicate %s", k)
		}
		seen[k] = true
	}
	for {
		conName := ""
		if inlineOK && c.kw("CONSTRAINT") {
			conName = c.ident()
		}
		switch {
		case c.kw("NOT", "NULL"):
			once("null")
			col.NotNull = true
		case c.kw("NULL"):
			once("null")
			col.Null = true
		case c.kw("DEFAULT"):
			once("DEFAULT")
			col.Default = noNull(c.valueExpr())
		case inlineOK && c.kw("PRIMARY", "KEY"):
			once("PK")
			cons = append(cons, &Con{Kind: KPK, Name: conName, Cols: []KeyCol{{Name: col.Name}}})
		case inlineOK && c.d != SP && c.kw("UNIQUE"):
			once("UNIQUE")
			k := &Con{Kind: KUnique, Name: conName, Cols: []KeyCol{{Name: col.Name}}}
			if c.d == CR || c.d == MY {
				k.Kind, k.Unique = KIndex, true
			}
			cons = append(cons, k)
		case inlineOK && c.kw("CHECK"):
			cons = append(cons, &Con{Kind: KCheck, Name: conName, Expr: c.canon(c.parens())})
		case inlineOK && c.kw("REFERENCES"):
			k := &Con{Kind: KFK, Name: conName, Cols: []KeyCol{{Name: col.Name}}}
			c.fkTail(k)
			cons = append(cons, k)
		case c.d == CR && c.kw("NOT", "VISIBLE"):
			once("visible")
			col.Attrs["NOT VISIBLE"] = "1"
		case c.d == CR && c.kw("AS"):
			once("as")
			col.Attrs["AS"] = c.canon(c.parens())
			switch {
			case c.kw("STORED"):
				col.Attrs["AS"] += " STORED"
			case c.kw("VIRTUAL"):
				col.Attrs["AS"] += " VIRTUAL"
			}
		case c.d == MY && c.kw("CHARACTER", "SET"):
			once("charset")
			col.Attrs["CHARSET"] = canonTok(Tok{K: 'w', S: c.ident()})
		case c.d == MY && c.kw("COLLATE"):
			once("collate")
			col.Attrs["COLLATE"] = canonTok(Tok{K: 'w', S: c.ident()})
		case c.d == MY && c.kw("AUTO_INCREMENT"):
			once("ai")
			col.Attrs["AUTO_INCREMENT"] = "1"
		case c.d == MY && c.kw("ON", "UPDATE"):
			once("onupdate")
			t := c.peek()
			if !t.isKw("CURRENT_TIMESTAMP") && !t.isKw("CASCADE") && !t.isKw("RESTRICT") {
				c.fail("bad ON UPDATE")
			}
			c.i++
			col.Attrs["ON UPDATE"] = strings.ToUpper(t.S)
			if c.peek().isOp("(") {
				col.Attrs["ON UPDATE"] += c.canon(c.parens())
			}
		case c.d == MY && c.kw("COMMENT"):
			once("comment")
			t := c.peek()
			if t.K != 's' {
				c.fail("COMMENT needs a string")
			}
			c.i++
			col.Attrs["COMMENT"] = c.canon([]Tok{t})
		case c.d == SP && c.kw("OPTIONS"):
			once("options")
			col.Attrs["OPTIONS"] = c.canon(c.parens())
		default:
			if conName != "" {
				c.fail("dangling CONSTRAINT name")
			}
			return col, cons
		}
	}
}

// tableConstraint parses a table level constraint when one starts here.
func (c *cursor) tableConstraint(alter bool) *Con {
	start := c.i
	name := ""
	if c.kw("CONSTRAINT") {
		name = c.ident()
	}
	switch {
	case c.kw("PRIMARY", "KEY"):
		k := &Con{Kind: KPK, Name: name, Cols: c.keyCols()}
		if c.d == CR {
			k.Using = c.crUsing()
		}
		return k
	case c.kw("FOREIGN", "KEY"):
		k := &Con{Kind: KFK, Name: name, Cols: c.keyCols()}
		c.need("REFERENCES")
		c.fkTail(k)
		return k
	case c.d == PG && c.kw("UNIQUE"):
		return &Con{Kind: KUnique, Name: name, Cols: c.keyCols()}
	case c.kw("CHECK"):
		return &Con{Kind: KCheck, Name: name, Expr: c.canon(c.parens())}
	case c.d == CR && (c.isKws("UNIQUE", "INDEX") || c.isKws("INDEX")):
		u := c.kw("UNIQUE")
		c.need("INDEX")
		k := &Con{Kind: KIndex, Unique: u, Name: c.ident(), Cols: c.keyCols()}
		k.Using = c.crUsing()
		return k
	case c.d == CR && c.isKws("UNIQUE"):
		c.need("UNIQUE")
		return &Con{Kind: KIndex, Unique: true, Name: name, Cols: c.keyCols()}
	case c.d == MY && (c.isKws("UNIQUE", "KEY") || c.isKws("UNIQUE", "INDEX") || c.isKws("KEY") || c.isKws("INDEX")):
		u := c.kw("UNIQUE")
		if !c.kw("KEY") {
			c.need("INDEX")
		}
		return &Con{Kind: KIndex, Unique: u, Name: c.ident(), Cols: c.keyCols()}
	}
	if name != "" {
		c.fail("unknown constraint")
	}
	c.i = start
	return nil
}

func startsConstraint(c *cursor) bool {
	t := c.peek()
	if t.K != 'w' {
		return false
	}
	switch strings.ToUpper(t.S) {
	case "CONSTRAINT", "PRIMARY", "FOREIGN", "CHECK", "UNIQUE":
		return true
	case "KEY":
		return c.d == MY
	case "INDEX":
		return c.d == MY || c.d == CR
	}
	return false
}

func (c *cursor) createTable() *Table {
	t := &Table{Name: c.ident()}
	c.needOp("(")
	if c.op(")") {
		return c.tableTail(t)
	}
	for {
		if c.d == SP && c.op(")") { // trailing comma is legal in Spanner
			return c.tableTail(t)
		}
		if startsConstraint(c) {
			k := c.tableConstraint(false)
			if k == nil {
				c.fail("bad table constraint")
			}
			t.Cons = append(t.Cons, k)
		} else {
			col, cons := c.columnDef(true)
			if t.col(col.Name) != nil {
				c.fail("duplicate column %q", col.Name)
			}
			t.Cols = append(t.Cols, col)
			t.Cons = append(t.Cons, cons...)
		}
		if c.op(")") {
			return c.tableTail(t)
		}
		c.needOp(",")
	}
}

func (c *cursor) mysqlOption(t *Table) bool {
	var k string
	switch {
	case c.kw("ENGINE"):
		k = "ENGINE"
	case c.kw("AUTO_INCREMENT"):
		k = "AUTO_INCREMENT"
	case c.kw("DEFAULT", "CHARSET"), c.kw("DEFAULT", "CHARACTER", "SET"), c.kw("CHARSET"):
		k = "DEFAULT CHARSET"
	case c.kw("COLLATE"), c.kw("DEFAULT", "COLLATE"):
		k = "COLLATE"
	case c.kw("COMMENT"):
		k = "COMMENT"
	default:
		return false
	}
	c.needOp("=")
	v := c.peek()
	if v.K == 'o' || v.K == 'E' {
		c.fail("bad option value")
	}
	c.i++
	if t.opt(k) != "" && false {
		c.fail("duplicate option")
	}
	t.setOpt(k, c.canon([]Tok{v}))
	return true
}

func (c *cursor) rowDeletion() string {
	c.need("ROW", "DELETION", "POLICY")
	return c.canon(c.parens())
}

func (c *cursor) tableTail(t *Table) *Table {
	switch c.d {
	case MY:
		for c.mysqlOption(t) {
			c.op(",")
		}
	case SP:
		for {
			switch {
			case c.kw("PRIMARY", "KEY"):
				if c.peek().isOp("(") && c.at(1).isOp(")") {
					c.i += 2
					t.setOpt(KPK, "()")
				} else {
					t.setOpt(KPK, keyCols(c.keyCols()))
				}
			case c.kw("INTERLEAVE", "IN", "PARENT"):
				v := qn(c.ident())
				if c.kw("ON", "DELETE") {
					switch {
					case c.kw("CASCADE"):
						v += " ON DELETE CASCADE"
					case c.kw("NO", "ACTION"):
						// the default
					default:
						c.fail("bad interleave action")
					}
				}
				t.setOpt("INTERLEAVE", v)
			case c.isKws("ROW", "DELETION", "POLICY"):
				t.setOpt("ROW DELETION POLICY", c.rowDeletion())
			default:
				return t
			}
			if !c.op(",") {
				return t
			}
		}
	}
	return t
}

// Stmt is a parsed statement, kept for event logs.
type Stmt struct {
	Verb  string // CREATE TABLE, DROP TABLE, CREATE INDEX, DROP INDEX, ALTER TABLE
	Obj   string
	Act   string // ALTER action
	Sub   string // column / constraint touched
	apply func(e *Engine) error
}

// Engine executes parsed statements against a state.
type Engine struct {
	S      *State
	Strict bool // dependency checks between objects
	// AnyOrder: a column may lose its NOT NULL before the primary key goes
	AnyOrder bool
	// AutoKey: mysql's AUTO_INCREMENT columns need a key that starts with them, all the time
	AutoKey bool
	// Real (recorded findings only): mysql wants the table's name in DROP INDEX, and
	// cockroachdb CASCADE for an index that was created as a constraint
	Real bool
	// NeedKey tells which foreign keys (table, constraint) are required to have
	// their key in the referenced table at all times
	NeedKey func(t *Table, k *Con) bool
	Raw     map[string]string
	Log     []*Stmt
}

func newEngine(d Dialect, strict bool) *Engine { return &Engine{S: &State{D: d}, Strict: strict} }

// isKey: a primary key or a unique constraint
func (k *Con) isKey() bool {
	return k.Kind == KPK || k.Kind == KUnique || k.Kind == KIndex && k.Unique
}

// keysFor are the keys and unique indexes of just the columns that the foreign
// key references; sure leaves out those of CREATE INDEX.
func (s *State) keysFor(fk *Con, sure bool) map[string]bool {
	m := map[string]bool{}
	t := s.table(fk.Ref)
	if t == nil {
		return m
	}
	same := func(cols []KeyCol) bool {
		for _, c := range fk.RefCols {
			if !usesCol(cols, c) {
				return false
			}
		}
		return len(cols) == len(fk.RefCols)
	}
	for _, k := range t.Cons {
		if k.isKey() && same(k.Cols) {
			m[k.canon()] = true
		}
	}
	for _, i := range s.Indexes {
		if !sure && i.Table == t.Name && i.Unique && same(i.Cols) {
			m[i.canon()] = true
		}
	}
	return m
}

// autoKeys are the keys that start with each AUTO_INCREMENT column of the table.
func (s *State) autoKeys(t *Table) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for _, c := range t.Cols {
		if c.Attrs["AUTO_INCREMENT"] == "" {
			continue
		}
		m[c.Name] = map[string]bool{}
		for _, k := range t.Cons {
			if (k.Kind == KPK || k.Kind == KUnique || k.Kind == KIndex) && len(k.Cols) > 0 && k.Cols[0].Name == c.Name {
				m[c.Name][k.canon()] = true
			}
		}
		for _, i := range s.Indexes {
			if i.Table == t.Name && i.Cols[0].Name == c.Name {
				m[c.Name]["INDEX"] = true
			}
		}
	}
	return m
}

// parseScript splits the token stream at top level semicolons.
func parseScript(sql string, d Dialect) (stmts []*Stmt, err error) {
	return parseScriptRaw(sql, d, nil)
}

func parseScriptRaw(sql string, d Dialect, raw map[string]string) (stmts []*Stmt, err error) {
	toks, err := lexSQL(sql, d)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(interpErr); ok {
				err = fmt.Errorf("%s", ie.msg)
				return
			}
			panic(r)
		}
	}()
	c := &cursor{t: toks, d: d, raw: raw}
	for {
		for c.op(";") {
		}
		if c.eof() {
			return stmts, nil
		}
		stmts = append(stmts, c.statement())
		if !c.eof() && !c.peek().isOp(";") {
			c.fail("unexpected token after statement")
		}
	}
}

func (c *cursor) ifNotExists() bool { return c.kw("IF", "NOT", "EXISTS") }

func (c *cursor) statement() *Stmt {
	switch {
	case c.kw("CREATE", "TABLE"):
		ine := c.ifNotExists()
		t := c.createTable()
		return &Stmt{Verb: "CREATE TABLE", Obj: t.Name, apply: func(e *Engine) error { return e.createTable(t, ine) }}
	case c.isKws("CREATE", "INDEX") || c.isKws("CREATE", "UNIQUE", "INDEX"):
		c.need("CREATE")
		u := c.kw("UNIQUE")
		c.need("INDEX")
		ine := c.ifNotExists()
		ix := &Index{Unique: u, Name: c.ident()}
		c.need("ON")
		ix.Table = c.ident()
		if (c.d == PG || c.d == CR) && c.kw("USING") {
			ix.Using = strings.ToUpper(c.ident())
		}
		ix.Cols = c.keyCols()
		if c.d == CR {
			ix.Post = strings.TrimPrefix(c.crUsing(), " USING ")
		}
		return &Stmt{Verb: "CREATE INDEX", Obj: ix.Name, Sub: ix.Table, apply: func(e *Engine) error { return e.createIndex(ix, ine) }}
	case c.kw("DROP", "TABLE"):
		ie := c.kw("IF", "EXISTS")
		n := c.ident()
		return &Stmt{Verb: "DROP TABLE", Obj: n, apply: func(e *Engine) error { return e.dropTable(n, ie) }}
	case c.kw("DROP", "INDEX"):
		ie := c.kw("IF", "EXISTS")
		n := c.ident()
		on := ""
		if c.d == MY && c.kw("ON") {
			on = c.ident()
		}
		return &Stmt{Verb: "DROP INDEX", Obj: n, apply: func(e *Engine) error { return e.dropIndex(n, on, ie) }}
	case c.kw("ALTER", "TABLE"):
		n := c.ident()
		st := c.alter(n)
		st.Verb, st.Obj = "ALTER TABLE", n
		return st
	}
	c.fail("unknown statement")
	return nil
}

func (c *cursor) alter(tbl string) *Stmt {
	tab := func(f func(e *Engine, t *Table) error) func(e *Engine) error {
		return func(e *Engine) error {
			t := e.S.table(tbl)
			if t == nil {
				return fmt.Errorf("ALTER TABLE: no such table %q", tbl)
			}
			return f(e, t)
		}
	}
	colf := func(n string, f func(e *Engine, t *Table, c *Col) error) func(e *Engine) error {
		return tab(func(e *Engine, t *Table) error {
			cc := t.col(n)
			if cc == nil {
				return fmt.Errorf("no such column %q in table %q", n, tbl)
			}
			return f(e, t, cc)
		})
	}
	switch {
	case c.kw("RENAME", "TO"):
		n := c.ident()
		return &Stmt{Act: "RENAME", Sub: n, apply: tab(func(e *Engine, t *Table) error {
			if e.S.table(n) != nil {
				return fmt.Errorf("rename: table %q exists", n)
			}
			for _, ix := range e.S.Indexes {
				if ix.Table == t.Name {
					ix.Table = n
				}
			}
			for _, x := range e.S.Tables {
				for _, k := range x.Cons {
					if k.Ref == t.Name {
						k.Ref = n
					}
				}
			}
			t.Name = n
			return nil
		})}
	case c.kw("ADD", "COLUMN"):
		col, cons := c.columnDef(true)
		return &Stmt{Act: "ADD COLUMN", Sub: col.Name, apply: tab(func(e *Engine, t *Table) error { return e.addColumn(t, col, cons) })}
	case c.kw("DROP", "COLUMN"):
		n := c.ident()
		return &Stmt{Act: "DROP COLUMN", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { return e.dropColumn(t, cc) })}
	case (c.d == PG || c.d == CR) && c.kw("ALTER", "COLUMN"):
		n := c.ident()
		switch {
		case c.kw("SET", "DATA", "TYPE"), c.kw("TYPE"):
			ty := c.typeName()
			return &Stmt{Act: "SET TYPE", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Type = ty; return nil })}
		case c.kw("SET", "DEFAULT"):
			v := noNull(c.valueExpr())
			return &Stmt{Act: "SET DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = v; return nil })}
		case c.kw("DROP", "DEFAULT"):
			return &Stmt{Act: "DROP DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = ""; return nil })}
		case c.kw("SET", "NOT", "NULL"):
			return &Stmt{Act: "SET NOT NULL", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.NotNull = true; return nil })}
		case c.kw("DROP", "NOT", "NULL"):
			return &Stmt{Act: "DROP NOT NULL", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error {
				if t.inPK(n) && !e.AnyOrder {
					return fmt.Errorf("column %q is in a primary key", n)
				}
				cc.NotNull = false
				return nil
			})}
		}
		c.fail("unknown ALTER COLUMN")
	case c.d == SP && c.kw("ALTER", "COLUMN"):
		n := c.ident()
		switch {
		case c.kw("SET", "DEFAULT"):
			v := c.valueExpr()
			return &Stmt{Act: "SET DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = v; return nil })}
		case c.kw("DROP", "DEFAULT"):
			return &Stmt{Act: "DROP DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = ""; return nil })}
		case c.kw("SET", "OPTIONS"):
			v := c.canon(c.parens())
			return &Stmt{Act: "SET OPTIONS", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Attrs["OPTIONS"] = v; return nil })}
		case c.kw("DROP", "OPTIONS"):
			return &Stmt{Act: "DROP OPTIONS", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { delete(cc.Attrs, "OPTIONS"); return nil })}
		}
		// ALTER COLUMN c TYPE [NOT NULL] [DEFAULT expr]
		ty := c.typeName()
		nn := c.kw("NOT", "NULL")
		def := ""
		if c.kw("DEFAULT") {
			def = c.valueExpr()
		}
		return &Stmt{Act: "SET TYPE", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error {
			cc.Type, cc.NotNull = ty, nn
			if def != "" {
				cc.Default = def
			}
			return nil
		})}
	case c.d == MY && c.kw("MODIFY"):
		c.kw("COLUMN")
		col, _ := c.columnDef(false)
		return &Stmt{Act: "MODIFY", Sub: col.Name, apply: colf(col.Name, func(e *Engine, t *Table, cc *Col) error {
			if col.Null && t.inPK(col.Name) && !e.AnyOrder {
				return fmt.Errorf("all parts of a PRIMARY KEY must be NOT NULL: %q", col.Name)
			}
			*cc = *col
			cc.Null = false
			if !e.AnyOrder {
				t.imply(MY)
			}
			return nil
		})}
	case c.d == MY && c.kw("ALTER"):
		n := c.ident()
		switch {
		case c.kw("DROP", "DEFAULT"):
			return &Stmt{Act: "DROP DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = ""; return nil })}
		case c.kw("SET", "DEFAULT"):
			v := c.valueExpr()
			return &Stmt{Act: "SET DEFAULT", Sub: n, apply: colf(n, func(e *Engine, t *Table, cc *Col) error { cc.Default = v; return nil })}
		}
		c.fail("unknown ALTER")
	case c.d == MY && c.kw("DROP", "PRIMARY", "KEY"):
		return &Stmt{Act: "DROP CONSTRAINT", Sub: KPK, apply: tab(func(e *Engine, t *Table) error {
			for i, k := range t.Cons {
				if k.Kind == KPK {
					t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
					return nil
				}
			}
			return fmt.Errorf("DROP PRIMARY KEY: table %q has none", tbl)
		})}
	case c.kw("DROP", "CONSTRAINT"):
		ie := c.kw("IF", "EXISTS")
		n := c.ident()
		return &Stmt{Act: "DROP CONSTRAINT", Sub: n, apply: tab(func(e *Engine, t *Table) error { return e.dropConstraint(t, n, ie) })}
	case c.isKws("ADD", "ROW", "DELETION") || c.isKws("REPLACE", "ROW", "DELETION"):
		add := c.kw("ADD")
		if !add {
			c.need("REPLACE")
		}
		v := c.rowDeletion()
		return &Stmt{Act: "ROW DELETION", apply: tab(func(e *Engine, t *Table) error {
			has := t.opt("ROW DELETION POLICY") != ""
			if has == add {
				return fmt.Errorf("row deletion policy: add=%v but exists=%v", add, has)
			}
			t.setOpt("ROW DELETION POLICY", v)
			return nil
		})}
	case c.kw("DROP", "ROW", "DELETION", "POLICY"):
		return &Stmt{Act: "ROW DELETION", apply: tab(func(e *Engine, t *Table) error {
			if t.opt("ROW DELETION POLICY") == "" {
				return fmt.Errorf("no row deletion policy to drop")
			}
			t.setOpt("ROW DELETION POLICY", "")
			return nil
		})}
	case c.kw("ADD"):
		k := c.tableConstraint(true)
		if k == nil {
			c.fail("unknown ADD")
		}
		c.kw("NOT", "VALID")
		return &Stmt{Act: "ADD CONSTRAINT", Sub: k.Name, apply: tab(func(e *Engine, t *Table) error { return e.addConstraint(t, k, true) })}
	case c.d == MY:
		t := &Table{}
		for c.mysqlOption(t) {
			c.op(",")
		}
		if len(t.Opts) == 0 {
			c.fail("unknown ALTER TABLE action")
		}
		return &Stmt{Act: "OPTION", Sub: t.Opts[0].K, apply: tab(func(e *Engine, tt *Table) error {
			for _, o := range t.Opts {
				tt.setOpt(o.K, o.V)
			}
			return nil
		})}
	}
	c.fail("unknown ALTER TABLE action")
	return nil
}

// ---- engine ----

func (e *Engine) run(stmts []*Stmt) error {
	for i, s := range stmts {
		e.Log = append(e.Log, s)
		if err := s.apply(e); err != nil {
			return fmt.Errorf("statement %d (%s %s %s %s): %w", i+1, s.Verb, s.Obj, s.Act, s.Sub, err)
		}
		if e.NeedKey != nil {
			for _, t := range e.S.Tables {
				for _, k := range t.Cons {
					if k.Kind == KFK && e.NeedKey(t, k) && len(e.S.keysFor(k, false)) == 0 {
						return fmt.Errorf("statement %d (%s %s %s %s): there is no key in %q for the foreign key %q of %q", i+1, s.Verb, s.Obj, s.Act, s.Sub, k.Ref, k.Name, t.Name)
					}
				}
			}
		}
		if e.AutoKey {
			for _, t := range e.S.Tables {
				for n, keys := range e.S.autoKeys(t) {
					if len(keys) == 0 {
						return fmt.Errorf("statement %d (%s %s %s %s): the AUTO_INCREMENT column %q of %q is not defined as a key", i+1, s.Verb, s.Obj, s.Act, s.Sub, n, t.Name)
					}
				}
			}
		}
	}
	return nil
}

func (e *Engine) exec(sql string) error {
	st, err := parseScriptRaw(sql, e.S.D, e.Raw)
	if err != nil {
		return fmt.Errorf("unparsable script: %w", err)
	}
	return e.run(st)
}

func interpSQL(sql string, d Dialect) (*State, error) {
	e := newEngine(d, false)
	if err := e.exec(sql); err != nil {
		return nil, err
	}
	return e.S, nil
}

func (e *Engine) createTable(t *Table, ine bool) error {
	if e.S.table(t.Name) != nil {
		if ine {
			return nil
		}
		return fmt.Errorf("table %q already exists", t.Name)
	}
	n := t.clone()
	n.Cons = nil
	if e.Strict {
		if p := t.opt("INTERLEAVE"); p != "" {
			pn := interleaveParent(p)
			if e.S.table(pn) == nil {
				return fmt.Errorf("interleave parent %q does not exist", pn)
			}
		}
	}
	e.S.Tables = append(e.S.Tables, n)
	e.S.Order = append(e.S.Order, "t:"+n.Name)
	for _, k := range t.Cons {
		if err := e.addConstraint(n, k.clone(), false); err != nil {
			return err
		}
	}
	for _, c := range n.Cols {
		c.Null = false
	}
	return nil
}

func interleaveParent(v string) string {
	var p string
	fmt.Sscanf(v, "%q", &p)
	return p
}

func (e *Engine) checkCols(t *Table, cols []KeyCol) error {
	if !e.Strict {
		return nil
	}
	for _, k := range cols {
		if t.col(k.Name) == nil {
			return fmt.Errorf("column %q does not exist in table %q", k.Name, t.Name)
		}
	}
	return nil
}

func (e *Engine) addConstraint(t *Table, k *Con, alter bool) error {
	if k.Name != "" && t.con(k.Name) != nil {
		return fmt.Errorf("constraint %q already exists on %q", k.Name, t.Name)
	}
	if k.Kind == KPK {
		for _, x := range t.Cons {
			if x.Kind == KPK {
				return fmt.Errorf("table %q already has a primary key", t.Name)
			}
		}
	}
	if err := e.checkCols(t, k.Cols); err != nil {
		return err
	}
	if e.Strict && k.Kind == KFK {
		r := e.S.table(k.Ref)
		if r == nil {
			return fmt.Errorf("referenced table %q does not exist", k.Ref)
		}
		for _, rc := range k.RefCols {
			if r.col(rc) == nil {
				return fmt.Errorf("referenced column %q.%q does not exist", k.Ref, rc)
			}
		}
	}
	if k.Kind == KPK && e.S.D != SP {
		for _, c := range t.Cols {
			if c.Null && usesCol(k.Cols, c.Name) {
				return fmt.Errorf("all parts of a PRIMARY KEY must be NOT NULL: %q", c.Name)
			}
			if e.Strict && alter && e.S.D == CR && !c.NotNull && usesCol(k.Cols, c.Name) {
				return fmt.Errorf("cannot use nullable column %q in primary key", c.Name)
			}
		}
	}
	if e.Strict && k.Kind == KIndex && e.S.D == CR && k.Name != "" && e.S.index(k.Name) != nil && e.S.index(k.Name).Table == t.Name {
		return fmt.Errorf("index %q already exists", k.Name)
	}
	t.Cons = append(t.Cons, k)
	t.imply(e.S.D)
	return nil
}

func (e *Engine) addColumn(t *Table, c *Col, cons []*Con) error {
	if t.col(c.Name) != nil {
		return fmt.Errorf("column %q already exists", c.Name)
	}
	n := c.clone()
	t.Cols = append(t.Cols, n)
	for _, k := range cons {
		if err := e.addConstraint(t, k.clone(), false); err != nil {
			return err
		}
	}
	n.Null = false
	return nil
}

func usesCol(ks []KeyCol, n string) bool {
	for _, k := range ks {
		if k.Name == n {
			return true
		}
	}
	return false
}

func (e *Engine) dropColumn(t *Table, c *Col) error {
	if e.Strict {
		// other tables' foreign keys block the drop
		for _, o := range e.S.Tables {
			for _, k := range o.Cons {
				if k.Kind == KFK && k.Ref == t.Name && !(o == t && usesCol(k.Cols, c.Name)) {
					for _, rc := range k.RefCols {
						if rc == c.Name {
							return fmt.Errorf("column %q.%q is referenced by a foreign key of %q", t.Name, c.Name, o.Name)
						}
					}
				}
			}
		}
		switch e.S.D {
		case PG, CR:
			// dependent indexes and constraints go with the column
			t.Cons = filterCons(t.Cons, func(k *Con) bool { return !k.uses(c.Name) })
			e.S.Indexes = filterIdx(e.S.Indexes, func(i *Index) bool { return !(i.Table == t.Name && usesCol(i.Cols, c.Name)) })
		case MY:
			for _, k := range t.Cons {
				if k.Kind == KFK && usesCol(k.Cols, c.Name) {
					return fmt.Errorf("column %q is needed in a foreign key constraint", c.Name)
				}
				if k.Kind == KCheck && k.uses(c.Name) {
					return fmt.Errorf("check constraint %q uses column %q", k.Name, c.Name)
				}
			}
			// the column leaves its indexes; an index without columns disappears
			for _, k := range t.Cons {
				k.Cols = withoutCol(k.Cols, c.Name)
			}
			t.Cons = filterCons(t.Cons, func(k *Con) bool { return len(k.Cols) > 0 || k.Kind == KCheck })
			for _, i := range e.S.Indexes {
				if i.Table == t.Name {
					i.Cols = withoutCol(i.Cols, c.Name)
				}
			}
			e.S.Indexes = filterIdx(e.S.Indexes, func(i *Index) bool { return len(i.Cols) > 0 })
		case SP:
			if exprUses(t.opt("ROW DELETION POLICY"), c.Name) {
				return fmt.Errorf("column %q is used by the row deletion policy", c.Name)
			}
			for _, k := range t.Cons {
				if k.uses(c.Name) {
					return fmt.Errorf("column %q is used by constraint %q", c.Name, k.Name)
				}
			}
			for _, i := range e.S.Indexes {
				if i.Table == t.Name && usesCol(i.Cols, c.Name) {
					return fmt.Errorf("column %q is used by index %q", c.Name, i.Name)
				}
			}
		}
	}
	for i, x := range t.Cols {
		if x == c {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			break
		}
	}
	return nil
}

func withoutCol(ks []KeyCol, n string) []KeyCol {
	var out []KeyCol
	for _, k := range ks {
		if k.Name != n {
			out = append(out, k)
		}
	}
	return out
}

func filterCons(in []*Con, keep func(*Con) bool) []*Con {
	var out []*Con
	for _, k := range in {
		if keep(k) {
			out = append(out, k)
		}
	}
	return out
}

func filterIdx(in []*Index, keep func(*Index) bool) []*Index {
	var out []*Index
	for _, k := range in {
		if keep(k) {
			out = append(out, k)
		}
	}
	return out
}

func (e *Engine) dropConstraint(t *Table, n string, ie bool) error {
	for i, k := range t.Cons {
		if k.Name == n {
			t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
			return nil
		}
	}
	if ie {
		return nil
	}
	return fmt.Errorf("constraint %q does not exist on %q", n, t.Name)
}

func (e *Engine) createIndex(ix *Index, ine bool) error {
	if e.S.index(ix.Name) != nil {
		if ine {
			return nil
		}
		return fmt.Errorf("index %q already exists", ix.Name)
	}
	if e.Strict {
		t := e.S.table(ix.Table)
		if t == nil {
			return fmt.Errorf("index %q: table %q does not exist", ix.Name, ix.Table)
		}
		if err := e.checkCols(t, ix.Cols); err != nil {
			return err
		}
	}
	e.S.Indexes = append(e.S.Indexes, ix.clone())
	e.S.Order = append(e.S.Order, "i:"+ix.Name)
	return nil
}

// dropIndex removes a standalone index or, where the dialect declares indexes
// inside CREATE TABLE, an inline one.
func (e *Engine) dropIndex(n, on string, ie bool) error {
	if e.Real && e.S.D == MY && on == "" {
		return fmt.Errorf("syntax error: DROP INDEX %q does not say ON which table", n)
	}
	for i, x := range e.S.Indexes {
		if x.Name == n && (on == "" || x.Table == on) {
			e.S.Indexes = append(e.S.Indexes[:i:i], e.S.Indexes[i+1:]...)
			return nil
		}
	}
	if e.S.D == CR || e.S.D == MY {
		var hit *Table
		for _, t := range e.S.Tables {
			if k := t.con(n); k != nil && k.Kind == KIndex && (on == "" || on == t.Name) {
				if hit != nil {
					return fmt.Errorf("DROP INDEX %q is ambiguous", n)
				}
				hit = t
			}
		}
		if hit != nil && e.Real && e.S.D == CR && hit.con(n).Unique {
			return fmt.Errorf("index %q is in use as unique constraint", n)
		}
		if hit != nil {
			return e.dropConstraint(hit, n, false)
		}
	}
	if ie {
		return nil
	}
	return fmt.Errorf("index %q does not exist", n)
}

func (e *Engine) dropTable(n string, ie bool) error {
	t := e.S.table(n)
	if t == nil {
		if ie {
			return nil
		}
		return fmt.Errorf("table %q does not exist", n)
	}
	if e.Strict {
		for _, o := range e.S.Tables {
			if o == t {
				continue
			}
			for _, k := range o.Cons {
				if k.Kind == KFK && k.Ref == n {
					return fmt.Errorf("table %q is referenced by a foreign key of %q", n, o.Name)
				}
			}
			if p := o.opt("INTERLEAVE"); p != "" && interleaveParent(p) == n {
				return fmt.Errorf("table %q has interleaved child %q", n, o.Name)
			}
		}
		if e.S.D == SP {
			for _, i := range e.S.Indexes {
				if i.Table == n {
					return fmt.Errorf("table %q still has index %q", n, i.Name)
				}
			}
		} else {
			e.S.Indexes = filterIdx(e.S.Indexes, func(i *Index) bool { return i.Table != n })
		}
	}
	for i, x := range e.S.Tables {
		if x == t {
			e.S.Tables = append(e.S.Tables[:i:i], e.S.Tables[i+1:]...)
			break
		}
	}
	return nil
}
