package main

import (
	"fmt"
	"sort"
	"strings"
)

// State is the reference model of a database schema. It is both what the
// generator builds and what the independent interpreter computes from SQL text.
type State struct {
	D       Dialect
	Tables  []*Table
	Indexes []*Index
	Order   []string // creation order of objects: "t:name" / "i:name"
}

type Table struct {
	Name string
	Cols []*Col
	Cons []*Con
	Opts []Opt // mysql table options; spanner PRIMARY KEY / INTERLEAVE / ROW DELETION POLICY
}

type Opt struct{ K, V string }

type Col struct {
	Name    string
	Type    string // canonical
	NotNull bool
	Null    bool   // NULL is spelled out (while a statement is executed)
	Default string // canonical token string ("" none)
	Attrs   map[string]string
}

const (
	KPK     = "PRIMARY KEY"
	KFK     = "FOREIGN KEY"
	KUnique = "UNIQUE"
	KCheck  = "CHECK"
	KIndex  = "INDEX" // inline index (mysql KEY, cockroachdb INDEX)
)

type KeyCol struct {
	Name string
	Desc bool
}

type Con struct {
	Kind    string
	Name    string // "" = unnamed (wildcard)
	Unique  bool   // for KIndex
	Cols    []KeyCol
	Ref     string
	RefCols []string
	OnDel   string
	OnUpd   string
	Expr    string // CHECK expression, canonical tokens including the outer parentheses
	Using   string // cockroachdb hash index tail, canonical tokens
}

type Index struct {
	Name   string
	Table  string
	Unique bool
	Using  string // pg access method (canonical upper); cockroach pre USING
	Post   string // cockroach USING hash WITH (...)
	Cols   []KeyCol
}

func (s *State) table(n string) *Table {
	for _, t := range s.Tables {
		if t.Name == n {
			return t
		}
	}
	return nil
}

func (s *State) index(n string) *Index {
	for _, t := range s.Indexes {
		if t.Name == n {
			return t
		}
	}
	return nil
}

func (t *Table) col(n string) *Col {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (t *Table) con(n string) *Con {
	for _, c := range t.Cons {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (t *Table) opt(k string) string {
	for _, o := range t.Opts {
		if o.K == k {
			return o.V
		}
	}
	return ""
}

func (t *Table) setOpt(k, v string) {
	for i := range t.Opts {
		if t.Opts[i].K == k {
			if v == "" {
				t.Opts = append(t.Opts[:i:i], t.Opts[i+1:]...)
				return
			}
			t.Opts[i].V = v
			return
		}
	}
	if v != "" {
		t.Opts = append(t.Opts, Opt{k, v})
	}
}

func (s *State) clone() *State {
	n := &State{D: s.D, Order: append([]string(nil), s.Order...)}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.clone())
	}
	for _, i := range s.Indexes {
		n.Indexes = append(n.Indexes, i.clone())
	}
	return n
}

func (t *Table) clone() *Table {
	n := &Table{Name: t.Name, Opts: append([]Opt(nil), t.Opts...)}
	for _, c := range t.Cols {
		n.Cols = append(n.Cols, c.clone())
	}
	for _, c := range t.Cons {
		n.Cons = append(n.Cons, c.clone())
	}
	return n
}

// inPK tells whether the column is part of the table's PRIMARY KEY constraint.
func (t *Table) inPK(col string) bool {
	for _, k := range t.Cons {
		if k.Kind == KPK && usesCol(k.Cols, col) {
			return true
		}
	}
	return false
}

// imply makes the columns of primary keys NOT NULL, as postgres, cockroachdb and mysql do.
func (t *Table) imply(d Dialect) {
	for _, c := range t.Cols {
		if d != SP && t.inPK(c.Name) {
			c.NotNull = true
		}
	}
}

func (c *Col) clone() *Col {
	n := *c
	n.Attrs = map[string]string{}
	for k, v := range c.Attrs {
		n.Attrs[k] = v
	}
	return &n
}

func (c *Con) clone() *Con {
	n := *c
	n.Cols = append([]KeyCol(nil), c.Cols...)
	n.RefCols = append([]string(nil), c.RefCols...)
	return &n
}

func (i *Index) clone() *Index {
	n := *i
	n.Cols = append([]KeyCol(nil), i.Cols...)
	return &n
}

func qn(s string) string { return fmt.Sprintf("%q", s) }

func keyCols(cs []KeyCol) string {
	p := make([]string, len(cs))
	for i, c := range cs {
		p[i] = qn(c.Name)
		if c.Desc {
			p[i] += " DESC"
		}
	}
	return "(" + strings.Join(p, ",") + ")"
}

func (c *Col) canon() string {
	s := qn(c.Name) + " " + c.Type
	if c.NotNull {
		s += " NOT NULL"
	}
	if c.Default != "" && c.Default != "NULL" { // DEFAULT NULL is the same as no default
		s += " DEFAULT " + c.Default
	}
	ks := make([]string, 0, len(c.Attrs))
	for k, v := range c.Attrs {
		if v != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += " " + k + "=" + c.Attrs[k]
	}
	return s
}

// body is the constraint's content without its name.
func (c *Con) body() string {
	switch c.Kind {
	case KPK, KUnique:
		return c.Kind + " " + keyCols(c.Cols) + c.Using
	case KIndex:
		s := "INDEX "
		if c.Unique {
			s = "UNIQUE INDEX "
		}
		return s + keyCols(c.Cols) + c.Using
	case KFK:
		s := "FOREIGN KEY " + keyCols(c.Cols) + " REFERENCES " + qn(c.Ref) + " " + fmt.Sprintf("%q", c.RefCols)
		// NO ACTION is the default of every dialect
		if c.OnDel != "" && c.OnDel != "NO ACTION" {
			s += " ON DELETE " + c.OnDel
		}
		if c.OnUpd != "" && c.OnUpd != "NO ACTION" {
			s += " ON UPDATE " + c.OnUpd
		}
		return s
	case KCheck:
		return "CHECK " + c.Expr
	}
	return c.Kind
}

func (c *Con) canon() string { return qn(c.Name) + " " + c.body() }

func (i *Index) canon() string {
	s := "INDEX " + qn(i.Name) + " ON " + qn(i.Table)
	if i.Unique {
		s = "UNIQUE " + s
	}
	u := strings.ToUpper(i.Using)
	if u == "BTREE" { // the default access method
		u = ""
	}
	if u != "" {
		s += " USING " + u
	}
	s += " " + keyCols(i.Cols)
	if i.Post != "" {
		s += " USING " + i.Post
	}
	return s
}

// canonTable lists the comparable lines of a table. pkNamed tells whether
// primary key names are significant.
func (t *Table) canonLines(withNames bool) []string {
	var out []string
	for _, c := range t.Cols {
		if withNames && len(c.Default) > 2 && strings.Trim(c.Default, "'0123456789.") == "" && c.Default[0] == '\'' {
			// a quoted number is the same default as the number
			c = c.clone()
			c.Default = strings.Trim(c.Default, "'")
		}
		out = append(out, "column "+c.canon())
	}
	for _, o := range t.Opts {
		out = append(out, "option "+o.K+" = "+o.V)
	}
	if withNames {
		for _, c := range t.Cons {
			if c.Kind == KIndex && c.Name != "" { // the same object as a standalone index
				continue
			}
			out = append(out, "constraint "+c.canon())
		}
	}
	sort.Strings(out)
	return out
}

func diffLines(a, b []string) string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	var ks []string
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		if m[k] > 0 {
			out = append(out, fmt.Sprintf("only in first: %s", k))
		} else {
			out = append(out, fmt.Sprintf("only in second: %s", k))
		}
	}
	return strings.Join(out, "; ")
}

// equalStates compares two concrete states (names significant); "" when equal.
func equalStates(a, b *State) string {
	var la, lb []string
	for _, t := range a.Tables {
		la = append(la, "table "+qn(t.Name))
		for _, l := range t.canonLines(true) {
			la = append(la, qn(t.Name)+": "+l)
		}
	}
	for _, t := range b.Tables {
		lb = append(lb, "table "+qn(t.Name))
		for _, l := range t.canonLines(true) {
			lb = append(lb, qn(t.Name)+": "+l)
		}
	}
	for _, i := range a.allIndexes() {
		la = append(la, i.canon())
	}
	for _, i := range b.allIndexes() {
		lb = append(lb, i.canon())
	}
	return diffLines(la, lb)
}

// matchState compares an observed state with a model whose unnamed constraints
// are wildcards; "" when it matches.
func matchState(got, model *State) string {
	var la, lb []string
	for _, t := range got.Tables {
		la = append(la, "table "+qn(t.Name))
	}
	for _, t := range model.Tables {
		lb = append(lb, "table "+qn(t.Name))
	}
	for _, i := range got.Indexes {
		la = append(la, i.canon())
	}
	for _, i := range model.Indexes {
		lb = append(lb, i.canon())
	}
	if d := diffLines(la, lb); d != "" {
		return d
	}
	for _, t := range model.Tables {
		g := got.table(t.Name)
		if g == nil {
			return "table missing: " + t.Name
		}
		if d := diffLines(g.canonLines(false), t.canonLines(false)); d != "" {
			return "table " + qn(t.Name) + ": " + d
		}
		if len(g.Cols) == len(t.Cols) {
			for i := range g.Cols {
				if g.Cols[i].Name != t.Cols[i].Name {
					return fmt.Sprintf("table %q: column order differs at %d: %q vs %q", t.Name, i, g.Cols[i].Name, t.Cols[i].Name)
				}
			}
		}
		if d := matchCons(g.Cons, t.Cons, got.D); d != "" {
			return "table " + qn(t.Name) + ": " + d
		}
	}
	return ""
}

func matchCons(got, model []*Con, d Dialect) string {
	used := make([]bool, len(got))
	var unnamed []*Con
	for _, m := range model {
		if m.Name == "" || (d == MY && m.Kind == KPK) {
			unnamed = append(unnamed, m)
			continue
		}
		ok := false
		for i, g := range got {
			if !used[i] && g.canon() == m.canon() {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			var l []string
			for _, g := range got {
				l = append(l, g.canon())
			}
			return "constraint missing: " + m.canon() + " (have " + strings.Join(l, " | ") + ")"
		}
	}
	for _, m := range unnamed {
		ok := false
		for i, g := range got {
			if !used[i] && g.body() == m.body() {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			var l []string
			for _, g := range got {
				l = append(l, g.canon())
			}
			return "constraint missing: <unnamed> " + m.body() + " (have " + strings.Join(l, " | ") + ")"
		}
	}
	for i, g := range got {
		if !used[i] {
			return "unexpected constraint: " + g.canon()
		}
	}
	return ""
}

func (s *State) dump() string {
	var out []string
	for _, t := range s.Tables {
		out = append(out, "table "+qn(t.Name))
		for _, l := range t.canonLines(true) {
			out = append(out, "  "+l)
		}
	}
	for _, i := range s.Indexes {
		out = append(out, i.canon())
	}
	return strings.Join(out, "\n")
}

// allIndexes lists standalone indexes and those declared inside a table.
func (s *State) allIndexes() []*Index {
	out := append([]*Index(nil), s.Indexes...)
	for _, t := range s.Tables {
		for _, k := range t.Cons {
			if k.Kind == KIndex && k.Name != "" {
				out = append(out, &Index{Name: k.Name, Table: t.Name, Unique: k.Unique, Cols: k.Cols, Post: strings.TrimPrefix(k.Using, " USING ")})
			}
		}
	}
	return out
}
