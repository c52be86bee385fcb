package main

import (
	"errors"
	"math/rand"
	"strings"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	crddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	myddl "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	pgddl "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	spddl "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

func init() {
	props["D08"] = prop{"exploration", "distinct pairs of single tables, of the same or of different names, whose comparison was executed on the first one", runD08}
}

// repoDiffOneTable compares the only table of a with the only table of b; either may be nil.
func repoDiffOneTable(d Dialect, a, b *DDL, notValid bool) (s string, no bool, err error) {
	err = guard("comparing", "", func() error {
		switch d {
		case PG:
			var l, r *pgddl.CreateTableStmt
			if a != nil {
				l = a.pg.Stmts[0].(*pgddl.CreateTableStmt)
			}
			if b != nil {
				r = b.pg.Stmts[0].(*pgddl.CreateTableStmt)
			}
			var o []pgddl.DiffCreateTableOption
			if notValid {
				o = append(o, pgddl.DiffCreateTableUseAlterTableAddConstraintNotValid(true))
			}
			x, e := pgddl.DiffCreateTable(l, r, o...)
			if e == nil {
				s = x.String()
			}
			return e
		case CR:
			var l, r *crddl.CreateTableStmt
			if a != nil {
				l = a.cr.Stmts[0].(*crddl.CreateTableStmt)
			}
			if b != nil {
				r = b.cr.Stmts[0].(*crddl.CreateTableStmt)
			}
			var o []crddl.DiffCreateTableOption
			if notValid {
				o = append(o, crddl.DiffCreateTableUseAlterTableAddConstraintNotValid(true))
			}
			x, e := crddl.DiffCreateTable(l, r, o...)
			if e == nil {
				s = x.String()
			}
			return e
		case MY:
			var l, r *myddl.CreateTableStmt
			if a != nil {
				l = a.my.Stmts[0].(*myddl.CreateTableStmt)
			}
			if b != nil {
				r = b.my.Stmts[0].(*myddl.CreateTableStmt)
			}
			x, e := myddl.DiffCreateTable(l, r, myddl.DiffCreateTableUseAlterTableAddConstraintNotValid(notValid))
			if e == nil {
				s = x.String()
			}
			return e
		default:
			var l, r *spddl.CreateTableStmt
			if a != nil {
				l = a.sp.Stmts[0].(*spddl.CreateTableStmt)
			}
			if b != nil {
				r = b.sp.Stmts[0].(*spddl.CreateTableStmt)
			}
			x, e := spddl.DiffCreateTable(l, r, spddl.DiffCreateTableUseAlterTableAddConstraintNotValid(notValid))
			if e == nil {
				s = x.String()
			}
			return e
		}
	})
	if errors.Is(err, ddl.ErrNoDifference) {
		return "", true, nil
	}
	return
}

// onlyTable is the schema of that one table; renamed when to is not empty.
func onlyTable(t *Table, d Dialect, to string) *State {
	c := t.clone()
	if to != "" {
		for _, k := range c.Cons {
			if k.Ref == c.Name {
				k.Ref = to
			}
		}
		c.Name = to
	}
	return &State{D: d, Tables: []*Table{c}, Order: []string{"t:" + c.Name}}
}

func runD08(c *Ctx) {
	for _, d := range allDialects {
		d := d
		for _, rename := range []bool{false, true} {
			rename := rename
			stream := map[bool]string{false: "same-", true: "renamed-"}[rename] + d.String()
			c.parallel(stream, c.n(4000, 80000), func(i int, r *rand.Rand) {
				g := newGen(r, d)
				m1 := g.schema()
				m2 := m1.clone()
				n := []int{0, 1, 1, 2, 3, 6, 12}[r.Intn(7)]
				tags := g.edits(m2, n)
				var both []*Table
				for _, t := range m1.Tables {
					if m2.table(t.Name) != nil {
						both = append(both, t)
					}
				}
				if len(both) == 0 {
					return
				}
				t := both[r.Intn(len(both))]
				to := ""
				if rename {
					if strings.Contains(t.Name, ".") {
						return
					}
					used := map[string]bool{}
					for _, x := range m1.Tables {
						markUsed(used, x.Name)
					}
					for _, x := range m2.Tables {
						markUsed(used, x.Name)
					}
					to = g.name(used)
					tags = append(tags, "rename")
				}
				p := &pair{d: d, m1: onlyTable(t, d, ""), m2: onlyTable(m2.table(t.Name), d, to), tags: tags, tables: true}
				var ok bool
				st := plainStyle(r)
				st.INE = 0
				if p.t1, _, ok = c.genText(g, p.m1, st); !ok {
					return
				}
				if p.t2, _, ok = c.genText(g, p.m2, st); !ok {
					return
				}
				if !p.load(c, caseKey(stream, i)) {
					return
				}
				c.oneTable(p, caseKey(stream, i), i == 1)
			})
		}
	}
}

func (c *Ctx) oneTable(p *pair, key string, sample bool) {
	text, no, err := repoDiffOneTable(p.d, p.x, p.y, false)
	if err != nil {
		c.violate(key, "comparing the tables failed: "+clip(err.Error(), 300), p.detail(""))
		return
	}
	want := wantedState(p.st1, p.st2)
	if len(p.st1.Tables) == 1 && p.st1.Tables[0].Name != p.st2.Tables[0].Name && p.d == MY {
		same := p.st1.clone()
		same.Tables[0].Name = p.st2.Tables[0].Name
		want = wantedState(same, p.st2)
	}
	df := equalStates(p.st1, want)
	if no != (df == "") {
		c.violate(key, map[bool]string{true: "no difference is reported although the tables differ: " + clip(df, 400), false: "a difference is reported although the tables are equal"}[no], p.detail(text))
		return
	}
	e := newEngine(p.d, false)
	e.AnyOrder = true
	e.S = p.st1.clone()
	if !no {
		if err := e.exec(text); err != nil {
			c.violate(key, "the difference cannot be executed on the first table: "+clip(err.Error(), 400), p.detail(text))
			return
		}
	}
	if df := equalStates(e.S, want); df != "" {
		c.violate(key, "after the difference the first table is not the second: (first=result, second=wanted) "+clip(df, 600), p.detail(text))
		return
	}
	for _, s := range e.Log {
		c.count("executed "+strings.TrimSpace(s.Verb+" "+s.Act), 1)
	}
	if no {
		c.count("no_difference", 1)
	}
	if p.d == PG || p.d == CR {
		nv, no2, err := repoDiffOneTable(p.d, p.x, p.y, true)
		if err != nil || no2 != no {
			c.violate(key, "comparing the tables with constraints not validated gives another outcome", p.detail(text))
			return
		}
		if !no && !c.notValid(p, key, text, nv) {
			return
		}
	}
	// against nothing, in both directions
	drop, _, e1 := repoDiffOneTable(p.d, p.x, nil, false)
	create, _, e2 := repoDiffOneTable(p.d, nil, p.y, false)
	if e1 != nil || e2 != nil {
		c.violate(key, "comparing a table with nothing failed", p.detail(drop+create))
		return
	}
	if err := e.exec(create); err == nil {
		c.violate(key, "creating the table a second time succeeded", p.detail(create))
		return
	}
	e.S = p.st1.clone()
	if err := e.exec(drop + create); err != nil {
		c.violate(key, "dropping and creating the table: "+clip(err.Error(), 300), p.detail(drop+create))
		return
	}
	if df := equalStates(e.S, p.st2); df != "" {
		c.violate(key, "after dropping the first and creating the second table the schema differs: "+clip(df, 400), p.detail(drop+create))
		return
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	if sample {
		c.sample("first:\n"+p.t1+"\nsecond:\n"+p.t2, text)
	}
}

// notValid: the statements are the same but for NOT VALID after every added
// FOREIGN KEY or CHECK constraint, and after nothing else.
func (c *Ctx) notValid(p *pair, key, plain, nv string) bool {
	a, err1 := scriptTokens(plain, p.d)
	b, err2 := scriptTokens(nv, p.d)
	if err1 != nil || err2 != nil {
		c.violate(key, "the difference cannot be read", p.detail(nv))
		return false
	}
	if len(a) != len(b) {
		c.violate(key, "not validated constraints change the number of statements", p.detail(plain+"\n--- not valid:\n"+nv))
		return false
	}
	for i := range a {
		want := a[i]
		add := len(want) > 3 && want[0].isKw("ALTER") && addsConstraint(want)
		got := b[i]
		marked := len(got) > 2 && got[len(got)-2].isKw("NOT") && got[len(got)-1].isKw("VALID")
		if marked {
			got = got[:len(got)-2]
		}
		if marked != add || tokensText(want) != tokensText(got) {
			c.violate(key, "with constraints not validated the statement is "+tokensText(b[i])+" instead of "+tokensText(want), p.detail(plain+"\n--- not valid:\n"+nv))
			return false
		}
		if marked {
			c.count("not_valid_constraints", 1)
		}
	}
	return true
}

// addsConstraint: ALTER TABLE ... ADD CONSTRAINT name FOREIGN KEY or CHECK.
func addsConstraint(ts []Tok) bool {
	for i := 2; i+3 < len(ts); i++ {
		if ts[i].isKw("ADD") && ts[i+1].isKw("CONSTRAINT") {
			return ts[i+3].isKw("FOREIGN") || ts[i+3].isKw("CHECK")
		}
	}
	return false
}

func scriptTokens(sql string, d Dialect) (out [][]Tok, err error) {
	toks, err := lexSQL(sql, d)
	if err != nil {
		return nil, err
	}
	var cur []Tok
	for _, t := range toks {
		if t.isOp(";") {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out, nil
}

func tokensText(ts []Tok) string {
	var l []string
	for _, t := range ts {
		l = append(l, t.Raw)
	}
	return strings.Join(l, " ")
}
