package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

func init() {
	props["D01"] = prop{"exploration", "distinct (before, after) pairs, equal or differing by one edit, whose reported difference was judged", runD01}
	props["D02"] = prop{"exploration", "distinct (before, after) pairs whose diff was executed and the resulting schema compared", runD02}
	props["D03"] = prop{"exploration", "distinct (before, after) pairs whose diff statements were checked one by one against the changed objects", runD03}
	props["D04"] = prop{"exploration", "distinct (before, after) pairs whose diff was executed in order by an engine enforcing object dependencies", runD04}
	props["D05"] = prop{"exploration", "distinct schemas created from nothing and torn down to nothing", runD05}
	props["D07"] = prop{"exploration", "distinct diffs whose executable statements were compared with and without comments", runD07}
}

// pair is a before/after case.
type pair struct {
	d        Dialect
	t1, t2   string
	m1, m2   *State
	tags     []string
	x, y     *DDL
	s1, s2   string // renderings
	st1, st2 *State // states of the renderings (concrete names)
	probe    bool   // a recorded finding: judge it whatever it contains
	tables   bool   // a single table on each side, whatever their names
	shuffled bool   // the before text lists its objects in arbitrary order
}

// makePair generates a case; nil when it could not be built.
func (c *Ctx) makePair(r *rand.Rand, d Dialect, nEdits int, wild bool) *pair {
	g := newGen(r, d)
	m1 := g.schema()
	m2 := m1.clone()
	tags := g.edits(m2, nEdits)
	if len(tags) == 0 && nEdits > 0 {
		return nil
	}
	st := func() *Style {
		s := plainStyle(r)
		if wild {
			s = randStyle(r)
		}
		s.INE = 0
		return s
	}
	a, b := st(), st()
	ic := []int{0, 100}[r.Intn(2)]
	a.InlineCheck, b.InlineCheck = &ic, &ic
	in := []int{0, 100}[r.Intn(2)]
	a.Inline, b.Inline = in, in
	p := &pair{d: d, m1: m1, m2: m2, tags: tags}
	if r.Intn(3) == 0 { // a schema read back from a database comes in any order
		p.shuffled = true
		r.Shuffle(len(m1.Order), func(i, j int) { m1.Order[i], m1.Order[j] = m1.Order[j], m1.Order[i] })
		for _, t := range m1.Tables {
			cs := t.Cons
			if r.Intn(2) == 0 {
				r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			}
		}
	}
	var ok bool
	if p.t1, _, ok = c.genText(g, m1, a); !ok {
		return nil
	}
	if len(m2.Tables) == 0 {
		p.t2 = ""
	} else if p.t2, _, ok = c.genText(g, m2, b); !ok {
		return nil
	}
	return p
}

// load parses and renders both sides; false when the case cannot be judged. With
// models of the two texts at hand, a side that is rejected or read as something
// else is a violation: no diff of it can be right.
func (p *pair) load(c *Ctx, key string) bool {
	bad := func(side, msg string, err error) bool {
		if p.m1 != nil && p.m2 != nil {
			if err != nil {
				msg += ": " + clip(err.Error(), 300)
			}
			c.violate(key, "the "+side+" schema "+msg, p.detail(""))
		}
		return false
	}
	for i, side := range []string{"before", "after"} {
		txt, x, s, st, m := p.t1, &p.x, &p.s1, &p.st1, p.m1
		if i == 1 {
			txt, x, s, st, m = p.t2, &p.y, &p.s2, &p.st2, p.m2
		}
		var err error
		if *x, err = repoParse(p.d, txt); err != nil {
			return bad(side, "is rejected", err)
		}
		if *s, err = repoString(*x); err != nil {
			return bad(side, "cannot be rendered", err)
		}
		if *st, err = interpSQL(*s, p.d); err != nil {
			return bad(side, "is rendered as invalid DDL", err)
		}
		if m != nil {
			if df := matchState(*st, m); df != "" {
				return bad(side, "is read as something else: (first=read, second=source) "+clip(df, 400), nil)
			}
		}
	}
	if !p.probe && p.outOfScope() {
		return false
	}
	return true
}

// outOfScope tells pairs whose difference the tool leaves alone on purpose or
// that are recorded findings (see known_findings.json): hidden virtual columns
// are CockroachDB's own, and a change of a column's computed expression or
// visibility is not expressed there.
func (p *pair) outOfScope() bool {
	if p.d == SP {
		return recreateWithDependents(p.st1, p.st2) || recreateWithDependents(p.st2, p.st1)
	}
	if p.d != CR {
		return false
	}
	for _, q := range [][2]*State{{p.st1, p.st2}, {p.st2, p.st1}} {
		for _, t := range q[0].Tables {
			o := q[1].table(t.Name)
			if p.tables {
				o = q[1].Tables[0] // a renamed table
			}
			if o == nil {
				continue
			}
			for _, c := range t.Cols {
				oc := o.col(c.Name)
				if oc == nil {
					if c.Attrs["NOT VISIBLE"] != "" && strings.HasSuffix(c.Attrs["AS"], "VIRTUAL") {
						return true
					}
				} else if oc.Attrs["AS"] != c.Attrs["AS"] || oc.Attrs["NOT VISIBLE"] != c.Attrs["NOT VISIBLE"] {
					return true
				}
			}
		}
	}
	return false
}

// recreateWithDependents: a Spanner table has to be recreated while other
// objects that stay depend on it (a recorded finding).
func recreateWithDependents(a, b *State) bool {
	for _, t := range a.Tables {
		o := b.table(t.Name)
		if o == nil || o.opt(KPK) == t.opt(KPK) && o.opt("INTERLEAVE") == t.opt("INTERLEAVE") {
			continue
		}
		for _, i := range a.Indexes {
			if i.Table == t.Name && b.index(i.Name) != nil {
				return true
			}
		}
		for _, x := range a.Tables {
			y := b.table(x.Name)
			if x == t || y == nil {
				continue
			}
			if p := x.opt("INTERLEAVE"); p != "" && interleaveParent(p) == t.Name {
				return true
			}
			for _, k := range x.Cons {
				if k.Kind == KFK && k.Ref == t.Name && y.con(k.Name) != nil {
					return true
				}
			}
		}
	}
	return false
}

// wanted is the state a diff from st1 to st2 has to reach. MySQL table options
// the after text does not mention keep their value, and the AUTO_INCREMENT
// counter of an existing table is never touched.
func wantedState(st1, st2 *State) *State {
	if st2.D != MY {
		return st2
	}
	w := st2.clone()
	for _, t := range w.Tables {
		b := st1.table(t.Name)
		if b == nil {
			continue
		}
		for _, o := range b.Opts {
			if t.opt(o.K) == "" || o.K == "AUTO_INCREMENT" {
				t.setOpt(o.K, o.V)
			}
		}
		if b.opt("AUTO_INCREMENT") == "" {
			t.setOpt("AUTO_INCREMENT", "")
		}
	}
	return w
}

func (p *pair) detail(diff string) string {
	return p.d.String() + " edits: " + strings.Join(p.tags, ", ") + "\n--- before:\n" + p.t1 + "\n--- after:\n" + p.t2 + "\n--- diff:\n" + diff
}

// diff returns the diff text; ok is false after a violation or a skip.
func (p *pair) diff(c *Ctx, key string) (text string, no, ok bool) {
	df, no, err := repoDiff(p.d, p.x, p.y)
	if err != nil {
		c.violate(key, "Diff failed: "+clip(err.Error(), 300), p.detail(""))
		return "", false, false
	}
	if no {
		return "", true, true
	}
	s, err := repoString(df)
	if err != nil {
		c.violate(key, "String failed: "+clip(err.Error(), 300), p.detail(""))
		return "", false, false
	}
	return s, false, true
}

func runD02(c *Ctx) {
	c.probePairs(func(p *pair, key string) { c.converges(p, key, false) })
	for _, d := range allDialects {
		d := d
		for _, sc := range []struct {
			name string
			n, m int
			ed   func(r *rand.Rand) int
		}{
			{"one", 4000, 60000, func(r *rand.Rand) int { return 1 }},
			{"few", 4000, 80000, func(r *rand.Rand) int { return 2 + r.Intn(3) }},
			{"many", 1500, 40000, func(r *rand.Rand) int { return 5 + r.Intn(12) }},
		} {
			sc := sc
			stream := sc.name + "-" + d.String()
			c.parallel(stream, c.n(sc.n, sc.m), func(i int, r *rand.Rand) {
				p := c.makePair(r, d, sc.ed(r), i%3 == 0)
				if p == nil || !p.load(c, caseKey(stream, i)) {
					return
				}
				c.converges(p, caseKey(stream, i), i == 1)
			})
		}
		// unrelated schemas that share names
		stream := "unrelated-" + d.String()
		c.parallel(stream, c.n(800, 20000), func(i int, r *rand.Rand) {
			p := c.unrelated(r, d)
			if p == nil || !p.load(c, caseKey(stream, i)) {
				return
			}
			c.converges(p, caseKey(stream, i), false)
		})
	}
}

// unrelated builds two independent schemas over the same few names.
func (c *Ctx) unrelated(r *rand.Rand, d Dialect) *pair {
	g := newGen(r, d)
	m1 := g.schema()
	m2 := g.schema()
	p := &pair{d: d, m1: m1, m2: m2, tags: []string{"unrelated"}}
	var ok bool
	if p.t1, _, ok = c.genText(g, m1, plainStyle(r)); !ok {
		return nil
	}
	if p.t2, _, ok = c.genText(g, m2, plainStyle(r)); !ok {
		return nil
	}
	return p
}

func (c *Ctx) converges(p *pair, key string, sample bool) {
	text, no, ok := p.diff(c, key)
	if !ok {
		return
	}
	e := newEngine(p.d, false)
	e.Real = p.probe
	e.S = p.st1.clone()
	if !no {
		if err := e.exec(text); err != nil {
			c.violate(key, "the diff cannot be executed on the before schema: "+clip(err.Error(), 400), p.detail(text))
			return
		}
	}
	if df := equalStates(e.S, wantedState(p.st1, p.st2)); df != "" {
		c.violate(key, "after applying the diff the schema is not the after schema: (first=result, second=wanted) "+clip(df, 600), p.detail(text))
		return
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	c.count("statements_executed", int64(len(e.Log)))
	for _, s := range e.Log {
		c.count("executed "+strings.TrimSpace(s.Verb+" "+s.Act), 1)
	}
	if no {
		c.count("no_difference", 1)
	}
	if sample {
		c.sample("before:\n"+p.t1+"\nafter:\n"+p.t2, text)
	}
}

// ---- D01 ----

func runD01(c *Ctx) {
	c.probePairs(func(p *pair, key string) { c.detects(p, key, false) })
	for _, d := range allDialects {
		d := d
		stream := "edit-" + d.String()
		c.parallel(stream, c.n(6000, 100000), func(i int, r *rand.Rand) {
			n := 1
			if i%10 == 0 {
				n = 0
			}
			p := c.makePair(r, d, n, i%2 == 0)
			if p == nil || !p.load(c, caseKey(stream, i)) {
				return
			}
			c.detects(p, caseKey(stream, i), i == 1)
		})
		stream2 := "token-" + d.String()
		c.parallel(stream2, c.n(5000, 100000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			m := g.schema()
			st := plainStyle(r)
			txt, _, ok := c.genText(g, m, st)
			if !ok {
				return
			}
			mt := tokenEdit(r, txt, d)
			if mt == "" {
				return
			}
			a, err := interpSQL(txt, d)
			if err != nil {
				return
			}
			b, err := interpSQL(mt, d)
			if err != nil {
				return
			}
			if looseEqual(a, b) {
				return
			}
			p := &pair{d: d, t1: txt, t2: mt, tags: []string{"token"}}
			if !p.load(c, "") {
				return
			}
			c.detects(p, caseKey(stream2, i), false)
		})
		if d == MY || d == CR {
			stream3 := "shared-index-name-" + d.String()
			c.parallel(stream3, c.n(1500, 30000), func(i int, r *rand.Rand) { c.sharedIndexName(r, d, caseKey(stream3, i)) })
		}
	}
}

// sharedIndexName: where an index name is scoped to its table, an index of the
// same name on another table is an object of its own.
func (c *Ctx) sharedIndexName(r *rand.Rand, d Dialect, key string) {
	g := newGen(r, d)
	var m *State
	var ix *Index
	var on *Table
	for try := 0; try < 20 && on == nil; try++ {
		m = g.schema()
		if len(m.Tables) < 2 || len(m.Indexes) == 0 {
			continue
		}
		ix = m.Indexes[r.Intn(len(m.Indexes))]
		on = m.Tables[r.Intn(len(m.Tables))]
		if on.Name == ix.Table || on.con(ix.Name) != nil {
			on = nil
			continue
		}
	}
	if on == nil {
		return
	}
	st := plainStyle(r)
	ic := []int{0, 100}[r.Intn(2)]
	st.InlineCheck, st.Inline = &ic, []int{0, 100}[r.Intn(2)]
	txt, _, ok := c.genText(g, m, st)
	if !ok {
		return
	}
	twin := &Index{Name: ix.Name, Table: on.Name, Unique: r.Intn(2) == 0}
	for _, j := range r.Perm(len(on.Cols))[:1+r.Intn(min(2, len(on.Cols)))] {
		twin.Cols = append(twin.Cols, KeyCol{Name: on.Cols[j].Name})
	}
	if r.Intn(4) == 0 && len(ix.Cols) == 1 && on.col(ix.Cols[0].Name) != nil {
		twin.Unique, twin.Cols = ix.Unique, []KeyCol{{Name: ix.Cols[0].Name}}
	}
	one := g.render(&State{D: d, Indexes: []*Index{twin}, Order: []string{"i:" + twin.Name}}, plainStyle(r))
	first := strings.TrimRight(txt, "\n ") + "\n" + one + "\n"
	p := &pair{d: d, t1: txt, t2: first, tags: []string{"an index of the same name on " + on.Name}}
	var err error
	if p.x, err = repoParse(d, p.t1); err != nil {
		c.violate(key, "rejected: "+clip(err.Error(), 300), p.t1)
		return
	}
	if p.y, err = repoParse(d, p.t2); err != nil {
		c.violate(key, "two tables with an index of the same name are rejected: "+clip(err.Error(), 300), p.t2)
		return
	}
	text, no, ok := p.diff(c, key)
	if !ok {
		return
	}
	if no {
		c.violate(key, "an index is missed: another table has one of that name", p.detail(""))
		return
	}
	stmts, err := parseScript(text, d)
	if err != nil {
		c.violate(key, "the diff is not valid DDL: "+clip(err.Error(), 300), p.detail(text))
		return
	}
	e := newEngine(d, false)
	if len(stmts) != 1 || stmts[0].Verb != "CREATE INDEX" || e.exec(text) != nil || len(e.S.Indexes) != 1 || e.S.Indexes[0].canon() != twin.canon() {
		c.violate(key, "adding an index is planned as something else: another table has one of that name", p.detail(text))
		return
	}
	// the two of them, listed the other way round, are no difference
	q := &pair{d: d, t1: first, x: p.y, tags: []string{"same two indexes, listed in another order"}}
	without := m.clone()
	for i, x := range without.Indexes {
		if x.Name == ix.Name {
			without.Indexes = append(without.Indexes[:i:i], without.Indexes[i+1:]...)
			break
		}
	}
	for i, o := range without.Order {
		if o == "i:"+ix.Name {
			without.Order = append(without.Order[:i:i], without.Order[i+1:]...)
			break
		}
	}
	q.t2 = g.render(without, st) + "\n" + one + "\n" + g.render(&State{D: d, Indexes: []*Index{ix}, Order: []string{"i:" + ix.Name}}, st)
	if q.y, err = repoParse(d, q.t2); err != nil {
		c.violate(key, "rejected: "+clip(err.Error(), 300), q.t2)
		return
	}
	text, no, ok = q.diff(c, key)
	if !ok {
		return
	}
	if !no && len(mustStmts(text, d)) > 0 {
		c.violate(key, "a difference where there is none: two tables have an index of the same name", q.detail(text))
		return
	}
	c.eval(d.String() + p.t1 + "\x00" + p.t2)
	c.count("shared_index_names", 1)
}

// mustStmts parses a script; text that is no DDL counts as one statement.
func mustStmts(sql string, d Dialect) []*Stmt {
	s, err := parseScript(sql, d)
	if err != nil {
		return make([]*Stmt, 1)
	}
	return s
}

// detects: "no difference" exactly when the two schemas are equal, in both directions.
func (c *Ctx) detects(p *pair, key string, sample bool) {
	wants := [2]string{equalStates(p.st1, wantedState(p.st1, p.st2)), equalStates(p.st2, wantedState(p.st2, p.st1))}
	want := wants[0]
	for dir, q := range [][2]*DDL{{p.x, p.y}, {p.y, p.x}} {
		want := wants[dir]
		df, no, err := repoDiff(p.d, q[0], q[1])
		if err != nil {
			c.violate(key, "Diff failed: "+clip(err.Error(), 300), p.detail(""))
			return
		}
		if no && want != "" {
			c.violate(key, fmt.Sprintf("no difference reported (direction %d) although the schemas differ: %s", dir, clip(want, 400)), p.detail(""))
			return
		}
		if !no && want == "" {
			s, _ := repoString(df)
			c.violate(key, fmt.Sprintf("a difference is reported (direction %d) although the schemas are equal", dir), p.detail(s))
			return
		}
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	if want == "" {
		c.count("equal_pairs", 1)
	} else {
		c.count("differing_pairs", 1)
		for _, t := range p.tags {
			c.count("edit: "+t, 1)
		}
	}
	if sample {
		c.sample("before:\n"+p.t1+"\nafter:\n"+p.t2, "difference: "+want)
	}
}

func isPlainWord(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && isDigit(c)) {
			return false
		}
	}
	return s != ""
}

// tokenEdit replaces one word, number or literal of the text.
func tokenEdit(r *rand.Rand, txt string, d Dialect) string {
	toks := mustLex(txt, d)
	pos := 0
	type span struct{ a, b int }
	spans := make([]span, len(toks))
	for i, t := range toks {
		k := strings.Index(txt[pos:], t.Raw)
		if k < 0 {
			return ""
		}
		spans[i] = span{pos + k, pos + k + len(t.Raw)}
		pos += k + len(t.Raw)
	}
	for try := 0; try < 20; try++ {
		i := r.Intn(len(toks))
		t := toks[i]
		var n string
		switch t.K {
		case 'w':
			if isDigit(t.S[0]) {
				n = t.S + "1"
			} else if !sqlKeyword[strings.ToUpper(t.S)] {
				n = t.S + []string{"x", "_1", "2"}[r.Intn(3)]
			}
		case 'q':
			n = t.Raw[:1] + t.S + "z" + t.Raw[:1]
			if strings.ContainsAny(t.S, "\"`'\\") {
				n = ""
			}
		case 's':
			if t.P == "" && !strings.ContainsAny(t.S, "\\'\"") {
				n = t.Raw[:1] + t.S + "z" + t.Raw[:1]
				if r.Intn(2) == 0 && isPlainWord(t.S) { // the identifier or keyword of the same spelling
					n = t.S
				}
				if r.Intn(2) == 0 && i+2 < len(toks) && toks[i+1].Raw == "," && toks[i+2].K == 's' && toks[i+2].P == "" && !strings.ContainsAny(toks[i+2].S, "\\'\"") {
					// one literal instead of two
					return txt[:spans[i].a] + t.Raw[:1] + t.S + "," + toks[i+2].S + t.Raw[:1] + txt[spans[i+2].b:]
				}
			}
		}
		if n == "" {
			continue
		}
		return txt[:spans[i].a] + n + txt[spans[i].b:]
	}
	return ""
}

// looseEqual: equal up to letter case.
func looseEqual(a, b *State) bool {
	return equalStates(a, b) == ""
}

// ---- D03 ----

// changed lists the objects that differ between two states: keys are
// "table t", "column t.c", "constraint t.k", "index i", "option t.o".
func changedObjects(a, b *State) map[string]string {
	out := map[string]string{}
	for _, t := range a.Tables {
		o := b.table(t.Name)
		if o == nil {
			out["table "+t.Name] = "dropped"
			continue
		}
		for _, c := range t.Cols {
			if oc := o.col(c.Name); oc == nil {
				out["column "+t.Name+"."+c.Name] = "dropped"
			} else if oc.canon() != c.canon() {
				out["column "+t.Name+"."+c.Name] = "changed"
			}
		}
		for _, c := range o.Cols {
			if t.col(c.Name) == nil {
				out["column "+t.Name+"."+c.Name] = "added"
			}
		}
		for _, k := range t.Cons {
			if ok := o.con(k.Name); ok == nil {
				out["constraint "+t.Name+"."+k.Name] = "dropped"
			} else if ok.canon() != k.canon() {
				out["constraint "+t.Name+"."+k.Name] = "changed"
			}
		}
		for _, k := range o.Cons {
			if t.con(k.Name) == nil {
				out["constraint "+t.Name+"."+k.Name] = "added"
			}
		}
		for _, op := range t.Opts {
			if o.opt(op.K) != op.V {
				out["option "+t.Name+"."+op.K] = "changed"
			}
		}
		for _, op := range o.Opts {
			if t.opt(op.K) == "" {
				out["option "+t.Name+"."+op.K] = "added"
			}
		}
	}
	for _, t := range b.Tables {
		if a.table(t.Name) == nil {
			out["table "+t.Name] = "added"
		}
	}
	for _, i := range a.Indexes {
		if o := b.index(i.Name); o == nil {
			out["index "+i.Name] = "dropped"
		} else if o.canon() != i.canon() {
			out["index "+i.Name] = "changed"
		}
	}
	for _, i := range b.Indexes {
		if a.index(i.Name) == nil {
			out["index "+i.Name] = "added"
		}
	}
	return out
}

func runD03(c *Ctx) {
	for _, d := range allDialects {
		d := d
		for _, sc := range []struct {
			name string
			n, m int
			ed   func(r *rand.Rand) int
		}{
			{"one", 5000, 80000, func(r *rand.Rand) int { return 1 }},
			{"few", 3000, 60000, func(r *rand.Rand) int { return 2 + r.Intn(4) }},
		} {
			sc := sc
			stream := sc.name + "-" + d.String()
			c.parallel(stream, c.n(sc.n, sc.m), func(i int, r *rand.Rand) {
				p := c.makePair(r, d, sc.ed(r), i%3 == 0)
				if p == nil || !p.load(c, caseKey(stream, i)) {
					return
				}
				c.local(p, caseKey(stream, i), i == 1)
			})
		}
	}
}

// local checks every statement of the diff against the set of changed objects.
func (c *Ctx) local(p *pair, key string, sample bool) {
	text, no, ok := p.diff(c, key)
	if !ok || no {
		return
	}
	stmts, err := parseScript(text, p.d)
	if err != nil {
		return // executability is judged elsewhere
	}
	ch := changedObjects(p.st1, p.st2)
	recreated := map[string]bool{}
	if p.d == SP {
		// Spanner cannot alter a table's primary key or interleaving: such a table is recreated
		for k := range ch {
			if strings.HasPrefix(k, "option ") && (strings.HasSuffix(k, "."+KPK) || strings.HasSuffix(k, ".INTERLEAVE")) {
				recreated[strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(k, "option "), "."+KPK), ".INTERLEAVE")] = true
			}
		}
	}
	seen := map[string]int{}
	for _, s := range stmts {
		id := strings.Join([]string{s.Verb, s.Obj, s.Act, s.Sub}, "|")
		seen[id]++
		if seen[id] > 1 {
			c.violate(key, "the same change is emitted twice: "+id, p.detail(text))
			return
		}
		bad := ""
		switch {
		case s.Verb == "DROP TABLE":
			if ch["table "+s.Obj] != "dropped" && !recreated[s.Obj] {
				bad = "drops a table that is still wanted"
			}
		case s.Verb == "CREATE TABLE":
			if ch["table "+s.Obj] != "added" && !recreated[s.Obj] {
				bad = "creates a table that already exists"
			}
		case s.Verb == "CREATE INDEX" || s.Verb == "DROP INDEX":
			st := ch["index "+s.Obj]
			if st == "" {
				// an index declared inside a table
				for _, t := range append(append([]*Table{}, p.st1.Tables...), p.st2.Tables...) {
					if x := ch["constraint "+t.Name+"."+s.Obj]; x != "" {
						st = x
					}
				}
			}
			if st == "" || s.Verb == "CREATE INDEX" && st == "dropped" || s.Verb == "DROP INDEX" && st == "added" {
				bad = "touches an index that does not change (" + st + ")"
			}
		case s.Act == "ADD COLUMN":
			if ch["column "+s.Obj+"."+s.Sub] != "added" {
				bad = "adds a column that is not new"
			}
		case s.Act == "DROP COLUMN":
			if ch["column "+s.Obj+"."+s.Sub] != "dropped" {
				bad = "drops a column that is still wanted"
			}
		case s.Act == "SET TYPE" || s.Act == "SET DEFAULT" || s.Act == "DROP DEFAULT" || s.Act == "SET NOT NULL" || s.Act == "DROP NOT NULL" || s.Act == "MODIFY" || s.Act == "SET OPTIONS" || s.Act == "DROP OPTIONS":
			if ch["column "+s.Obj+"."+s.Sub] != "changed" {
				bad = "alters a column that does not change"
			} else if w := wrongAspect(s, p.st1.table(s.Obj).col(s.Sub), p.st2.table(s.Obj).col(s.Sub)); w != "" {
				bad = w
			}
		case s.Act == "ADD CONSTRAINT" || s.Act == "DROP CONSTRAINT":
			n := s.Sub
			st := ch["constraint "+s.Obj+"."+n]
			if p.d == MY && (n == KPK || n == "") {
				st = ch["constraint "+s.Obj+"."]
			}
			if st == "" || s.Act == "ADD CONSTRAINT" && st == "dropped" || s.Act == "DROP CONSTRAINT" && st == "added" {
				bad = "touches a constraint that does not change (" + st + ")"
			}
		case s.Act == "OPTION" || s.Act == "ROW DELETION":
			k := s.Sub
			if s.Act == "ROW DELETION" {
				k = "ROW DELETION POLICY"
			}
			if ch["option "+s.Obj+"."+k] == "" {
				bad = "alters a table option that does not change"
			}
		case s.Act == "RENAME":
			bad = "renames a table"
		default:
			bad = "unknown statement"
		}
		if bad != "" {
			c.violate(key, fmt.Sprintf("%s: %s %s %s %s", bad, s.Verb, s.Obj, s.Act, s.Sub), p.detail(text))
			return
		}
		c.count("statements_judged", 1)
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	c.count("changed_objects", int64(len(ch)))
	if sample {
		var ks []string
		for k, v := range ch {
			ks = append(ks, k+" "+v)
		}
		sort.Strings(ks)
		c.sample("before:\n"+p.t1+"\nafter:\n"+p.t2, "changed: "+strings.Join(ks, ", ")+"\n"+text)
	}
}

// wrongAspect: the statement alters an aspect of the column that is already right.
func wrongAspect(s *Stmt, a, b *Col) string {
	switch s.Act {
	case "SET NOT NULL", "DROP NOT NULL":
		if a.NotNull == b.NotNull {
			return "alters the nullability of a column whose nullability does not change"
		}
	case "SET DEFAULT", "DROP DEFAULT":
		if a.Default == b.Default {
			return "alters the default of a column whose default does not change"
		}
	case "SET OPTIONS", "DROP OPTIONS":
		if a.Attrs["OPTIONS"] == b.Attrs["OPTIONS"] {
			return "alters unchanged column options"
		}
	case "SET TYPE":
		if a.Type == b.Type && a.NotNull == b.NotNull {
			return "alters the type of a column whose type does not change"
		}
	}
	return ""
}

// ---- D04 ----

func runD04(c *Ctx) {
	c.probePairs(func(p *pair, key string) { c.executable(p, key, false) })
	for _, d := range allDialects {
		d := d
		for _, sc := range []struct {
			name string
			n, m int
			ed   func(r *rand.Rand) int
		}{
			{"one", 4000, 60000, func(r *rand.Rand) int { return 1 }},
			{"few", 4000, 80000, func(r *rand.Rand) int { return 2 + r.Intn(4) }},
		} {
			sc := sc
			stream := sc.name + "-" + d.String()
			c.parallel(stream, c.n(sc.n, sc.m), func(i int, r *rand.Rand) {
				p := c.makePair(r, d, sc.ed(r), false)
				if p == nil || !p.load(c, caseKey(stream, i)) {
					return
				}
				c.executable(p, caseKey(stream, i), i == 1)
			})
		}
	}
}

// needKeys: a foreign key that comes needs its key before it, one that goes
// leaves before its key, and one that stays with its key never lacks it.
func needKeys(a, b *State) func(t *Table, k *Con) bool {
	id := func(t *Table, k *Con) string { return qn(t.Name) + k.canon() }
	keys := func(s *State) map[string]map[string]bool {
		m := map[string]map[string]bool{}
		for _, t := range s.Tables {
			for _, k := range t.Cons {
				if k.Kind == KFK {
					m[id(t, k)] = s.keysFor(k, true)
				}
			}
		}
		return m
	}
	ka, kb := keys(a), keys(b)
	need := map[string]bool{}
	for n, m := range ka {
		o, stays := kb[n]
		ok := !stays && len(m) > 0
		for k := range m {
			ok = ok || stays && o[k]
		}
		need[n] = ok
	}
	for n, m := range kb {
		if _, was := ka[n]; !was {
			need[n] = len(m) > 0
		}
	}
	return func(t *Table, k *Con) bool { return need[id(t, k)] }
}

// autoKeysStay tells whether each AUTO_INCREMENT column of the tables on both
// sides is one on both and has a key that is the same on both, and those of the
// other tables have a key: then it never lacks one. (Where such a column comes,
// goes or changes its key, see the recorded finding.)
func autoKeysStay(a, b *State) bool {
	some := false
	for i, s := range []*State{a, b} {
		o := []*State{b, a}[i]
		for _, t := range s.Tables {
			u := o.table(t.Name)
			for n, keys := range s.autoKeys(t) {
				some = true
				ok := u == nil && len(keys) > 0 && !(len(keys) == 1 && keys["INDEX"]) // not a CREATE INDEX
				if u != nil {
					for k := range o.autoKeys(u)[n] {
						ok = ok || keys[k] && k != "INDEX"
					}
				}
				if !ok {
					return false
				}
			}
		}
	}
	return some
}

func (c *Ctx) executable(p *pair, key string, sample bool) {
	text, no, ok := p.diff(c, key)
	if !ok {
		return
	}
	// both schemas must be creatable in their own order
	for i, s := range []string{p.s1, p.s2} {
		if i == 0 && p.shuffled {
			continue
		}
		if err := newEngine(p.d, true).exec(s); err != nil {
			c.harnessBug("strict engine rejects a generated schema: "+err.Error(), p.detail(""))
			return
		}
	}
	e := newEngine(p.d, true)
	e.Real = p.probe
	e.S = p.st1.clone()
	if e.AutoKey = p.d == MY && (p.probe || autoKeysStay(p.st1, p.st2)); e.AutoKey {
		c.count("mysql_pairs_with_lasting_auto_increment_keys", 1)
	}
	if p.d != SP {
		e.NeedKey = needKeys(p.st1, p.st2)
	}
	if !no {
		if err := e.exec(text); err != nil {
			c.violate(key, "a database would refuse the diff: "+clip(err.Error(), 400), p.detail(text))
			return
		}
	}
	if df := equalStates(e.S, wantedState(p.st1, p.st2)); df != "" {
		c.violate(key, "with dependent objects going along, the result is not the after schema: (first=result, second=wanted) "+clip(df, 500), p.detail(text))
		return
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	c.count("statements_executed", int64(len(e.Log)))
	if sample {
		c.sample("before:\n"+p.t1+"\nafter:\n"+p.t2, text)
	}
}

// ---- D05 ----

func runD05(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "boot-" + d.String()
		c.parallel(stream, c.n(3000, 60000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			m := g.schema()
			st := randStyle(r)
			st.INE = 0
			txt, _, ok := c.genText(g, m, st)
			if !ok {
				return
			}
			x, err := repoParse(d, txt)
			if err != nil {
				return
			}
			empty, err := repoParse(d, "")
			if err != nil {
				c.violate(caseKey(stream, i), "an empty text is rejected: "+err.Error(), "")
				return
			}
			c.bootstrap(d, caseKey(stream, i), txt, x, empty, i == 1)
		})
	}
}

func (c *Ctx) bootstrap(d Dialect, key, txt string, x, empty *DDL, sample bool) {
	s, err := repoString(x)
	if err != nil {
		return
	}
	want, err := interpSQL(s, d)
	if err != nil {
		return
	}
	var created *State
	for k, from := range []*DDL{nil, empty} {
		df, no, err := repoDiff(d, from, x)
		if err != nil || no {
			c.violate(key, fmt.Sprintf("creating a schema from nothing (%d): no=%v err=%v", k, no, err), txt)
			return
		}
		o, err := repoString(df)
		if err != nil {
			c.violate(key, err.Error(), txt)
			return
		}
		e := newEngine(d, true)
		if err := e.exec(o); err != nil {
			c.violate(key, "the creation script fails: "+clip(err.Error(), 300), txt+"\n--- diff:\n"+o)
			return
		}
		if x := equalStates(e.S, want); x != "" {
			c.violate(key, "the creation script builds something else: "+clip(x, 400), txt+"\n--- diff:\n"+o)
			return
		}
		created = e.S
		c.count("creations", 1)
	}
	for k, to := range []*DDL{nil, empty} {
		df, no, err := repoDiff(d, x, to)
		if err != nil || no {
			c.violate(key, fmt.Sprintf("tearing a schema down (%d): no=%v err=%v", k, no, err), txt)
			return
		}
		o, err := repoString(df)
		if err != nil {
			c.violate(key, err.Error(), txt)
			return
		}
		e := newEngine(d, true)
		e.S = created.clone()
		if err := e.exec(o); err != nil {
			c.violate(key, "the teardown script fails: "+clip(err.Error(), 300), txt+"\n--- diff:\n"+o)
			return
		}
		if len(e.S.Tables) != 0 || len(e.S.Indexes) != 0 {
			c.violate(key, "the teardown script leaves: "+clip(e.S.dump(), 400), txt+"\n--- diff:\n"+o)
			return
		}
		c.count("teardowns", 1)
	}
	for _, p := range [][2]*DDL{{nil, nil}, {empty, empty}} {
		if _, no, err := repoDiff(d, p[0], p[1]); err != nil || !no {
			c.violate(key, fmt.Sprintf("nothing against nothing is not \"no difference\": %v", err), "")
			return
		}
	}
	c.eval(d.String() + txt)
	if sample {
		c.sample(txt, s)
	}
}

// ---- D07 ----

func runD07(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "few-" + d.String()
		c.parallel(stream, c.n(5000, 80000), func(i int, r *rand.Rand) {
			p := c.makePair(r, d, 1+r.Intn(4), i%3 == 0)
			if p == nil || !p.load(c, caseKey(stream, i)) {
				return
			}
			c.inert(p, caseKey(stream, i), i == 1)
		})
	}
}

// inert: without its comments the diff has exactly the same statements, no
// statement is hidden in a comment, and the comments contribute no token.
func (c *Ctx) inert(p *pair, key string, sample bool) {
	df, no, err := repoDiff(p.d, p.x, p.y)
	if err != nil {
		c.violate(key, "Diff failed: "+clip(err.Error(), 300), p.detail(""))
		return
	}
	if no {
		return
	}
	text, err := repoString(df)
	if err != nil {
		c.violate(key, "String failed: "+clip(err.Error(), 300), p.detail(""))
		return
	}
	toks, err := lexSQL(text, p.d)
	if err != nil {
		c.violate(key, "the diff cannot be tokenized: "+err.Error(), p.detail(text))
		return
	}
	cleared := df.clearComments()
	bare, err := repoString(df)
	if err != nil {
		c.violate(key, "String failed: "+clip(err.Error(), 300), p.detail(""))
		return
	}
	t2, err := lexSQL(bare, p.d)
	if err != nil || canonToks(toks) != canonToks(t2) {
		c.violate(key, "the comments change the statements of the diff", p.detail(text)+"\n--- without comments:\n"+bare)
		return
	}
	// literal-aware: no comment is left, so nothing of a statement is lost in one
	var raw strings.Builder
	for _, t := range t2 {
		raw.WriteString(t.Raw)
	}
	strip := func(s string) string { return strings.Join(strings.Fields(s), "") }
	if a, b := strip(raw.String()), strip(bare); a != b {
		c.violate(key, "a part of the statements is read as a comment", p.detail(text)+"\n--- statements:\n"+bare)
		return
	}
	// the tool reads its own output of CREATE statements the same way with and without comments
	if stmts, err := parseScript(text, p.d); err != nil {
		c.violate(key, "the diff with its comments is not a list of statements: "+clip(err.Error(), 300), p.detail(text))
		return
	} else if len(stmts) < df.Len() {
		c.violate(key, fmt.Sprintf("the diff has %d statements and its text only %d", df.Len(), len(stmts)), p.detail(text))
		return
	}
	c.eval(p.d.String() + p.t1 + "\x00" + p.t2)
	c.count("comments_cleared", int64(cleared))
	c.count("comment_lines", int64(strings.Count(text, "\n")-strings.Count(bare, "\n")))
	if sample {
		c.sample(text, bare)
	}
}

// clearComments empties the comments of the statements.
func (x *DDL) clearComments() int {
	var l reflect.Value
	switch x.d {
	case PG:
		l = reflect.ValueOf(x.pg.Stmts)
	case CR:
		l = reflect.ValueOf(x.cr.Stmts)
	case MY:
		l = reflect.ValueOf(x.my.Stmts)
	default:
		l = reflect.ValueOf(x.sp.Stmts)
	}
	n := 0
	for i := 0; i < l.Len(); i++ {
		v := l.Index(i)
		for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			continue
		}
		if f := v.FieldByName("Comment"); f.IsValid() && f.Kind() == reflect.String && f.CanSet() && f.String() != "" {
			f.SetString("")
			n++
		}
	}
	return n
}
