package main

import (
	"strings"
)

// Schema edits: each turns a valid schema into another valid schema that is
// semantically different, and names the kind of edit.

// exprUses tells whether canonical expression text mentions a column.
func exprUses(expr, col string) bool {
	if needsQuote(col) {
		return strings.Contains(expr, "\""+col+"\"")
	}
	w := strings.ToUpper(col)
	f := func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r >= 0x80)
	}
	for _, x := range strings.FieldsFunc(expr, f) {
		if x == w {
			return true
		}
	}
	return false
}

func (k *Con) uses(col string) bool {
	return usesCol(k.Cols, col) || k.Kind == KCheck && exprUses(k.Expr, col)
}

func (s *State) removeOrder(k string) {
	for i, o := range s.Order {
		if o == k {
			s.Order = append(s.Order[:i:i], s.Order[i+1:]...)
			return
		}
	}
}

func (s *State) dropIndexes(f func(*Index) bool) {
	for _, i := range s.Indexes {
		if f(i) {
			s.removeOrder("i:" + i.Name)
		}
	}
	s.Indexes = filterIdx(s.Indexes, func(i *Index) bool { return !f(i) })
}

// removeTable drops a table and everything that needs it.
func (s *State) removeTable(t *Table) {
	s.dropIndexes(func(i *Index) bool { return i.Table == t.Name })
	for _, o := range s.Tables {
		if o == t {
			continue
		}
		o.Cons = filterCons(o.Cons, func(k *Con) bool { return !(k.Kind == KFK && k.Ref == t.Name) })
		if p := o.opt("INTERLEAVE"); p != "" && interleaveParent(p) == t.Name {
			o.setOpt("INTERLEAVE", "")
		}
	}
	for i, o := range s.Tables {
		if o == t {
			s.Tables = append(s.Tables[:i:i], s.Tables[i+1:]...)
			break
		}
	}
	s.removeOrder("t:" + t.Name)
}

// removeColumn drops a column and everything that needs it; false when it cannot go.
func (g *Gen) removeColumn(s *State, t *Table, c *Col) bool {
	if len(t.Cols) < 2 {
		return false
	}
	if s.D == SP {
		if exprUses(t.opt("ROW DELETION POLICY"), c.Name) {
			t.setOpt("ROW DELETION POLICY", "")
		}
		if usesCol(parseKeyColsCanon(t.opt(KPK)), c.Name) {
			return false
		}
	}
	keep := g.pct(40) // narrow multi column keys instead of dropping them
	narrow := func(ks []KeyCol) []KeyCol {
		if keep && len(ks) > 1 {
			return withoutCol(ks, c.Name)
		}
		return nil
	}
	t.Cons = filterCons(t.Cons, func(k *Con) bool {
		if !k.uses(c.Name) {
			return true
		}
		if k.Kind == KCheck && keep && k.Name != "" {
			for _, o := range t.Cols {
				if o != c {
					k.Expr = g.expr("(" + g.identText(o.Name, false) + " IS NOT NULL)")
					return true
				}
			}
		}
		if k.Kind == KFK || k.Kind == KCheck {
			return false
		}
		if n := narrow(k.Cols); n != nil {
			k.Cols = n
			return true
		}
		return false
	})
	s.dropIndexes(func(i *Index) bool {
		if i.Table != t.Name || !usesCol(i.Cols, c.Name) {
			return false
		}
		if n := narrow(i.Cols); n != nil {
			i.Cols = n
			return false
		}
		return true
	})
	for _, o := range s.Tables {
		o.Cons = filterCons(o.Cons, func(k *Con) bool {
			if k.Kind == KFK && k.Ref == t.Name {
				for _, rc := range k.RefCols {
					if rc == c.Name {
						return false
					}
				}
			}
			return true
		})
	}
	for i, x := range t.Cols {
		if x == c {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			break
		}
	}
	return true
}

func (g *Gen) autoIncFree(t *Table) bool {
	for _, c := range t.Cols {
		if c.Attrs["AUTO_INCREMENT"] != "" {
			return false
		}
	}
	return true
}

// insertTable adds a table at a random place of the creation order.
func (g *Gen) insertTable(s *State) *Table {
	used := map[string]bool{}
	for _, t := range s.Tables {
		markUsed(used, t.Name)
	}
	name := g.tableName(used)
	for !g.nameFree(s, name) || s.table(name) != nil {
		name = g.tableName(used)
	}
	pos := g.r.Intn(len(s.Tables) + 1)
	// build it as if only the tables before it existed
	sub := &State{D: s.D, Tables: append([]*Table(nil), s.Tables[:pos]...), Indexes: s.Indexes}
	t := g.tableNamed(sub, name)
	rest := append([]*Table(nil), s.Tables[pos:]...)
	s.Tables = append(append(s.Tables[:pos:pos], t), rest...)
	opos := len(s.Order)
	if len(rest) > 0 {
		for i, o := range s.Order {
			if o == "t:"+rest[0].Name {
				opos = i
				break
			}
		}
	}
	tail := append([]string(nil), s.Order[opos:]...)
	s.Order = append(append(s.Order[:opos:opos], "t:"+name), tail...)
	return t
}

func (g *Gen) randTable(s *State) *Table {
	if len(s.Tables) == 0 {
		return nil
	}
	return s.Tables[g.r.Intn(len(s.Tables))]
}

var editKinds = []string{"add table", "drop table", "add column", "drop column", "type", "not null", "default", "attr", "add constraint", "drop constraint", "change constraint", "add index", "drop index", "change index", "option", "rename column", "swap constraint", "constraint kind"}

// edit applies one random edit; "" when the chosen edit does not apply.
func (g *Gen) edit(s *State, kind string) string {
	t := g.randTable(s)
	if t == nil {
		kind = "add table"
	}
	switch kind {
	case "add table":
		t := g.insertTable(s)
		if g.pct(40) {
			ix := g.indexFor(s, t)
			if g.nameFree(s, ix.Name) {
				s.Indexes = append(s.Indexes, ix)
				s.Order = append(s.Order, "i:"+ix.Name)
			}
		}
		return kind
	case "drop table":
		if len(s.Tables) < 2 && g.pct(80) {
			return ""
		}
		s.removeTable(t)
		return kind
	case "add column":
		used := map[string]bool{}
		for _, c := range t.Cols {
			markUsed(used, c.Name)
		}
		c := g.column(g.name(used))
		if g.pct(50) {
			t.Cols = append(t.Cols, c)
		} else {
			p := g.r.Intn(len(t.Cols) + 1)
			rest := append([]*Col(nil), t.Cols[p:]...)
			t.Cols = append(append(t.Cols[:p:p], c), rest...)
		}
		switch g.r.Intn(6) {
		case 0:
			ix := &Index{Name: "", Table: t.Name, Cols: []KeyCol{{Name: c.Name}}}
			x := g.indexFor(s, t)
			ix.Name = x.Name
			if g.nameFree(s, ix.Name) {
				s.Indexes = append(s.Indexes, ix)
				s.Order = append(s.Order, "i:"+ix.Name)
			}
		case 1:
			if k := g.constraint(s, t, g.pick(KUnique, KCheck, KFK, KIndex)); k != nil {
				t.Cons = append(t.Cons, k)
			}
		case 2:
			// the column widens the primary key
			for _, k := range t.Cons {
				if k.Kind == KPK && s.D != SP && c.Attrs["AS"] == "" {
					k.Cols = append(append([]KeyCol(nil), k.Cols...), KeyCol{Name: c.Name})
				}
			}
		}
		return kind
	case "drop column":
		if !g.removeColumn(s, t, t.Cols[g.r.Intn(len(t.Cols))]) {
			return ""
		}
		return kind
	case "rename column":
		used := map[string]bool{}
		for _, c := range t.Cols {
			markUsed(used, c.Name)
		}
		c := t.Cols[g.r.Intn(len(t.Cols))].clone()
		if !g.removeColumn(s, t, t.col(c.Name)) {
			return ""
		}
		c.Name = g.name(used)
		t.Cols = append(t.Cols, c)
		return kind
	case "type", "not null", "default", "attr":
		c := t.Cols[g.r.Intn(len(t.Cols))]
		return g.editColumn(s, t, c, kind)
	case "add constraint":
		k := g.constraint(s, t, g.pick(KFK, KUnique, KCheck, KIndex, KPK))
		if k == nil {
			return ""
		}
		if k.Kind == KPK {
			for _, x := range t.Cons {
				if x.Kind == KPK {
					return ""
				}
			}
		}
		t.Cons = append(t.Cons, k)
		return kind
	case "drop constraint":
		if len(t.Cons) == 0 {
			return ""
		}
		i := g.r.Intn(len(t.Cons))
		t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
		return kind
	case "swap constraint": // two constraints exchange their bodies
		if len(t.Cons) < 2 {
			return ""
		}
		a, b := t.Cons[g.r.Intn(len(t.Cons))], t.Cons[g.r.Intn(len(t.Cons))]
		if a == b || a.Name == "" || b.Name == "" || a.Kind != b.Kind || a.body() == b.body() || a.Kind == KPK {
			return ""
		}
		a.Name, b.Name = b.Name, a.Name
		return kind
	case "constraint kind": // a constraint becomes one of another kind and keeps its name
		if len(t.Cons) == 0 {
			return ""
		}
		i := g.r.Intn(len(t.Cons))
		k := g.constraint(s, t, g.pick(KUnique, KCheck, KFK, KIndex))
		if k == nil || k.Name == "" || k.Kind == t.Cons[i].Kind || t.Cons[i].Kind == KPK || t.Cons[i].Name == "" {
			return ""
		}
		k.Name = t.Cons[i].Name
		t.Cons = append(append(append([]*Con(nil), t.Cons[:i]...), k), t.Cons[i+1:]...)
		return kind
	case "change constraint":
		if len(t.Cons) == 0 {
			return ""
		}
		return g.editConstraint(s, t, t.Cons[g.r.Intn(len(t.Cons))])
	case "add index":
		ix := g.indexFor(s, t)
		if !g.nameFree(s, ix.Name) {
			return ""
		}
		s.Indexes = append(s.Indexes, ix)
		s.Order = append(s.Order, "i:"+ix.Name)
		return kind
	case "drop index":
		if len(s.Indexes) == 0 {
			return ""
		}
		n := s.Indexes[g.r.Intn(len(s.Indexes))].Name
		s.dropIndexes(func(i *Index) bool { return i.Name == n })
		return kind
	case "change index":
		if len(s.Indexes) == 0 {
			return ""
		}
		return g.editIndex(s, s.Indexes[g.r.Intn(len(s.Indexes))])
	case "option":
		return g.editOption(s, t)
	}
	panic(kind)
}

func (g *Gen) editColumn(s *State, t *Table, c *Col, kind string) string {
	old := c.canon()
	switch kind {
	case "type":
		if c.Attrs["AUTO_INCREMENT"] != "" || c.Attrs["AS"] != "" || c.Attrs["ON UPDATE"] != "" || c.Attrs["OPTIONS"] != "" || c.Attrs["CHARSET"] != "" || c.Attrs["COLLATE"] != "" {
			return ""
		}
		if s.D == SP && (exprUses(t.opt("ROW DELETION POLICY"), c.Name)) {
			return ""
		}
		f := g.familyOf(c.Type)
		if g.pct(40) {
			f = families[g.r.Intn(len(families))]
		}
		nt := g.typ(f)
		if sameType(c.Type, nt) {
			return ""
		}
		if g.familyOf(nt) != g.familyOf(c.Type) {
			c.Default = ""
			if g.pct(30) {
				c.Default = g.defaultFor(g.familyOf(nt))
			}
		}
		c.Type = nt
	case "not null":
		if c.Attrs["AUTO_INCREMENT"] != "" || s.D != SP && t.inPK(c.Name) {
			return ""
		}
		c.NotNull = !c.NotNull
	case "default":
		if c.Attrs["AUTO_INCREMENT"] != "" || c.Attrs["AS"] != "" {
			return ""
		}
		od := c.Default
		if n := g.tweakLiteral(c.Default); n != "" && g.pct(40) {
			c.Default = n
		} else if c.Default != "" && g.pct(40) {
			c.Default = ""
		} else {
			c.Default = g.defaultFor(g.familyOf(c.Type))
		}
		if g.sameDefault(od, c.Default) {
			c.Default = od
			return ""
		}
	case "attr":
		switch g.d {
		case MY:
			switch g.r.Intn(5) {
			case 0:
				if g.familyOf(c.Type) != "text" {
					return ""
				}
				c.Attrs["CHARSET"] = g.pick("UTF8MB4", "LATIN1", "")
			case 1:
				if g.familyOf(c.Type) != "text" {
					return ""
				}
				c.Attrs["COLLATE"] = g.pick("UTF8MB4_BIN", "LATIN1_BIN", "")
			case 2:
				v := g.onUpdate(c.Type)
				if v == "" {
					return ""
				}
				if i := strings.IndexByte(v, '('); i > 0 && g.pct(30) {
					v = v[:i]
				}
				c.Attrs["ON UPDATE"] = g.pick(v, "")
			case 3:
				if c.Attrs["COMMENT"] != "" && g.pct(40) {
					c.Attrs["COMMENT"] = ""
				} else {
					n := g.tweakLiteral(c.Attrs["COMMENT"])
					if n == "" || g.pct(50) {
						n = g.expr(g.strLit())
					}
					c.Attrs["COMMENT"] = n
				}
			case 4:
				if c.Attrs["AUTO_INCREMENT"] != "" {
					c.Attrs["AUTO_INCREMENT"] = ""
				} else if g.familyOf(c.Type) == "int" && c.Default == "" && g.autoIncFree(t) && c.NotNull {
					c.Attrs["AUTO_INCREMENT"] = "1"
				}
			}
		case SP:
			if c.Type != "TIMESTAMP" {
				return ""
			}
			if c.Attrs["OPTIONS"] != "" && g.pct(50) {
				c.Attrs["OPTIONS"] = ""
			} else {
				c.Attrs["OPTIONS"] = g.columnOptions()
			}
		default:
			return ""
		}
	}
	if c.canon() == old {
		return ""
	}
	return kind
}

// sameType tells types the dialects treat as one (never used as an edit).
func sameType(a, b string) bool {
	n := func(s string) string {
		for _, p := range [][2]string{{"NUMERIC", "DECIMAL"}, {"REAL", "FLOAT4"}} {
			if strings.HasPrefix(s, p[0]) {
				return p[1] + strings.TrimPrefix(s, p[0])
			}
		}
		return s
	}
	return n(a) == n(b)
}

// sameDefault tells values whose spelling differs only in the quotes around a
// value or in the case of words; the content of string literals counts.
func (g *Gen) sameDefault(a, b string) bool {
	n := func(s string) string {
		toks, err := lexSQL(s, g.d)
		if err != nil {
			return s
		}
		var out []string
		for _, t := range toks {
			switch {
			case t.K == 's' && len(toks) == 1 && isPlainValue(t.S):
				out = append(out, strings.ToUpper(t.S))
			case t.K == 's':
				out = append(out, t.Raw)
			case t.K == 'q':
				out = append(out, strings.ToUpper(t.S))
			default:
				out = append(out, strings.ToUpper(t.Raw))
			}
		}
		r := strings.Join(out, " ")
		if r == "NULL" {
			return ""
		}
		return r
	}
	return n(a) == n(b)
}

// isPlainValue tells contents that mean the same without quotes (numbers, TRUE, NULL, …).
func isPlainValue(s string) bool {
	switch strings.ToUpper(s) {
	case "NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP":
		return true
	}
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) && s[i] != '.' && s[i] != '-' {
			return false
		}
	}
	return s != ""
}

// tweakLiteral changes one character of one string literal of an expression
// (its letter case, if it can, or its content); "" when there is none.
func (g *Gen) tweakLiteral(canon string) string {
	raw, ok := g.raw[canon]
	if !ok {
		return ""
	}
	toks, err := lexSQL(raw, g.d)
	if err != nil {
		return ""
	}
	var lits []int
	for i, t := range toks {
		if t.K == 's' && t.Q == '\'' && strings.Trim(t.S, "0123456789.-") != "" && !strings.ContainsAny(t.Raw, "\\") {
			lits = append(lits, i)
		}
	}
	if len(lits) == 0 {
		return ""
	}
	old := toks[lits[g.r.Intn(len(lits))]].Raw
	body := old[strings.IndexByte(old, '\'')+1 : len(old)-1]
	nb := body
	switch g.r.Intn(6) {
	case 0, 1, 2: // letter case
		for try := 0; try < 8 && nb == body; try++ {
			i := g.r.Intn(len(body))
			switch c := body[i]; {
			case c >= 'a' && c <= 'z':
				nb = body[:i] + string(c-32) + body[i+1:]
			case c >= 'A' && c <= 'Z':
				nb = body[:i] + string(c+32) + body[i+1:]
			}
		}
		if nb == body {
			return ""
		}
	case 3: // white space
		nb = g.pick(" "+body, body+" ", strings.Replace(body, " ", "  ", 1), body+"\n")
	case 4: // quotation marks
		if g.d == SP {
			return ""
		}
		nb = g.pick("''"+body, body+"''", "\""+body+"\"", body+"\"")
	case 5:
		nb = g.pick(body+".", body+"0", "-"+body, body+"-- "+body, body+";")
	}
	if nb == body {
		return ""
	}
	// the literal as a whole must have another value
	nraw := strings.Replace(raw, "'"+body+"'", "'"+nb+"'", 1)
	if nraw == raw {
		return ""
	}
	if _, err := lexSQL(nraw, g.d); err != nil {
		return ""
	}
	n := g.expr(nraw)
	if n == canon {
		return ""
	}
	return n
}

func (g *Gen) editConstraint(s *State, t *Table, k *Con) string {
	old := k.body()
	nk := k.clone()
	tag := "change constraint " + k.Kind
	switch k.Kind {
	case KPK, KUnique, KIndex:
		switch g.r.Intn(3) {
		case 0:
			nk.Cols = g.keyColsFrom(t, 3, k.Kind == KIndex)
		case 1:
			if len(nk.Cols) < 2 {
				return ""
			}
			nk.Cols[0], nk.Cols[1] = nk.Cols[1], nk.Cols[0]
		case 2:
			if k.Kind != KIndex || k.Name == "" {
				return ""
			}
			nk.Unique = !nk.Unique
			if g.d == CR && nk.Using != "" {
				return ""
			}
		}
	case KCheck:
		if nk.Expr = g.tweakLiteral(k.Expr); nk.Expr == "" || g.pct(50) {
			nk.Expr = g.checkExpr(t)
		}
		if g.sameDefault(nk.Expr, k.Expr) {
			return ""
		}
	case KFK:
		switch g.r.Intn(3) {
		case 0:
			if g.d == SP {
				return ""
			}
			nk.OnDel = g.pick("", "CASCADE", "NO ACTION")
			if g.d != MY && nk.OnDel != "" {
				nk.OnUpd = ""
			}
		case 1:
			n := g.fk(s, t)
			if n == nil {
				return ""
			}
			nk.Ref, nk.RefCols, nk.Cols = n.Ref, n.RefCols, n.Cols
		case 2:
			if g.d == SP {
				return ""
			}
			nk.OnUpd = g.pick("", "CASCADE", "NO ACTION")
			if g.d != MY && nk.OnUpd != "" {
				nk.OnDel = ""
			}
		}
	}
	if nk.body() == old {
		return ""
	}
	for _, x := range t.Cons {
		if x != k && x.body() == nk.body() {
			return ""
		}
	}
	if nk.Name == "" && !g.canBeUnnamed(t, nk) {
		return ""
	}
	*k = *nk
	return tag
}

func (g *Gen) editIndex(s *State, ix *Index) string {
	old, save := ix.canon(), ix.clone()
	t := s.table(ix.Table)
	switch g.r.Intn(5) {
	case 0:
		ix.Unique = !ix.Unique
	case 1:
		ix.Cols = g.keyColsFrom(t, 3, g.d != PG)
	case 2:
		if len(ix.Cols) < 2 {
			return ""
		}
		ix.Cols[0], ix.Cols[1] = ix.Cols[1], ix.Cols[0]
	case 3:
		if g.d == PG {
			return ""
		}
		i := g.r.Intn(len(ix.Cols))
		ix.Cols[i].Desc = !ix.Cols[i].Desc
	case 4:
		switch g.d {
		case PG, CR:
			if ix.Post != "" {
				return ""
			}
			ix.Using = g.pick("", "GIN", "HASH")
			if g.d == CR {
				ix.Using = g.pick("", "GIN")
			}
		default:
			nt := s.Tables[g.r.Intn(len(s.Tables))]
			if nt.Name == ix.Table {
				return ""
			}
			ix.Table = nt.Name
			ix.Cols = g.keyColsFrom(nt, 2, true)
			s.removeOrder("i:" + ix.Name)
			s.Order = append(s.Order, "i:"+ix.Name)
		}
	}
	if ix.canon() == old {
		*ix = *save
		return ""
	}
	return "change index"
}

func (g *Gen) editOption(s *State, t *Table) string {
	switch g.d {
	case MY:
		k := g.pick("DEFAULT CHARSET", "COLLATE", "COMMENT", "ENGINE")
		old := t.opt(k)
		switch k {
		case "ENGINE":
			if old != "" {
				return ""
			}
			t.setOpt(k, "INNODB")
		case "COMMENT":
			v := g.tweakLiteral(old)
			if v == "" || g.pct(50) {
				v = g.expr(g.strLit())
			}
			if g.sameDefault(v, old) {
				return ""
			}
			t.setOpt(k, v)
		case "COLLATE":
			t.setOpt(k, g.pick("UTF8MB4_BIN", "UTF8MB4_GENERAL_CI"))
		default:
			t.setOpt(k, g.pick("UTF8MB4", "LATIN1"))
		}
		if t.opt(k) == old {
			return ""
		}
		return "option " + k
	case SP:
		switch g.r.Intn(4) {
		case 0, 1, 2:
			old := t.opt("ROW DELETION POLICY")
			if old != "" && g.pct(40) {
				t.setOpt("ROW DELETION POLICY", "")
				return "option ROW DELETION POLICY"
			}
			for _, c := range t.Cols {
				if c.Type == "TIMESTAMP" && !needsQuote(c.Name) {
					t.setOpt("ROW DELETION POLICY", g.expr("(OLDER_THAN("+c.Name+", INTERVAL "+g.pick("1", "7", "30")+" DAY))"))
					break
				}
			}
			if t.opt("ROW DELETION POLICY") == old {
				return ""
			}
			return "option ROW DELETION POLICY"
		default:
			old := t.opt(KPK)
			t.setOpt(KPK, keyCols(g.keyColsFrom(t, 2, true)))
			if t.opt(KPK) == old {
				return ""
			}
			return "option " + KPK
		}
	}
	return ""
}

// edits applies n random edits.
func (g *Gen) edits(s *State, n int) []string {
	var out []string
	for try := 0; len(out) < n && try < n*12; try++ {
		if tag := g.edit(s, editKinds[g.r.Intn(len(editKinds))]); tag != "" {
			out = append(out, tag)
			for _, t := range s.Tables {
				t.imply(g.d)
			}
		}
	}
	return out
}
