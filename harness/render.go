package main

import (
	"math/rand"
	"strconv"
	"strings"
)

// Style controls how a State is rendered to SQL text.
type Style struct {
	r           *rand.Rand
	Wild        bool // random white space and comments between tokens
	FoldID      bool // spell unquoted identifiers in any letter case where that means the same
	Case        int  // 0 upper, 1 lower, 2 mixed
	Quote       int  // percent of optional identifier quoting
	Synonyms    bool // random type synonyms
	Inline      int  // percent of single column constraints rendered inline
	INE         int  // percent of IF NOT EXISTS
	InlineCheck *int // overrides Inline for CHECK
	NoOpt       bool // omit optional spellings (ASC, NULL, NO ACTION)
}

func plainStyle(r *rand.Rand) *Style { return &Style{r: r, Inline: 40} }

func randStyle(r *rand.Rand) *Style {
	return &Style{r: r, FoldID: r.Intn(4) == 0, Wild: r.Intn(2) == 0, Case: r.Intn(3), Quote: []int{0, 30, 100}[r.Intn(3)], Synonyms: r.Intn(2) == 0, Inline: 50, INE: 20}
}

// piece kinds: keyword, identifier, verbatim
type piece struct {
	s    string
	glue bool // never put a separator before this piece (function call paren)
}

type renderer struct {
	*Style
	d   Dialect
	g   *Gen
	out []piece
}

func (st *Style) pickOne(s ...string) string { return s[st.r.Intn(len(s))] }
func (st *Style) pct(p int) bool             { return st.r.Intn(100) < p }

func (r *renderer) kw(words string) {
	for _, w := range strings.Fields(words) {
		switch r.Case {
		case 1:
			w = strings.ToLower(w)
		case 2:
			b := []byte(strings.ToLower(w))
			for i := range b {
				if r.r.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				}
			}
			w = string(b)
		}
		r.out = append(r.out, piece{s: w})
	}
}

func (r *renderer) lit(s string) { r.out = append(r.out, piece{s: s}) }

func (r *renderer) id(n string) {
	t := r.g.identText(n, r.pct(r.Quote))
	if r.FoldID && t == n && (r.d == PG || r.d == CR) {
		// unquoted identifiers are case-insensitive there
		t = randCase(r.r, t)
	}
	r.lit(t)
}

func randCase(rd *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if rd.Intn(2) == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// expr emits verbatim tokens of raw expression text.
func (r *renderer) expr(canon string) {
	raw, ok := r.g.raw[canon]
	if !ok {
		raw = canon
	}
	toks := mustLex(raw, r.d)
	for i, t := range toks {
		p := piece{s: t.Raw}
		if i > 0 {
			prev := toks[i-1]
			if t.isOp("(") && (prev.K == 'w' || prev.K == 'q') || prev.isOp("::") || t.isOp("::") || prev.isOp(":::") || t.isOp(":::") {
				p.glue = true
			}
			if prev.isOp("-") && (i == 1 || toks[i-2].K == 'o') {
				p.glue = true
			}
		}
		r.out = append(r.out, p)
	}
}

var synonyms = map[Dialect]map[string][]string{
	PG: {"INTEGER": {"INTEGER", "INT"}, "TIMESTAMPTZ": {"TIMESTAMP WITH TIME ZONE", "TIMESTAMPTZ"}, "TIMESTAMP": {"TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE"}, "NUMERIC": {"NUMERIC", "DECIMAL"}, "CHARACTER VARYING": {"CHARACTER VARYING", "VARCHAR"}},
	CR: {"BOOL": {"BOOL", "BOOLEAN"}, "INT2": {"INT2", "SMALLINT"}, "INT4": {"INT4", "INTEGER", "INT"}, "INT8": {"INT8", "BIGINT"}, "FLOAT8": {"FLOAT8", "DOUBLE PRECISION"}, "VARCHAR": {"VARCHAR", "CHARACTER VARYING"}, "STRING": {"STRING", "TEXT"}, "DECIMAL": {"DECIMAL", "NUMERIC"}, "FLOAT4": {"FLOAT4", "REAL"}, "TIMESTAMPTZ": {"TIMESTAMPTZ", "TIMESTAMP WITH TIME ZONE"}},
	MY: {"INTEGER": {"INTEGER", "INT"}, "VARCHAR": {"VARCHAR", "CHARACTER VARYING"}, "DECIMAL": {"DECIMAL", "NUMERIC"}, "DOUBLE": {"DOUBLE", "DOUBLE PRECISION", "REAL"}, "TINYINT(1)": {"BOOLEAN", "TINYINT(1)"}},
}

func (r *renderer) typ(t string) {
	base, args := t, ""
	if alt := synonyms[r.d][t]; alt != nil {
		if r.Synonyms {
			base = alt[r.r.Intn(len(alt))]
		} else {
			base = alt[0]
		}
		if i := strings.IndexByte(base, '('); i >= 0 {
			base, args = base[:i], base[i:]
		}
	} else {
		if i := strings.IndexByte(t, '('); i >= 0 {
			base, args = t[:i], t[i:]
		}
		if alt := synonyms[r.d][base]; alt != nil {
			base = alt[0]
			if r.Synonyms {
				base = alt[r.r.Intn(len(alt))]
			}
		}
	}
	zone := ""
	if args != "" && strings.HasPrefix(base, "TIMESTAMP ") {
		base, zone = "TIMESTAMP", base[len("TIMESTAMP "):] // TIMESTAMP(3) WITH TIME ZONE
	}
	r.kw(base)
	if zone != "" {
		defer r.kw(zone)
	}
	if args != "" {
		for i, tk := range mustLex(args, r.d) {
			r.out = append(r.out, piece{s: tk.Raw, glue: i == 0})
		}
	}
}

func (r *renderer) keyCols(cs []KeyCol) {
	r.lit("(")
	for i, c := range cs {
		if i > 0 {
			r.lit(",")
		}
		r.id(c.Name)
		if c.Desc {
			r.kw("DESC")
		} else if r.d != PG && !r.NoOpt && r.Synonyms && r.pct(20) {
			r.kw("ASC")
		}
	}
	r.lit(")")
}

func (r *renderer) actions(k *Con) {
	type a struct{ w, v string }
	var l []a
	if k.OnDel != "" {
		l = append(l, a{"DELETE", k.OnDel})
	}
	if k.OnUpd != "" {
		l = append(l, a{"UPDATE", k.OnUpd})
	}
	if r.Synonyms && r.d != SP && len(l) < 2 && r.pct(25) { // the default action spelled out
		if len(l) == 1 && r.d == MY && k.OnDel == "" {
			l = append(l, a{"DELETE", "NO ACTION"})
		} else if len(l) == 1 && r.d == MY {
			l = append(l, a{"UPDATE", "NO ACTION"})
		} else if len(l) == 0 {
			l = append(l, a{r.pickOne("DELETE", "UPDATE"), "NO ACTION"})
		}
	}
	if len(l) == 2 && r.Synonyms && r.pct(50) {
		l[0], l[1] = l[1], l[0]
	}
	for _, x := range l {
		r.kw("ON " + x.w + " " + x.v)
	}
}

func (r *renderer) refs(k *Con) {
	r.kw("REFERENCES")
	r.id(k.Ref)
	r.lit("(")
	for i, c := range k.RefCols {
		if i > 0 {
			r.lit(",")
		}
		r.id(c)
	}
	r.lit(")")
	r.actions(k)
}

func (r *renderer) tableCon(k *Con) {
	if k.Kind == KIndex {
		if k.Unique {
			r.kw("UNIQUE")
		}
		if r.d == MY {
			if r.Synonyms && r.pct(40) {
				r.kw("INDEX")
			} else {
				r.kw("KEY")
			}
		} else {
			r.kw("INDEX")
		}
		r.id(k.Name)
		r.keyCols(k.Cols)
		if k.Using != "" {
			r.using(strings.TrimPrefix(k.Using, " USING "))
		}
		return
	}
	if k.Name != "" {
		r.kw("CONSTRAINT")
		r.id(k.Name)
	}
	switch k.Kind {
	case KPK, KUnique:
		r.kw(k.Kind)
		r.keyCols(k.Cols)
	case KFK:
		r.kw("FOREIGN KEY")
		r.keyCols(k.Cols)
		r.refs(k)
	case KCheck:
		r.kw("CHECK")
		r.expr(k.Expr)
	}
}

func (r *renderer) using(v string) {
	r.kw("USING")
	for _, t := range mustLex(v, r.d) {
		r.lit(strings.ToLower(t.Raw))
	}
}

func (r *renderer) column(t *Table, c *Col, inline []*Con) {
	r.id(c.Name)
	r.typ(c.Type)
	var attrs []func()
	if c.NotNull && r.d != SP && t.inPK(c.Name) && (r.pct(15) || r.Synonyms && r.pct(30)) {
		// NOT NULL goes without saying
	} else if c.NotNull {
		attrs = append(attrs, func() { r.kw("NOT NULL") })
	} else if r.d != SP && r.Synonyms && r.pct(15) {
		attrs = append(attrs, func() { r.kw("NULL") })
	}
	if c.Default != "" {
		attrs = append(attrs, func() { r.kw("DEFAULT"); r.expr(c.Default) })
	} else if r.d != SP && !c.NotNull && r.Synonyms && c.Attrs["AS"] == "" && !strings.Contains(c.Type, "SERIAL") && r.pct(12) {
		attrs = append(attrs, func() { r.kw("DEFAULT"); r.kw("NULL") })
	}
	if len(attrs) == 2 && r.Synonyms && r.r.Intn(2) == 0 {
		attrs[0], attrs[1] = attrs[1], attrs[0]
	}
	if r.d == CR {
		if c.Attrs["NOT VISIBLE"] != "" {
			r.kw("NOT VISIBLE")
		}
	}
	autoDone := false
	if r.d == MY {
		var own []func()
		if v := c.Attrs["CHARSET"]; v != "" {
			own = append(own, func() { r.kw("CHARACTER SET"); r.lit(strings.ToLower(v)) })
		}
		if v := c.Attrs["COLLATE"]; v != "" {
			own = append(own, func() { r.kw("COLLATE"); r.lit(strings.ToLower(v)) })
		}
		if r.Synonyms && r.pct(30) {
			// any order
			charset := own[:0:0]
			if c.Attrs["CHARSET"] != "" {
				charset, own = own[:1:1], own[1:]
			}
			if c.Attrs["AUTO_INCREMENT"] != "" {
				autoDone = true
				own = append(own, func() { r.kw("AUTO_INCREMENT") })
			}
			own, attrs = charset, append(own, attrs...)
			r.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
		}
		attrs = append(own, attrs...)
	}
	for _, a := range attrs {
		a()
	}
	if r.d == CR && c.Attrs["AS"] != "" {
		r.kw("AS")
		v := c.Attrs["AS"]
		i := strings.LastIndexByte(v, ' ')
		r.expr(v[:i])
		r.kw(v[i+1:])
	}
	if r.d == MY {
		if c.Attrs["AUTO_INCREMENT"] != "" && !autoDone {
			r.kw("AUTO_INCREMENT")
		}
		if v := c.Attrs["ON UPDATE"]; v != "" {
			if i := strings.IndexByte(v, '('); i > 0 {
				r.kw("ON UPDATE " + v[:i])
				r.expr(v[i:])
			} else {
				r.kw("ON UPDATE " + v)
			}
		}
	}
	for _, k := range inline {
		switch k.Kind {
		case KPK:
			r.kw("PRIMARY KEY")
		case KUnique, KIndex:
			r.kw("UNIQUE")
		case KCheck:
			r.kw("CHECK")
			r.expr(k.Expr)
		case KFK:
			r.refs(k)
		}
	}
	if r.d == MY && c.Attrs["COMMENT"] != "" {
		r.kw("COMMENT")
		r.expr(c.Attrs["COMMENT"])
	}
	if r.d == SP && c.Attrs["OPTIONS"] != "" {
		r.kw("OPTIONS")
		r.expr(c.Attrs["OPTIONS"])
	}
}

// inlineFor tells which column (if any) an unnamed constraint may be attached to.
func (r *renderer) inlineFor(t *Table, k *Con) string {
	if k.Name != "" {
		return ""
	}
	switch k.Kind {
	case KCheck:
		if r.d == SP {
			return ""
		}
		return checkColumn(t, k, r.d)
	case KPK, KUnique, KFK, KIndex:
		if len(k.Cols) == 1 && !k.Cols[0].Desc && r.d != SP {
			return k.Cols[0].Name
		}
	}
	return ""
}

func (r *renderer) mustInline(k *Con) bool {
	return k.Name == "" && k.Kind == KIndex
}

// parseKeyColsCanon reads the text keyCols produced.
func parseKeyColsCanon(v string) []KeyCol {
	var out []KeyCol
	v = strings.TrimSuffix(strings.TrimPrefix(v, "("), ")")
	for v != "" {
		q, err := strconv.QuotedPrefix(v)
		if err != nil {
			panic(err)
		}
		n, _ := strconv.Unquote(q)
		v = v[len(q):]
		k := KeyCol{Name: n}
		if strings.HasPrefix(v, " DESC") {
			k.Desc = true
			v = v[5:]
		}
		v = strings.TrimPrefix(v, ",")
		out = append(out, k)
	}
	return out
}

func (r *renderer) table(t *Table) {
	r.kw("CREATE TABLE")
	if r.pct(r.INE) {
		r.kw("IF NOT EXISTS")
	}
	r.id(t.Name)
	r.lit("(")
	inl := map[string][]*Con{}
	var rest []*Con
	kinds := map[string]bool{}
	for _, k := range t.Cons {
		col := r.inlineFor(t, k)
		key := col + "|" + k.Kind
		pc := r.Inline
		if k.Kind == KCheck && r.InlineCheck != nil {
			pc = *r.InlineCheck
		}
		if col != "" && !kinds[key] && (r.mustInline(k) || r.pct(pc)) {
			kinds[key] = k.Kind != KCheck && k.Kind != KFK
			inl[col] = append(inl[col], k)
			continue
		}
		rest = append(rest, k)
	}
	first := true
	sep := func() {
		if !first {
			r.lit(",")
		}
		first = false
	}
	for _, c := range t.Cols {
		sep()
		r.column(t, c, inl[c.Name])
	}
	for _, k := range rest {
		sep()
		r.tableCon(k)
	}
	r.lit(")")
	switch r.d {
	case MY:
		opts := append([]Opt(nil), t.Opts...)
		for _, o := range opts {
			r.kw(o.K)
			r.lit("=")
			switch o.K {
			case "COMMENT":
				r.expr(o.V)
			case "ENGINE":
				r.lit("InnoDB")
			default:
				r.lit(strings.ToLower(o.V))
			}
		}
	case SP:
		for i, o := range t.Opts {
			if i > 0 {
				r.lit(",")
			}
			r.kw(map[string]string{KPK: "PRIMARY KEY", "INTERLEAVE": "INTERLEAVE IN PARENT", "ROW DELETION POLICY": "ROW DELETION POLICY"}[o.K])
			switch o.K {
			case KPK:
				if o.V == "()" {
					r.lit("(")
					r.lit(")")
				} else {
					r.keyCols(parseKeyColsCanon(o.V))
				}
			case "INTERLEAVE":
				r.id(interleaveParent(o.V))
				if strings.HasSuffix(o.V, "CASCADE") {
					r.kw("ON DELETE CASCADE")
				} else if r.Synonyms && r.pct(40) {
					r.kw("ON DELETE NO ACTION")
				}
			default:
				r.expr(o.V)
			}
		}
	}
	r.lit(";")
}

func (r *renderer) index(ix *Index) {
	r.kw("CREATE")
	if ix.Unique {
		r.kw("UNIQUE")
	}
	r.kw("INDEX")
	if r.pct(r.INE) {
		r.kw("IF NOT EXISTS")
	}
	r.id(ix.Name)
	r.kw("ON")
	r.id(ix.Table)
	if ix.Using != "" {
		r.kw("USING")
		r.lit(strings.ToLower(ix.Using))
	}
	r.keyCols(ix.Cols)
	if ix.Post != "" {
		r.using(ix.Post)
	}
	r.lit(";")
}

func isGlueable(s string) bool { return s == "(" || s == ")" || s == "," || s == ";" }

func (r *renderer) text() string {
	var b strings.Builder
	depth := 0
	for i, p := range r.out {
		if i > 0 && !p.glue {
			b.WriteString(r.sep(r.out[i-1].s, p.s, depth))
		}
		b.WriteString(p.s)
		switch p.s {
		case "(":
			depth++
		case ")":
			depth--
		}
	}
	b.WriteString("\n")
	return b.String()
}

func (r *renderer) sep(prev, next string, depth int) string {
	if !r.Wild {
		switch {
		case prev == ";":
			return "\n"
		case prev == "(" || next == ")" || next == "," || next == ";":
			return ""
		case prev == "," && depth == 1:
			return "\n    "
		}
		return " "
	}
	if (isGlueable(prev) || isGlueable(next)) && r.pct(40) {
		return ""
	}
	switch r.r.Intn(12) {
	case 0:
		return "\n"
	case 1:
		return "\t"
	case 2:
		return "  "
	case 3:
		return "\r\n"
	case 4:
		return " -- " + commentBodies[r.r.Intn(len(commentBodies))] + "\n"
	case 5:
		return "\n-- " + commentBodies[r.r.Intn(len(commentBodies))] + "\n  "
	case 6:
		return " --\n"
	case 7:
		return "\r"
	case 8: // postgres and spanner end a comment at a carriage return, the others do not
		body := commentBodies[r.r.Intn(len(commentBodies))]
		if r.d == PG || r.d == SP {
			return " -- " + body + "\r"
		}
		return " -- " + body + "\r" + commentBodies[r.r.Intn(len(commentBodies))] + "\n"
	}
	return " "
}

var commentBodies = []string{"plain comment", "it's got a quote", "CREATE TABLE nope (id INT);", ");", "a \"b", "日本語", "-- nested", "; DROP TABLE users;", ", x INT", "`tick", "/* */", "DEFAULT 'x"}

// render prints the whole state in its creation order.
func (g *Gen) render(s *State, st *Style) string {
	r := &renderer{Style: st, d: g.d, g: g}
	for _, o := range s.Order {
		if t := s.table(o[2:]); t != nil && o[0] == 't' {
			r.table(t)
		} else if ix := s.index(o[2:]); ix != nil && o[0] == 'i' {
			r.index(ix)
		}
	}
	return r.text()
}
