package main

import (
	"fmt"
	"go/token"
	"math/rand"
	"strconv"
	"strings"
	"unicode"
)

// goSource renders a schema as annotated Go source, the way a user would write
// it, and knows which statements the tool owes for it, in which order, and at
// which line each was asked for.
type goSource struct {
	g                     *Gen
	r                     *rand.Rand
	rd                    *renderer
	ddlTag, colTag, pkTag string
	Noise                 int  // percent of prose, unrelated declarations and unrelated fields
	Block                 int  // percent of block comments
	Backquoted            bool // struct tags only as raw strings
	Long                  int  // up to so many empty lines between declarations
	Shared                int  // fields that declare several columns
	fieldSerial           int
	typeSerial            int
	b                     strings.Builder
	line                  int // the line being written
	want                  []goStmt
	odd                   bool // something the Go syntax cannot carry
}

type goStmt struct {
	Kind byte // t or i
	Name string
	Line int
}

func (s *goSource) pct(p int) bool { return s.r.Intn(100) < p }

func (s *goSource) ln(text string) int {
	at := s.line
	s.b.WriteString(text)
	s.b.WriteString("\n")
	s.line += 1 + strings.Count(text, "\n")
	return at
}

// fragment joins what a renderer produced on one line.
func (s *goSource) fragment(f func(r *renderer)) string {
	s.rd.out = nil
	f(s.rd)
	var b strings.Builder
	for i, p := range s.rd.out {
		if i > 0 && !p.glue && s.rd.out[i-1].s != "(" && p.s != ")" && p.s != "," {
			b.WriteString(" ")
		}
		b.WriteString(p.s)
	}
	return b.String()
}

var prose = []string{
	"is a model.", "", "it's the user's own", "Note: table of everything", "see: index in the manual", "TODO: constraint is missing",
	"a; b; c", "; DROP TABLE users;", ");", "-- dashes", "CREATE TABLE nope (id INT);", "\"quoted", "`tick", "'single", "日本語のコメント", "50% done", "%s %d %v",
	"json: table things", "option: none", "ends with a comma,", "\\", "\tindented", "https://example.com/?a=b#c", "@deprecated", "sourced from elsewhere", "key: value", "$$", "/* nested", "a // b",
}

func (s *goSource) proseLine(ddlTag string) string {
	p := prose[s.r.Intn(len(prose))]
	if s.pct(10) {
		p = otherTag(ddlTag) + ": " + []string{"table", "constraint", "index", "option"}[s.r.Intn(4)] + ": " + p
	}
	return p
}

// otherTag is a tag of another tool, or of this one for another dialect.
func otherTag(ddlTag string) string {
	switch ddlTag {
	case "sql.ddl":
		return "sqlxddl"
	case "ddl+":
		return "ddll"
	}
	return "x" + ddlTag
}

// annotation is the text of one annotation.
func (s *goSource) annotation(kind, text string) string {
	sp := func() string { return []string{"", " ", "  "}[s.r.Intn(3)] }
	plural := map[string]string{"index": "es"}[kind]
	if plural == "" {
		plural = "s"
	}
	if s.pct(80) {
		plural = ""
	}
	sep := ":" + sp()
	if s.pct(50) {
		sep = " " + strings.Repeat(" ", s.r.Intn(6))
	}
	return s.ddlTag + sp() + ":" + sp() + kind + plural + sep + text
}

type goLine struct {
	text  string
	ann   bool     // an annotation, not prose
	stmts []goStmt // what is asked for on this line
}

// comments writes a comment group at an indentation; nil lines are separators.
func (s *goSource) comments(indent string, lines []goLine) {
	first := -1
	var pending []*goStmt
	note := func(l goLine, at int) {
		if l.ann && first < 0 {
			first = at
		}
		for _, st := range l.stmts {
			st := st
			st.Line = at
			pending = append(pending, &st)
		}
	}
	for i := 0; i < len(lines); {
		// a run of lines in one block comment
		if s.pct(s.Block) {
			n := 1 + s.r.Intn(len(lines)-i)
			ok := true
			for _, l := range lines[i : i+n] {
				ok = ok && !strings.Contains(l.text, "*/")
			}
			if ok {
				if n == 1 && s.pct(60) {
					note(lines[i], s.line)
					s.ln(indent + "/* " + lines[i].text + []string{" */", "*/"}[s.r.Intn(2)])
				} else {
					open := "/*"
					k := i
					if s.pct(40) {
						open = "/* " + lines[k].text
						note(lines[k], s.line)
						k++
					}
					s.ln(indent + open)
					for ; k < i+n; k++ {
						note(lines[k], s.line)
						s.ln(indent + []string{"", " ", "\t", "   "}[s.r.Intn(4)] + lines[k].text)
					}
					s.ln(indent + "*/")
				}
				i += n
				continue
			}
		}
		lead := []string{"// ", "//", "//\t", "//  "}[s.r.Intn(4)]
		if !lines[i].ann {
			lead = "// "
		}
		note(lines[i], s.line)
		s.ln(indent + strings.TrimRight(lead+lines[i].text, " ") + []string{"", "", "", " "}[s.r.Intn(4)])
		i++
	}
	for _, p := range pending {
		if p.Kind == 't' {
			p.Line = first // a table is asked for where its annotations begin
		}
		s.want = append(s.want, *p)
	}
}

// proseBefore is some prose that does not look like an annotation.
func (s *goSource) proseLines(max int) []goLine {
	var out []goLine
	if s.Noise > 0 {
		for i := s.r.Intn(max + 1); i > 0; i-- {
			if s.pct(s.Noise) {
				out = append(out, goLine{text: s.proseLine(s.ddlTag)})
			}
		}
	}
	return out
}

func isGoIdent(n string) bool {
	return token.IsIdentifier(n) && n != "_" && strings.IndexFunc(n, func(r rune) bool { return r > unicode.MaxASCII }) < 0
}

var goTypes = []string{"string", "int", "*time.Time", "[]byte", "sql.NullString", "map[string]any", "interface{}", "struct{ A int }", "func() error", "Opt[string]", "[16]byte", "chan int"}

// tagLit is the Go literal of a struct tag made of key/value pairs.
func (s *goSource) tagLit(kv [][2]string) string {
	if s.pct(30) {
		s.r.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
	}
	var parts []string
	for _, p := range kv {
		parts = append(parts, p[0]+":"+strconv.Quote(p[1]))
	}
	tag := strings.Join(parts, []string{" ", "  "}[s.r.Intn(2)])
	if len(kv) == 0 {
		return "``"
	}
	if strings.ContainsAny(tag, "`\r") || !s.Backquoted && s.pct(15) {
		return strconv.Quote(tag)
	}
	return "`" + tag + "`"
}

// sameColumns counts the columns from one on that one Go field can declare.
func sameColumns(t *Table, i int, inl map[string][]*Con, tags map[string]bool) int {
	plain := func(c *Col) bool { return isGoIdent(c.Name) && len(inl[c.Name]) == 0 && !tags[c.Name] }
	j := i
	for j < len(t.Cols) && plain(t.Cols[j]) {
		x := t.Cols[j].clone()
		x.Name = t.Cols[i].Name
		if x.canon() != t.Cols[i].canon() || t.inPK(t.Cols[i].Name) != t.inPK(t.Cols[j].Name) {
			break
		}
		j++
	}
	return j - i
}

func (s *goSource) field() string {
	s.fieldSerial++
	return fmt.Sprintf("F%d", s.fieldSerial)
}

// noiseField is a field that is no column.
func (s *goSource) noiseField(indent string) {
	if s.pct(40) {
		s.comments(indent, append(s.proseLines(2), goLine{text: "an unrelated field"}))
	}
	f := s.field()
	switch s.r.Intn(9) {
	case 0:
		s.ln(indent + f + " string")
	case 1:
		s.ln(indent + f + ", " + s.field() + " int")
	case 2:
		s.ln(indent + f + " int `json:\"x\" " + otherTag(s.ddlTag) + ":\"INT NOT NULL\"`")
	case 3:
		s.ln(indent + "Embedded" + f)
	case 4:
		s.ln(indent + "*pkg.Embedded" + f + " `json:\",inline\"`")
	case 5:
		s.ln(indent + f + " string `" + s.colTag + ":\"ghost\"`")
	case 6:
		s.ln(indent + f + " string `" + s.colTag + ":\"-\" " + s.ddlTag + ":\"-\"`")
	case 7:
		s.ln(indent + "_ struct{} `" + s.ddlTag + ":\"-\"`")
	case 8:
		s.ln(indent + "Embedded" + f + " `" + s.colTag + ":\"-\"`")
	}
}

// noiseDecl is a declaration the tool has no business with.
func (s *goSource) noiseDecl() {
	s.typeSerial++
	n := s.typeSerial
	if s.pct(50) {
		s.comments("", append(s.proseLines(3), goLine{text: "is unrelated."}))
	}
	switch s.r.Intn(7) {
	case 0:
		s.ln(fmt.Sprintf("type Unrelated%d struct {\n\tA int `%s:\"a\" %s:\"INT\"`\n\tB string\n}", n, s.colTag, s.ddlTag))
	case 1:
		s.ln(fmt.Sprintf("func unrelated%d() error {\n\t// just a comment\n\treturn nil\n}", n))
	case 2:
		s.ln(fmt.Sprintf("const C%d = `\n%s: table: fake\n`", n, s.ddlTag))
	case 3:
		s.ln(fmt.Sprintf("var V%d = \"// %s: table: fake\"", n, s.ddlTag))
	case 4:
		s.ln(fmt.Sprintf("type Alias%d = string", n))
	case 5:
		s.ln(fmt.Sprintf("type I%d interface {\n\tDo() error // does it\n}", n))
	case 6:
		s.ln(fmt.Sprintf("type G%d[T any] struct {\n\tX T\n}", n))
	}
	s.ln("")
}

// pkByTags tells whether the primary key of a table can be given by field tags:
// it is unnamed and in the order of the columns.
func pkByTags(t *Table, d Dialect) (map[string]bool, *Con) {
	var cols []KeyCol
	var pk *Con
	if d == SP {
		v := t.opt(KPK)
		if v == "" || v == "()" {
			return nil, nil
		}
		cols = parseKeyColsCanon(v)
	} else {
		for _, k := range t.Cons {
			if k.Kind == KPK && k.Name == "" {
				pk, cols = k, k.Cols
			}
		}
	}
	if len(cols) == 0 {
		return nil, nil
	}
	set, at := map[string]bool{}, -1
	for _, k := range cols {
		i := -1
		for j, c := range t.Cols {
			if c.Name == k.Name {
				i = j
			}
		}
		if k.Desc || i <= at {
			return nil, nil
		}
		at = i
		set[k.Name] = true
	}
	return set, pk
}

// indexLine is the annotation of one index.
func (s *goSource) indexLine(ix *Index) goLine {
	text := strings.TrimSuffix(strings.TrimSpace(s.fragment(func(r *renderer) { r.index(ix) })), ";")
	text = strings.TrimSpace(text)
	if short, ok := strings.CutPrefix(text, "CREATE INDEX "); ok && s.pct(50) && !strings.HasPrefix(strings.ToUpper(short), "IF ") {
		text = short
	}
	return goLine{ann: true, text: s.annotation("index", s.oneLine(text)), stmts: []goStmt{{Kind: 'i', Name: ix.Name}}}
}

func (s *goSource) oneLine(t string) string {
	if strings.ContainsAny(t, "\n\r") || strings.HasSuffix(strings.TrimSpace(t), "*/") {
		s.odd = true
	}
	return t
}

// table writes the struct of a table with the indexes annotated on it.
func (s *goSource) table(t *Table, indexes []*Index, indent string) {
	tags, pkCon := pkByTags(t, s.g.d)
	if tags != nil && s.g.d != SP && s.pct(20) {
		tags = nil // as a constraint instead
	}
	if tags != nil && s.g.d == SP && s.pct(15) {
		tags = nil
	}
	inl := map[string][]*Con{}
	var rest []*Con
	kinds := map[string]bool{}
	for _, k := range t.Cons {
		if tags != nil && k == pkCon {
			continue
		}
		col := s.rd.inlineFor(t, k)
		key := col + "|" + k.Kind
		if col != "" && !kinds[key] && (s.rd.mustInline(k) || s.pct(30)) {
			kinds[key] = k.Kind != KCheck && k.Kind != KFK
			inl[col] = append(inl[col], k)
			continue
		}
		rest = append(rest, k)
	}
	stmt := goStmt{Kind: 't', Name: t.Name}
	structName := fmt.Sprintf("T%d", func() int { s.typeSerial++; return s.typeSerial }())
	name := s.fragment(func(r *renderer) { r.id(t.Name) })
	var lines []goLine
	byStruct := name == t.Name && isGoIdent(t.Name) && s.pct(20)
	if byStruct {
		structName = t.Name
	} else {
		switch s.r.Intn(4) {
		case 0:
			name = "CREATE TABLE " + name
		case 1:
			name = "CREATE TABLE IF NOT EXISTS " + name
		}
		lines = append(lines, goLine{ann: true, text: s.annotation("table", s.oneLine(name)), stmts: []goStmt{stmt}})
	}
	for _, k := range rest {
		lines = append(lines, goLine{ann: true, text: s.annotation("constraint", s.oneLine(s.fragment(func(r *renderer) { r.tableCon(k) })))})
	}
	opts := &Table{Name: t.Name, Opts: t.Opts}
	if s.g.d == SP && tags != nil {
		opts.Opts = nil
		for _, o := range t.Opts {
			if o.K != KPK {
				opts.Opts = append(opts.Opts, o)
			}
		}
	}
	for _, o := range opts.Opts {
		one := &Table{Name: "t", Opts: []Opt{o}}
		text := s.fragment(func(r *renderer) {
			r.table(one)
			for i, p := range r.out { // after the parentheses of the columns
				if p.s == ")" {
					r.out = r.out[i+1 : len(r.out)-1]
					break
				}
			}
		})
		lines = append(lines, goLine{ann: true, text: s.annotation("option", s.oneLine(text))})
	}
	if byStruct {
		// the annotation asks for the table, the struct names it
		if len(lines) == 0 || s.pct(30) {
			lines = append([]goLine{{ann: true, text: s.ddlTag + []string{":", ": table", ":table:", ":  "}[s.r.Intn(4)]}}, lines...)
		}
		lines[0].stmts = append(lines[0].stmts, stmt)
	}
	for _, ix := range indexes {
		lines = append(lines, s.indexLine(ix))
	}
	// prose between the annotations; the first annotation stays first
	var all []goLine
	for i, l := range lines {
		if i == 0 {
			all = append(all, s.proseLines(4)...)
		} else {
			all = append(all, s.proseLines(1)...)
		}
		all = append(all, l)
	}
	all = append(all, s.proseLines(2)...)
	s.comments(indent, all)
	head := indent + structName + " struct {"
	if indent == "" {
		head = "type " + head
	}
	s.ln(head)
	in := indent + "\t"
	for ci := 0; ci < len(t.Cols); ci++ {
		c := t.Cols[ci]
		for s.pct(s.Noise / 4) {
			s.noiseField(in)
		}
		if cs := s.proseLines(3); len(cs) > 0 {
			s.comments(in, cs)
		}
		text := s.fragment(func(r *renderer) {
			r.column(t, c, inl[c.Name])
			r.out = r.out[1:]
		})
		field, embedded := s.field(), false
		s.odd = s.odd || c.Name == "-" // means no column
		var kv [][2]string
		if n := sameColumns(t, ci, inl, tags); n > 1 { // A, B int
			var names []string
			for _, x := range t.Cols[ci : ci+n] {
				names = append(names, x.Name)
			}
			field = strings.Join(names, ", ")
			ci += n - 1
			s.Shared++
		} else if isGoIdent(c.Name) && s.pct(20) {
			field = c.Name
			if s.pct(15) { // an embedded field is named after its type
				field = []string{"%s", "*%s", "base.%s", "*base.%s", "%s[int]", "*base.%s[string, []int]"}[s.r.Intn(6)]
				field = strings.Replace(field, "%s", c.Name, 1)
				embedded = true
			}
		} else {
			kv = append(kv, [2]string{s.colTag, c.Name})
		}
		kv = append(kv, [2]string{s.ddlTag, text})
		if tags[c.Name] {
			kv = append(kv, [2]string{s.pkTag, []string{"true", "1"}[s.r.Intn(2)]})
		} else if s.pct(10) {
			kv = append(kv, [2]string{s.pkTag, []string{"false", "", "-", "no"}[s.r.Intn(4)]})
		}
		if s.pct(s.Noise) {
			kv = append(kv, [2]string{"json", c.Name + ",omitempty"})
		}
		if s.pct(s.Noise / 3) {
			kv = append(kv, [2]string{otherTag(s.ddlTag), "JSONB NOT NULL"})
		}
		ty := goTypes[s.r.Intn(len(goTypes))]
		if len(kv) > 1 && kv[0][0] == s.colTag && s.pct(4) { // an embedded field with a column of its own
			s.ln(in + "Embedded" + field + " " + s.tagLit(kv))
			continue
		}
		if embedded {
			ty = ""
		} else if s.pct(5) {
			ty = "struct {\n" + in + "\tX int `json:\"x\"`\n" + in + "}"
		}
		line := in + strings.TrimSpace(field+" "+ty) + " " + s.tagLit(kv)
		if s.pct(s.Noise / 3) {
			line += " // " + s.proseLine(s.ddlTag)
		}
		s.ln(line)
	}
	if s.pct(s.Noise / 3) {
		s.noiseField(in)
	}
	s.ln(indent + "}")
	s.ln("")
}

// file writes the objects of an order ("t:name", "i:name") as one Go file.
func (s *goSource) file(m *State, order []string) string {
	s.b.Reset()
	s.line, s.want, s.odd = 1, nil, false
	if s.pct(s.Noise) {
		s.ln("// Package models is generated by nobody.\n//\n// " + otherTag(s.ddlTag) + ": table: nothing")
	}
	s.ln("package models")
	s.ln("")
	if s.pct(s.Noise) {
		s.ln("import (\n\t\"time\" // it's used\n)\n")
	}
	for i := 0; i < len(order); {
		if s.Long > 0 {
			s.ln(strings.Repeat("\n", s.r.Intn(s.Long)))
		}
		for s.pct(s.Noise / 3) {
			s.noiseDecl()
		}
		group := order[i][0] == 't' && s.pct(25)
		indent := ""
		if group {
			s.ln("type (")
			indent = "\t"
		}
		for {
			t := m.table(order[i][2:])
			if order[i][0] != 't' || t == nil {
				break
			}
			i++
			var own []*Index
			for i < len(order) && order[i][0] == 'i' && s.pct(70) {
				own = append(own, m.index(order[i][2:]))
				i++
			}
			s.table(t, own, indent)
			if !group || i >= len(order) || s.pct(40) {
				break
			}
		}
		if group {
			s.ln(")")
			s.ln("")
		}
		// indexes asked for on their own
		var lines []goLine
		for i < len(order) && order[i][0] == 'i' && (len(lines) == 0 || s.pct(50)) {
			lines = append(lines, s.proseLines(1)...)
			lines = append(lines, s.indexLine(m.index(order[i][2:])))
			i++
		}
		if len(lines) > 0 {
			s.comments("", lines)
			if s.pct(50) {
				s.typeSerial++
				s.ln([]string{"var _ = 1", "type X" + strconv.Itoa(s.typeSerial) + " int", "func f" + strconv.Itoa(s.typeSerial) + "() {}"}[s.r.Intn(3)])
			}
			s.ln("")
		}
	}
	return s.b.String()
}

// newGoSource picks the tags and the style.
func newGoSource(g *Gen, r *rand.Rand) *goSource {
	s := &goSource{g: g, r: r, ddlTag: "ddlctl", colTag: "db", pkTag: "pk", Noise: 40, Block: 10}
	if r.Intn(2) == 0 {
		s.ddlTag = []string{"pgddl", "spanddl", "myddl", "my_ddl", "DDL", "sql-ddl", "d", "sql.ddl", "ddl+"}[r.Intn(9)]
	}
	if r.Intn(3) == 0 {
		s.colTag = []string{"dbtest", "column", "d_b"}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		s.pkTag = []string{"pkey", "primary", "isPK"}[r.Intn(3)]
	}
	if r.Intn(4) == 0 {
		s.Noise = 0
	}
	if r.Intn(3) == 0 {
		s.Block = 0
	}
	if r.Intn(15) == 0 {
		s.Long = []int{20, 200, 2000, 20000, 20000}[r.Intn(5)]
	}
	st := &Style{r: r, Inline: 30, Case: r.Intn(2) * r.Intn(3), Quote: []int{0, 30, 100}[r.Intn(3)], Synonyms: r.Intn(2) == 0}
	s.rd = &renderer{Style: st, d: g.d, g: g}
	return s
}

// args are the command line arguments that go with the tags.
func (s *goSource) args(r *rand.Rand) []string {
	var a []string
	add := func(name, v, def string) {
		if v == def && r.Intn(3) > 0 {
			return
		}
		if r.Intn(2) == 0 {
			a = append(a, "--"+name+"="+v)
		} else {
			a = append(a, "--"+name, v)
		}
	}
	add("go-ddl-tag", s.ddlTag, "ddlctl")
	add("go-column-tag", s.colTag, "db")
	add("go-pk-tag", s.pkTag, "pk")
	add("lang", "go", "go")
	return a
}
