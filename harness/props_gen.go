package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func init() {
	props["G01"] = prop{"exploration", "distinct Go sources and command lines given to generate whose end was judged", runG01}
	props["G02"] = prop{"exploration", "distinct annotated Go sources whose generated DDL was compared with the schema they describe", runG02}
	props["G03"] = prop{"exploration", "distinct (annotated source, prose and unrelated code) variants whose generated statements were compared", runG03}
	props["G04"] = prop{"exploration", "distinct annotated sources generated repeatedly from different places and compared byte for byte", runG04}
	props["G05"] = prop{"fault_enumeration", "distinct (source, destination, fault) runs of generate whose destination file and exit status were judged", runG05}
	props["G06"] = prop{"exploration", "distinct directory trees whose generated DDL was compared with that of their files", runG06}
}

// goCase is one annotated source on disk.
type goCase struct {
	d    Dialect
	m    *State
	s    *goSource
	src  string
	dir  string
	args []string
	want []goStmt
}

func (c *Ctx) caseDir(key string) string {
	dir := filepath.Join(workDir, strings.NewReplacer("/", "_").Replace(key))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return dir
}

func mustWrite(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// goModel is a schema that Go annotations can carry.
func goModel(r *rand.Rand, d Dialect) (*Gen, *State) {
	g := newGen(r, d)
	if r.Intn(20) == 0 {
		g.MaxTables, g.MaxIdx = 14, 20
	}
	m := g.schema()
	for _, t := range m.Tables { // columns that one Go field can declare together
		for n := r.Intn(8); n == 0; n = r.Intn(3) {
			i := r.Intn(len(t.Cols))
			x := t.Cols[i].clone()
			x.Name = fmt.Sprintf("more%d", len(t.Cols))
			if !isGoIdent(t.Cols[i].Name) || len(x.Attrs) > 0 {
				break
			}
			t.Cols = append(t.Cols[:i+1:i+1], append([]*Col{x}, t.Cols[i+1:]...)...)
		}
	}
	return g, m
}

func (c *Ctx) goCase(r *rand.Rand, d Dialect, key string) *goCase {
	g, m := goModel(r, d)
	s := newGoSource(g, r)
	src := s.file(m, m.Order)
	if s.odd {
		c.count("skipped_not_writable_in_a_comment", 1)
		return nil
	}
	gc := &goCase{d: d, m: m, s: s, src: src, dir: c.caseDir(key), want: s.want}
	gc.args = append([]string{"--dialect", d.String()}, s.args(r)...)
	mustWrite(filepath.Join(gc.dir, "models.go"), src)
	return gc
}

func (gc *goCase) generate(srcPath, dstPath string) *cliRun {
	return runCLI(&cliRun{Args: append(append([]string{"generate"}, gc.args...), srcPath, dstPath), Dir: gc.dir})
}

func (gc *goCase) drop() { _ = os.RemoveAll(gc.dir) }

func readFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "<" + err.Error() + ">"
	}
	return string(b)
}

var sourceLine = regexp.MustCompile(`(?m)^-- source: (.*):(\d+)$`)

func runG02(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "gen-" + d.String()
		c.parallel(stream, c.n(2500, 60000), func(i int, r *rand.Rand) {
			key := caseKey(stream, i)
			gc := c.goCase(r, d, key)
			if gc == nil {
				return
			}
			defer gc.drop()
			c.faithful(gc, key, i < 2)
		})
	}
}

// faithful judges what was generated from one source.
func (c *Ctx) faithful(gc *goCase, key string, sample bool) {
	out := filepath.Join(gc.dir, "out.sql")
	run := gc.generate("models.go", out)
	detail := func() string {
		return run.String() + "\n--- models.go:\n" + gc.src + "\n--- out.sql:\n" + readFile(out)
	}
	if run.Code != 0 || run.crashed() || run.TimedOut {
		c.violate(key, "generate fails on a valid source", detail())
		return
	}
	got := readFile(out)
	st, err := interpSQL(got, gc.d)
	if err != nil {
		c.violate(key, "what was generated is not the DDL that was asked for: "+err.Error(), detail())
		return
	}
	if df := matchState(st, gc.m); df != "" {
		c.violate(key, "what was generated is not what the source describes: "+df, detail())
		return
	}
	// in the order of the source
	if len(st.Order) != len(gc.want) {
		c.violate(key, fmt.Sprintf("%d statements for %d annotated objects", len(st.Order), len(gc.want)), detail())
		return
	}
	for i, w := range gc.want {
		if st.Order[i] != string(w.Kind)+":"+w.Name {
			c.violate(key, fmt.Sprintf("statement %d is %s, the source has %c:%s there", i+1, st.Order[i], w.Kind, w.Name), detail())
			return
		}
	}
	// each with the place it comes from
	if !strings.Contains(got, "'") {
		ms := sourceLine.FindAllStringSubmatch(got, -1)
		if len(ms) != len(gc.want) {
			c.violate(key, fmt.Sprintf("%d places of origin for %d statements", len(ms), len(gc.want)), detail())
			return
		}
		for i, w := range gc.want {
			if filepath.Base(ms[i][1]) != "models.go" || ms[i][2] != strconv.Itoa(w.Line) {
				c.violate(key, fmt.Sprintf("%c:%s is said to come from %s:%s, it comes from line %d of models.go", w.Kind, w.Name, ms[i][1], ms[i][2], w.Line), detail())
				return
			}
		}
		c.count("origins_compared", int64(len(ms)))
	}
	c.eval(gc.src)
	c.count("fields_declaring_several_columns", int64(gc.s.Shared))
	c.count("statements_compared", int64(len(gc.want)))
	for _, t := range gc.m.Tables {
		c.count("columns_compared", int64(len(t.Cols)))
	}
	if sample {
		c.sample(gc.src, got)
	}
}

// ---- G01: every source ends in a result or an error

func goCorpus() []string {
	var out []string
	root := envOr("VERIF_REPO", "/repo")
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && (strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".source") || strings.HasSuffix(p, ".errsource")) && info.Size() < 60000 {
			if b, err := os.ReadFile(p); err == nil {
				out = append(out, string(b))
			}
		}
		return nil
	})
	return out
}

var oddDecls = []string{
	"// TAG: table: a\ntype X struct{}", "// TAG:\ntype X struct {\n\tY\n}", "// TAG: table: a\ntype X struct {\n\t*Y `TAG:\"INT\"`\n\tpkg.Z `TAG:\"INT\"`\n\tA[int] `TAG:\"INT\"`\n\t*B[int, string] `TAG:\"INT\"`\n}",
	"// TAG: index: a\n// TAG: index: a\n// TAG: index: ab", "/* TAG: index */", "/* TAG: table: */type X struct{ A int `TAG:\"INT\"` }", "/*\n*/\n/* TAG: table */", "type X struct {\n\t// TAG: table: f\n\tA int `TAG:\"INT\"`\n}",
	"func f() {\n\t// TAG: table: f\n\ttype L struct{ A int `TAG:\"INT\"` }\n}", "// TAG: table: f\nfunc f() {\n\ttype L struct{ A int `TAG:\"INT\"` }\n\ttype M = L\n}", "// TAG: table: a\ntype X = struct{ A int `TAG:\"INT\"` }",
	"// TAG: table: a\ntype X[T any] struct{ A T `TAG:\"INT\"` }", "// TAG: table: a\ntype X []struct{ A int `TAG:\"INT\"` }", "// TAG: table: a\ntype X map[string]struct{ A int `TAG:\"INT\"` }", "// TAG: table: a\nvar X struct{ A int `TAG:\"INT\"` }",
	"// TAG: table: a\ntype X interface{ M() }", "// TAG: table: a\nimport \"C\"", "// TAG: table: a\nconst (\n\tA = iota // TAG: index: x ON a (b)\n)", "// TAG: table: a\ntype (\n\tA struct{ X int `TAG:\"INT\"` }\n\tB struct{ Y int `TAG:\"INT\"` }\n)",
	"// TAG: table: a\ntype X struct {\n\tA int `bad tag`\n\tB int `TAG:\"unterminated`\n\tC int \"\"\n\tD int ``\n}", "// TAG: table: a\ntype X struct {\n\t_ int `TAG:\"INT\"`\n\tA, _, B int `TAG:\"INT\"`\n}", "// TAG: constraint: C\n// TAG: option: O",
	"type X struct { // TAG: table: a\n\tA int `TAG:\"INT\"` // TAG: index: i ON a (b)\n} // TAG: table: b", "// TAG: table: a\ntype X struct {\n\tA struct {\n\t\tB struct{ C int `TAG:\"INT\"` } `TAG:\"INT\"`\n\t} `TAG:\"JSON\"`\n}", "//TAG:table:a\n//TAG:table:b\ntype X struct{ A int `TAG:\"INT\" pk:\"true\"` }",
	"// TAG: table: CREATE TABLE\n// TAG: constraint:\n// TAG: index: CREATE INDEX\ntype X struct{ A int `TAG:\"INT\"` }", "//line other.go:1\n// TAG: index: i ON a (b)", "//line :1:1\n// TAG: table: a\ntype X struct{ A int `TAG:\"INT\"` }", "type X struct{ A int `TAG:\"INT\"` } /* TAG: table: a\nTAG: index: i ON a (b) */",
}

func runG01(c *Ctx) {
	corpus := goCorpus()
	judge := func(key, text string, args []string, dir string) {
		src := filepath.Join(dir, "x.go")
		dst := filepath.Join(dir, "x.sql")
		mustWrite(src, text)
		run := runCLI(&cliRun{Args: append(append([]string{"generate"}, args...), src, dst), Dir: dir})
		detail := run.String() + "\n--- x.go:\n" + clip(text, 20000)
		_, err := os.Stat(dst)
		switch {
		case run.TimedOut:
			c.violate(key, "generate does not end", detail)
		case run.crashed():
			c.violate(key, "generate crashes", detail)
		case run.Code == 0 && err != nil:
			c.violate(key, "generate succeeds without a destination file", detail)
		case run.Code != 0 && strings.TrimSpace(run.Stderr) == "":
			c.violate(key, "generate fails without a message", detail)
		default:
			c.eval(text + "\x00" + strings.Join(args, " "))
			if run.Code == 0 {
				c.count("generated", 1)
				if strings.Count(readFile(dst), "\n-- source: ") > 0 {
					c.count("generated_statements_in_it", 1)
				}
			} else {
				c.count("refused", 1)
			}
		}
	}
	tags := []string{"ddlctl", "nolint", "NOTE", "MEMO", "TODO", "spanddl", "myddl", "pgddl", "go", "a.b", "x+", "a(b", "[", "\\", "", "*", "日本語", "%s", "func", " "}
	c.parallel("odd", len(oddDecls)*len(tags), func(i int, r *rand.Rand) {
		key := caseKey("odd", i)
		dir := c.caseDir(key)
		defer os.RemoveAll(dir)
		tag := tags[i%len(tags)]
		judge(key, "package p\n\n"+strings.ReplaceAll(oddDecls[i/len(tags)], "TAG", tag)+"\n", []string{"--dialect", allDialects[i%4].String(), "--go-ddl-tag=" + tag}, dir)
	})
	c.parallel("mutated", c.n(12000, 90000), func(i int, r *rand.Rand) {
		key := caseKey("mutated", i)
		dir := c.caseDir(key)
		defer os.RemoveAll(dir)
		d := allDialects[r.Intn(4)]
		var text string
		args := []string{"--dialect", d.String()}
		switch r.Intn(4) {
		case 0:
			text = corpus[r.Intn(len(corpus))]
			args = append(args, "--go-ddl-tag="+tags[r.Intn(len(tags))], "--go-column-tag="+[]string{"db", "json", "dbtest"}[r.Intn(3)])
		case 1:
			var b strings.Builder
			b.WriteString("package p\n")
			for n := 1 + r.Intn(6); n > 0; n-- {
				b.WriteString(strings.Repeat("\n", 1+r.Intn(2)) + strings.ReplaceAll(oddDecls[r.Intn(len(oddDecls))], "TAG", "ddlctl"))
			}
			text = b.String() + "\n"
		default:
			g, m := goModel(r, d)
			s := newGoSource(g, r)
			text = s.file(m, m.Order)
			args = append(args, s.args(r)...)
			switch r.Intn(3) {
			case 0:
				text = c.decorate(text, s, r, 70)
			case 1: // lines moved about
				lines := strings.Split(text, "\n")
				for n := 1 + r.Intn(4); n > 0; n-- {
					i, j := r.Intn(len(lines)), r.Intn(len(lines))
					switch r.Intn(3) {
					case 0:
						lines[i], lines[j] = lines[j], lines[i]
					case 1:
						lines[i] = lines[j]
					case 2:
						lines[i] = ""
					}
				}
				text = strings.Join(lines, "\n")
			}
		}
		if r.Intn(3) > 0 {
			text = string(mutateBytes(r, []byte(text)))
		}
		judge(key, text, args, dir)
	})
}

// ---- G03: prose and unrelated code do not matter

var hostileProse = append([]string{
	"line separator\u2028DROP TABLE users;", "next line\u0085DROP TABLE users;", "vertical\vtab", "form\ffeed; x", "nul-free", "\ufffd not a character", "*/ closed", "*/", "source: here:1", "-- source: elsewhere.go:7", "*", "TAGnot: table: x", "TAG table: x", "not TAG: table: x", "TAG", "go:generate x", "+build ignore", "nolint:all",
}, prose...)

// decorate puts prose, unrelated fields and unrelated declarations into a plain
// source (one that has no block comments); what it describes stays the same.
func (c *Ctx) decorate(src string, s *goSource, r *rand.Rand, pct int) string {
	hit := func(p int) bool { return r.Intn(100) < pct*p/100 }
	line := func() string {
		p := hostileProse[r.Intn(len(hostileProse))]
		p = strings.ReplaceAll(p, "TAG", s.ddlTag)
		if r.Intn(12) == 0 {
			p = otherTag(s.ddlTag) + ": " + []string{"table", "constraint", "index", "option"}[r.Intn(4)] + ": " + p
		}
		if strings.HasPrefix(strings.TrimSpace(p), s.ddlTag) && strings.Contains(p, ":") && !strings.HasPrefix(p, s.ddlTag+"not") && !strings.HasPrefix(p, s.ddlTag+" table") {
			p = "on " + p
		}
		return p
	}
	in := strings.Split(src, "\n")
	var out []string
	depth := 0 // 0 top level, 1 in a struct, 2 in a group
	group := false
	w := &goSource{g: s.g, r: r, ddlTag: s.ddlTag, colTag: s.colTag, pkTag: s.pkTag, Noise: 50, rd: s.rd, fieldSerial: 5000 + r.Intn(1000), typeSerial: 5000 + r.Intn(1000), line: 1}
	emit := func(f func()) {
		w.b.Reset()
		f()
		out = append(out, strings.Split(strings.TrimSuffix(w.b.String(), "\n"), "\n")...)
	}
	for i := 0; i < len(in); i++ {
		l := in[i]
		trimmed := strings.TrimLeft(l, "\t")
		indent := l[:len(l)-len(trimmed)]
		switch {
		case strings.HasPrefix(trimmed, "//"):
			// the comment group this line starts
			j := i
			for j < len(in) && strings.HasPrefix(strings.TrimLeft(in[j], "\t"), "//") {
				j++
			}
			var body []string
			for _, x := range in[i:j] {
				for hit(30) {
					body = append(body, line())
				}
				body = append(body, strings.TrimPrefix(strings.TrimLeft(x, "\t"), "//"))
			}
			for hit(30) {
				body = append(body, line())
			}
			text := strings.Join(body, "\n")
			switch {
			case depth != 1 && hit(30) && !strings.Contains(text, "*/"):
				out = append(out, indent+"/*")
				for _, b := range body {
					out = append(out, indent+b)
				}
				out = append(out, indent+"*/")
			default:
				for _, b := range body {
					if b != "" && b[0] != ' ' && b[0] != '\t' && b[0] != '/' && !strings.HasPrefix(b, s.ddlTag) {
						b = " " + b
					}
					out = append(out, indent+"//"+b)
				}
			}
			i = j - 1
			continue
		case l == "type (":
			group = true
		case l == ")" && group:
			group = false
		case strings.HasSuffix(l, " struct {") && depth == 0 && (strings.HasPrefix(l, "type ") || group):
			depth = 1
		case depth == 1 && trimmed == "}" && (indent == "" && !group || indent == "\t" && group):
			for hit(15) {
				emit(func() { w.noiseField(indent + "\t") })
			}
			depth = 0
		case depth == 1 && strings.HasPrefix(trimmed, "X int"): // within a nested struct
		case depth == 1 && strings.HasPrefix(trimmed, "} "):
		case depth == 1:
			prev := strings.TrimLeft(in[i-1], "\t")
			if !strings.HasPrefix(prev, "//") {
				for hit(15) {
					emit(func() { w.noiseField(indent) })
				}
				for hit(15) {
					out = append(out, indent+"// "+line())
				}
			}
			if hit(15) && strings.HasSuffix(l, "`") && !strings.HasSuffix(l, "``") {
				l = strings.TrimSuffix(l, "`") + " validate:\"required;-- x\"`"
			}
			if hit(15) && (strings.HasSuffix(l, "`") || strings.HasSuffix(l, "\"")) {
				l += " // " + line()
			}
		case l == "" && depth == 0 && !group && i > 2:
			out = append(out, "")
			for hit(20) {
				emit(func() { w.noiseDecl() })
			}
			continue
		}
		out = append(out, l)
	}
	text := strings.Join(out, "\n")
	if hit(20) {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	return text
}

func runG03(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "prose-" + d.String()
		c.parallel(stream, c.n(1000, 25000), func(i int, r *rand.Rand) {
			key := caseKey(stream, i)
			g, m := goModel(r, d)
			s := newGoSource(g, r)
			s.Noise, s.Block = 0, 0
			src := s.file(m, m.Order)
			if s.odd {
				c.count("skipped_not_writable_in_a_comment", 1)
				return
			}
			gc := &goCase{d: d, m: m, s: s, src: src, dir: c.caseDir(key), want: s.want}
			gc.args = append([]string{"--dialect", d.String()}, s.args(r)...)
			defer gc.drop()
			mustWrite(filepath.Join(gc.dir, "plain.go"), src)
			plain := gc.generate("plain.go", "plain.sql")
			a := readFile(filepath.Join(gc.dir, "plain.sql"))
			if plain.Code != 0 {
				c.violate(key, "generate fails on a valid source", plain.String()+"\n"+src)
				return
			}
			ta, err := lexSQL(a, d)
			if err != nil {
				c.violate(key, "what was generated is not readable: "+err.Error(), plain.String()+"\n"+src+"\n--- out:\n"+a)
				return
			}
			for k := 0; k < 3; k++ {
				v := c.decorate(src, s, r, []int{30, 60, 100}[k])
				mustWrite(filepath.Join(gc.dir, "v.go"), v)
				run := gc.generate("v.go", "v.sql")
				b := readFile(filepath.Join(gc.dir, "v.sql"))
				detail := run.String() + "\n--- plain source:\n" + src + "\n--- with prose:\n" + v + "\n--- generated from the plain source:\n" + a + "\n--- generated with prose:\n" + b
				if run.Code != 0 || run.crashed() {
					c.violate(key, "generate fails because of prose or unrelated code", detail)
					return
				}
				tb, err := lexSQL(b, d)
				if err != nil {
					c.violate(key, "prose leaks into what is generated: "+err.Error(), detail)
					return
				}
				if x, y := canonToks(ta), canonToks(tb); x != y {
					c.violate(key, "prose or unrelated code changes what is generated: "+firstDiff(x, y), detail)
					return
				}
				c.eval(v)
				c.count("tokens_compared", int64(len(tb)))
				if i < 1 && k == 0 {
					c.sample(v, b)
				}
			}
		})
	}
}

// ---- G04: the same source gives the same text

func runG04(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "repeat-" + d.String()
		c.parallel(stream, c.n(350, 9000), func(i int, r *rand.Rand) {
			key := caseKey(stream, i)
			g := newGen(r, d)
			if r.Intn(3) == 0 {
				g.MaxTables, g.MaxIdx = 16, 24
			}
			m := g.schema()
			s := newGoSource(g, r)
			dir := c.caseDir(key)
			defer os.RemoveAll(dir)
			var sources strings.Builder
			var order []string
			for f, rest := 0, m.Order; len(rest) > 0; f++ {
				n := len(rest)
				if r.Intn(2) == 0 {
					n = 1 + r.Intn(len(rest))
				}
				src := s.file(m, rest[:n])
				if s.odd {
					return
				}
				if r.Intn(3) == 0 { // annotations that share a line
					src += "\n/* " + s.ddlTag + ": index: same_a ON a (a) */ /* " + s.ddlTag + ": index: same_b ON a (a) */\n\n/* " + s.ddlTag + ": index: same_c ON a (a) */ var _ = 1 /* " + s.ddlTag + ": index: same_d ON a (a) */\n"
				}
				mustWrite(filepath.Join(dir, "pkg", "models", fmt.Sprintf("m%02d.go", f)), src)
				sources.WriteString(src)
				rest = rest[n:]
			}
			_ = order
			args := append([]string{"generate", "--dialect", d.String()}, s.args(r)...)
			src := filepath.Join("pkg", "models")
			if r.Intn(2) == 0 {
				src = filepath.Join(src, "m00.go")
			}
			abs := filepath.Join(dir, src)
			type place struct{ dir, src string }
			rel, _ := filepath.Rel(filepath.Join(dir, "pkg"), abs)
			places := []place{{dir, src}, {dir, src}, {dir, abs}, {filepath.Join(dir, "pkg"), rel}, {workDir, abs}, {dir, "./" + src}, {dir, "pkg/../" + src}, {filepath.Join(dir, "pkg", "models"), "../../" + src}}
			if strings.HasSuffix(src, ".go") {
				places = append(places, place{filepath.Join(dir, "pkg", "models"), "m00.go"})
			} else {
				places = append(places, place{filepath.Join(dir, "pkg", "models"), "."}, place{dir, src + "/"})
			}
			first := ""
			for k, p := range places {
				out := filepath.Join(dir, fmt.Sprintf("o%d.sql", k))
				run := runCLI(&cliRun{Args: append(append([]string{}, args...), p.src, out), Dir: p.dir, Env: []string{"PWD=" + p.dir, fmt.Sprintf("GOMAXPROCS=%d", 1+k)}})
				got := readFile(out)
				detail := fmt.Sprintf("run %d in %s\n%s\n--- source:\n%s\n--- first:\n%s\n--- now:\n%s", k, p.dir, run.String(), sources.String(), first, got)
				if run.Code != 0 || run.crashed() {
					c.violate(key, "generate fails", detail)
					return
				}
				if k == 0 {
					first = got
					continue
				}
				if got != first {
					c.violate(key, "the same source does not generate the same text: "+firstDiff(first, got), detail)
					return
				}
				c.eval(fmt.Sprintf("%d %s %s", k, sources.String(), strings.Join(args, " ")))
			}
			c.count("bytes_compared", int64(len(first)*(len(places)-1)))
			if i < 1 {
				c.sample(sources.String(), first)
			}
		})
	}
}

// ---- G05: the destination

// tree is the content of every file below a directory.
func tree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
			out[rel] = "<" + err.Error() + ">"
		case info.IsDir():
			out[rel] = "<dir>"
		default:
			out[rel] = readFile(p)
		}
		return nil
	})
	return out
}

func treeDiff(a, b map[string]string, except string) string {
	for k, v := range a {
		w, ok := b[k]
		if k == except {
			continue
		}
		if !ok {
			return k + " is gone"
		}
		if v != w {
			return k + " was changed: " + firstDiff(v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && k != except {
			return k + " has appeared"
		}
	}
	return ""
}

func runG05(c *Ctx) {
	faults := []string{"none", "none-dir", "none-symlink", "none-stale", "no-source", "broken-source", "no-annotation", "broken-file-in-dir", "dialect", "no-dialect", "lang", "no-dst-dir", "dst-is-dir-entry", "full", "size-limit", "empty-source", "source-is-binary", "one-argument"}
	c.parallel("dst", c.n(300, 4000)*len(faults), func(i int, r *rand.Rand) {
		key := caseKey("dst", i)
		fault := faults[i%len(faults)]
		d := allDialects[r.Intn(4)]
		g, m := goModel(r, d)
		s := newGoSource(g, r)
		src := s.file(m, m.Order)
		if s.odd {
			return
		}
		dir := c.caseDir(key)
		defer os.RemoveAll(dir)
		mustWrite(filepath.Join(dir, "src", "models.go"), src)
		mustWrite(filepath.Join(dir, "src", "keep.txt"), "keep")
		mustWrite(filepath.Join(dir, "out", "keep.sql"), "-- keep")
		mustWrite(filepath.Join(dir, "keep.go"), "package keep")
		srcArg := []string{"src/models.go", "src", filepath.Join(dir, "src/models.go"), "./src/"}[r.Intn(4)]
		dst := []string{"out/schema.sql", "schema.sql", filepath.Join(dir, "out/schema.sql"), "src/schema.sql"}[r.Intn(4)]
		args := append([]string{"generate", "--dialect", d.String()}, s.args(r)...)
		ref := runCLI(&cliRun{Args: append(append([]string{}, args...), srcArg, filepath.Join(workDir, filepath.Base(dir)+".ref")), Dir: dir})
		want := readFile(filepath.Join(workDir, filepath.Base(dir)+".ref"))
		_ = os.Remove(filepath.Join(workDir, filepath.Base(dir)+".ref"))
		if ref.Code != 0 {
			c.violate(key, "generate fails on a valid source", ref.String()+"\n"+src)
			return
		}
		rel := func(p string) string {
			if filepath.IsAbs(p) {
				x, _ := filepath.Rel(dir, p)
				return x
			}
			return filepath.Clean(p)
		}
		old := ""
		if r.Intn(3) > 0 || fault == "none-stale" {
			old = []string{"-- hand written\nCREATE TABLE precious (id INT);\n", want + "\n-- more\n" + strings.Repeat("-- longer than what comes\n", 400), "x", want}[r.Intn(4)]
			mustWrite(filepath.Join(dir, rel(dst)), old)
		}
		ok := true
		wrap := "" // shell text before the tool
		switch fault {
		case "none-dir":
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			dst = []string{"out", "out/", filepath.Join(dir, "out")}[r.Intn(3)]
			if r.Intn(2) == 0 {
				mustWrite(filepath.Join(dir, "out", "ddlctl.gen.sql"), strings.Repeat("old\n", 4000))
			}
		case "none-symlink":
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			mustWrite(filepath.Join(dir, "real", "target.sql"), "old")
			_ = os.Symlink(filepath.Join(dir, "real", "target.sql"), filepath.Join(dir, "out", "link.sql"))
			dst = "out/link.sql"
		case "no-source":
			srcArg, ok = []string{"src/none.go", "none", "src/models.go/x"}[r.Intn(3)], false
		case "broken-source":
			at := r.Intn(len(src))
			mustWrite(filepath.Join(dir, "src", "models.go"), src[:at]+"\n}}}\"`"+src[at:])
			ok = false
			if r.Intn(2) == 0 {
				mustWrite(filepath.Join(dir, "src", "models.go"), "pack age x")
			} else if probe := runCLI(&cliRun{Args: append(append([]string{}, args...), srcArg, filepath.Join(dir, "probe")), Dir: dir}); probe.Code == 0 {
				return // still valid Go
			}
		case "no-annotation":
			mustWrite(filepath.Join(dir, "src", "models.go"), "package models\n")
			srcArg, ok = "src/models.go", false
		case "broken-file-in-dir":
			mustWrite(filepath.Join(dir, "src", "z", "broken.go"), "package")
			srcArg, ok = "src", false
		case "dialect":
			args[2], ok = []string{"oracle", "sqlite3", "MySQL", "postgresql"}[r.Intn(4)], false
		case "no-dialect":
			args, ok = append([]string{"generate"}, args[3:]...), false
		case "lang":
			args, ok = append(args, "--lang="+[]string{"rust", "", "Go"}[r.Intn(3)]), false
		case "no-dst-dir":
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			dst, ok = "nowhere/x/schema.sql", false
		case "dst-is-dir-entry":
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			_ = os.Remove(filepath.Join(dir, "out", "ddlctl.gen.sql"))
			_ = os.MkdirAll(filepath.Join(dir, "out", "ddlctl.gen.sql"), 0o755)
			dst, ok = "out", false
		case "full":
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			dst, ok = "/dev/full", false
		case "size-limit":
			if len(want) <= 1024 {
				c.count("too_small_for_the_size_limit", 1)
				return
			}
			_ = os.Remove(filepath.Join(dir, rel(dst)))
			wrap, ok = "trap '' XFSZ; ulimit -f 1; ", false
		case "empty-source":
			mustWrite(filepath.Join(dir, "src", "models.go"), "")
			ok = false
		case "source-is-binary":
			b := make([]byte, 500)
			r.Read(b)
			mustWrite(filepath.Join(dir, "src", "models.go"), string(b))
			ok = false
		case "one-argument":
			ok = false
		}
		_ = os.Remove(filepath.Join(dir, "probe"))
		before := tree(dir)
		full := append(append([]string{}, args...), srcArg, dst)
		if fault == "one-argument" {
			full = full[:len(full)-1]
			if r.Intn(2) == 0 {
				full = full[:len(full)-1]
			}
		}
		run := runCLI(&cliRun{Args: full, Dir: dir, Shell: wrap})
		after := tree(dir)
		target := rel(dst)
		switch fault {
		case "none-dir":
			target = filepath.Join(rel(dst), "ddlctl.gen.sql")
		case "none-symlink":
			target = "real/target.sql"
			delete(before, "out/link.sql")
			delete(after, "out/link.sql")
		}
		detail := "fault: " + fault + "\n" + run.String() + "\n--- source:\n" + src + "\n--- destination before:\n" + clip(before[target], 3000) + "\n--- destination after:\n" + clip(after[target], 3000)
		if run.crashed() || run.TimedOut {
			c.violate(key, "generate crashes: "+fault, detail)
			return
		}
		if ok {
			if run.Code != 0 {
				c.violate(key, "generate fails although nothing is wrong: "+fault, detail)
				return
			}
			if after[target] != want {
				c.violate(key, "the destination is not exactly what was generated: "+firstDiff(want, after[target]), detail)
				return
			}
			if df := treeDiff(before, after, target); df != "" {
				c.violate(key, "generate touches another file: "+df, detail)
				return
			}
		} else {
			if run.Code == 0 {
				c.violate(key, "generate reports success although it failed: "+fault, detail)
				return
			}
			except := ""
			if fault == "size-limit" {
				except = target // partly written, and said so
			}
			if df := treeDiff(before, after, except); df != "" {
				c.violate(key, "a failed generate leaves its mark ("+fault+"): "+df, detail)
				return
			}
		}
		c.eval(fault + "\x00" + src + "\x00" + old + "\x00" + srcArg + "\x00" + dst)
		c.count("fault_"+fault, 1)
		if i < len(faults)*1 && (fault == "broken-source" || fault == "full") {
			c.sample(strings.Join(full, " ")+"  # "+fault, run.String())
		}
	})
}

// ---- G06: directories

func runG06(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "dir-" + d.String()
			c.parallel(stream, c.n(300, 8000), func(i int, r *rand.Rand) { c.directory(srv, d, caseKey(stream, i), r, i < 1) })
		}
	})
}

// what a directory of Go files holds besides annotated structs: none of it is a reason to leave a file out
var goSourcesWithoutAnnotations = []string{
	"package models\n\n// nothing in here\ntype Nothing struct {\n\tA int `db:\"a\"`\n}\n",
	"// Package models is documented here.\npackage models\n",
	"package models\n",
	"package main\n\nfunc main() {}\n",
	"// Code generated by a tool. DO NOT EDIT.\n\npackage models\n\nconst Version = \"1\"\n",
	"//go:build ignore\n\npackage other\n\nimport \"fmt\"\n\nfunc F() { fmt.Println() }\n",
	"package models\n\nimport _ \"embed\"\n\n//go:generate ddlctl generate --dialect postgres . ../schema.sql\n\nvar X = `a`\n",
}

var goHeaders = []string{
	"// Code generated by a tool. DO NOT EDIT.\n\n",
	"//go:build ignore\n\n",
	"//go:build linux && !windows\n// +build linux,!windows\n\n",
	"/*\nCopyright: somebody\n*/\n\n",
	"// Copyright: somebody. All rights reserved.\n\n",
	"\n\n\n",
	"\ufeff",
}

func (c *Ctx) directory(srv *simServer, d Dialect, key string, r *rand.Rand, sample bool) {
	g := newGen(r, d)
	if r.Intn(2) == 0 {
		g.MaxTables, g.MaxIdx = 8, 8
	}
	m := g.schema()
	s := newGoSource(g, r)
	dir := c.caseDir(key)
	defer os.RemoveAll(dir)
	// files in the order a walk meets them
	names := []string{"a.go", "a/a.go", "a/b/c.go", "a/b.go", "b_test/x.go", "b.go", "c/test.go", "c/zz/y.go", "d.x.go", ".hidden/h.go", "_u/u.go", "testdata/t.go", "vendor/v/v.go", "z.go", "Z/z.go", "10.go", "9.go", "internal/models/user.go", "日本語/m.go", "sp ace/m.go", "e_tests.go", "x_test.go.go",
		"doc.go", "a/doc.go", "main.go", "models.go", "user_gen.go", "zz_generated.go", "user.pb.go", "os_windows.go", "os_linux_arm64.go", "mock/mock_user.go", "third_party/t.go", "node_modules/n.go", "gen.go/gen.go", ".dot.go", "_under.go", "init.go", "test/t.go", "tests/t.go", "internal/doc.go", "cmd/main.go", "schema.go"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	nFiles := 1 + r.Intn(6)
	if r.Intn(4) == 0 {
		nFiles = 1 + r.Intn(20)
	}
	names = names[:nFiles]
	walkSort(names)
	root := filepath.Join(dir, "models")
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}
	rest := m.Order
	var sources strings.Builder
	contents := map[string]string{}
	var annotated []string
	for i, n := range names {
		k := len(rest)
		if i < len(names)-1 {
			k = r.Intn(len(rest) + 1)
		}
		if k == 0 {
			contents[n] = goSourcesWithoutAnnotations[r.Intn(len(goSourcesWithoutAnnotations))]
		} else {
			contents[n] = s.file(m, rest[:k])
			annotated = append(annotated, n)
			if s.odd {
				return
			}
			if r.Intn(4) == 0 {
				contents[n] = goHeaders[r.Intn(len(goHeaders))] + contents[n]
			}
		}
		rest = rest[k:]
	}
	// decoys
	decoy := "package models\n\n// " + s.ddlTag + ": table: decoy\ntype Decoy struct {\n\tA int `" + s.ddlTag + ":\"INT\"`\n}\n"
	for _, n := range []string{"decoy_test.go", "a/decoy_test.go", "decoy.txt", "decoy.go.bak", "decoygo", "a/decoy.Go", "schema.sql", "decoy.go~", "_test.go"} {
		if r.Intn(3) == 0 {
			contents[n] = decoy
		}
	}
	created := make([]string, 0, len(contents))
	for n := range contents {
		created = append(created, n)
	}
	walkSort(created)
	r.Shuffle(len(created), func(i, j int) { created[i], created[j] = created[j], created[i] })
	for _, n := range created {
		mustWrite(filepath.Join(root, n), contents[n])
		sources.WriteString("=== " + n + "\n" + contents[n])
	}
	if r.Intn(3) == 0 {
		_ = os.MkdirAll(filepath.Join(root, "empty.go"), 0o755)
	}
	args := append([]string{"--dialect", d.String()}, s.args(r)...)
	gen := func(src, dst string) *cliRun {
		return runCLI(&cliRun{Args: append(append([]string{"generate"}, args...), src, dst), Dir: dir})
	}
	// the same directory by another name
	if err := os.Symlink("models", filepath.Join(dir, "linked")); err != nil {
		panic(err)
	}
	again := []string{"linked", "./linked", "linked/", "linked/../models", filepath.Join(dir, "linked")}[r.Intn(5)]
	run := gen("models", "all.sql")
	got := readFile(filepath.Join(dir, "all.sql"))
	detail := func() string { return run.String() + "\n" + sources.String() + "\n--- generated:\n" + got }
	if run.Code != 0 || run.crashed() {
		c.violate(key, "generate fails on a directory", detail())
		return
	}
	st, err := interpSQL(got, d)
	if err != nil {
		c.violate(key, "what was generated from a directory is not the DDL that was asked for: "+err.Error(), detail())
		return
	}
	if df := matchState(st, m); df != "" {
		c.violate(key, "what was generated from a directory is not what its files describe: "+df, detail())
		return
	}
	c.count("files_read", int64(len(annotated)))
	// as its files one by one
	var parts []string
	for i, n := range annotated {
		f := gen(filepath.Join("models", n), fmt.Sprintf("one%d.sql", i))
		one := readFile(filepath.Join(dir, fmt.Sprintf("one%d.sql", i)))
		toks, err := lexSQL(one, d)
		if f.Code != 0 || err != nil {
			c.violate(key, "generate fails on a file of the directory", f.String()+detail())
			return
		}
		parts = append(parts, canonToks(toks))
	}
	all, err := lexSQL(got, d)
	if err != nil {
		c.violate(key, "unreadable: "+err.Error(), detail())
		return
	}
	if x, y := strings.Join(parts, " "), canonToks(all); x != y {
		c.violate(key, "a directory does not generate what its files generate, in the order of their names: "+firstDiff(x, y), detail())
		return
	}
	// diff and apply take the directory for what it generates
	mustWrite(filepath.Join(dir, "empty.sql"), "")
	diff := func(a, b string) *cliRun {
		return runCLI(&cliRun{Args: append(append([]string{"diff"}, args...), a, b), Dir: dir})
	}
	a, b := diff("empty.sql", "models"), diff("empty.sql", "all.sql")
	if a.Code != b.Code || a.Stdout != b.Stdout {
		c.violate(key, "diff sees another schema in the source than in what is generated from it: "+firstDiff(b.Stdout, a.Stdout), a.String()+"\n"+b.String()+"\n"+detail())
		return
	}
	if a.Code != 0 {
		c.violate(key, "diff does not read what was generated", a.String()+"\n"+detail())
		return
	}
	for _, p := range [][2]string{{"models", "all.sql"}, {"all.sql", "models"}, {"all.sql", again}} {
		if x := diff(p[0], p[1]); x.Code != 0 || x.Stdout != "" {
			c.violate(key, "diff reports a difference between the source and what is generated from it", x.String()+"\n"+detail())
			return
		}
	}
	c.count("diffs_compared", 5)
	if r.Intn(3) == 0 {
		if msg := c.applySource(srv, d, args, dir); msg != "" {
			c.violate(key, msg, detail())
			return
		}
	}
	// with one of its files broken, the directory cannot be generated from
	for k := 0; k < 2 && len(annotated) > 0; k++ {
		n := annotated[r.Intn(len(annotated))]
		mustWrite(filepath.Join(root, n), contents[n]+"\n}}}\n")
		x := gen("models", "broken.sql")
		mustWrite(filepath.Join(root, n), contents[n])
		c.count("broken_files", 1)
		if x.Code == 0 || x.crashed() {
			c.violate(key, "a directory with a broken file, "+n+", is generated from without it", x.String()+"\n"+detail())
			return
		}
	}
	c.eval(sources.String() + strings.Join(args, " "))
	if sample {
		c.sample(sources.String(), got)
	}
}

// applySource applies a directory and what was generated from it to two
// databases and compares what was executed.
func (c *Ctx) applySource(srv *simServer, d Dialect, args []string, dir string) string {
	x, y := srv.db(d), srv.db(d)
	x.semantics, y.semantics, x.raw, y.raw = true, true, true, true
	defer srv.drop(x)
	defer srv.drop(y)
	ap := func(db *simDB, src string) (*cliRun, string) {
		run := runCLI(&cliRun{Args: append(append([]string{"apply", "--auto-approve"}, args...), db.dsn(), src), Dir: dir})
		return run, db.eng.S.dump()
	}
	rx, sx := ap(x, "models")
	ry, sy := ap(y, "all.sql")
	c.count("applies_compared", 1)
	if rx.Code != ry.Code {
		return fmt.Sprintf("apply of the source exits with %d, of what is generated from it with %d\n%s\n%s", rx.Code, ry.Code, rx.String(), ry.String())
	}
	if sx != sy {
		return "apply of the source and of what is generated from it leave different databases: " + firstDiff(sy, sx) + "\n" + rx.String() + "\n" + ry.String()
	}
	if rx.Code == 0 && len(x.eng.S.Tables) == 0 {
		return "apply of the source created nothing\n" + rx.String()
	}
	return ""
}

// walkSort orders relative paths as a walk of the tree meets them.
func walkSort(names []string) {
	sort.Slice(names, func(i, j int) bool {
		a, b := strings.Split(names[i], "/"), strings.Split(names[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
}
