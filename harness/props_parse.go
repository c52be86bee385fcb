package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	props["P01"] = prop{"exploration", "distinct input texts fed to parser, renderer and differ", runP01}
	props["P02"] = prop{"exploration", "distinct generated schema texts whose parse was compared with the model by the independent interpreter", runP02}
	props["P03"] = prop{"exploration", "distinct schema texts whose rendering was parsed and rendered again", runP03}
	props["P04"] = prop{"exploration", "distinct pairs of differently formatted texts of one schema that were compared", runP04}
	props["P05"] = prop{"exploration", "distinct damaged schema texts whose acceptance was judged", runP05}
}

func caseKey(stream string, i int) string { return fmt.Sprintf("%s/%d", stream, i) }

// genText makes a schema and its text and checks the harness itself on it.
func (c *Ctx) genText(g *Gen, m *State, st *Style) (string, *State, bool) {
	txt := g.render(m, st)
	s0, err := interpSQL(txt, g.d)
	if err != nil {
		c.harnessBug("interp: "+err.Error(), txt)
		return "", nil, false
	}
	if df := matchState(s0, m); df != "" {
		c.harnessBug("interp mismatch: "+df, txt)
		return "", nil, false
	}
	return txt, s0, true
}

// harnessBug reports a disagreement inside the harness; it is never a violation.
func (c *Ctx) harnessBug(msg, detail string) {
	c.count("harness_selfcheck_failed", 1)
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.assume) < 5 {
		c.assume = append(c.assume, "harness self check failed on one case (skipped): "+clip(msg, 300))
		fmt.Printf("harness self check: %s\n%s\n", msg, clip(detail, 1500))
	}
}

func runP02(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "gen-" + d.String()
		c.parallel(stream, c.n(5000, 120000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			if i%10 == 0 {
				g.MaxTables, g.MaxCols, g.MaxCons = 6, 14, 9
			}
			m := g.schema()
			txt, _, ok := c.genText(g, m, randStyle(r))
			if !ok {
				return
			}
			key := caseKey(stream, i)
			x, err := repoParse(d, txt)
			if err != nil {
				c.violate(key, "valid DDL rejected: "+clip(err.Error(), 300), txt)
				return
			}
			out, err := repoString(x)
			if err != nil {
				c.violate(key, "String: "+err.Error(), txt)
				return
			}
			s1, err := interpSQL(out, d)
			if err != nil {
				c.violate(key, "the rendering is not valid DDL: "+err.Error(), txt+"\n--- rendered:\n"+out)
				return
			}
			if df := matchState(s1, m); df != "" {
				c.violate(key, "parsed schema differs: (first=parsed, second=source) "+df, txt+"\n--- rendered:\n"+out)
				return
			}
			if a, b := createClauses(txt, d), createClauses(out, d); a != b {
				c.violate(key, "the statements are not created under the same conditions: "+firstDiff(a, b), txt+"\n--- rendered:\n"+out)
				return
			}
			c.eval(d.String() + txt)
			c.count("tables_compared", int64(len(m.Tables)))
			for _, t := range m.Tables {
				c.count("columns_compared", int64(len(t.Cols)))
				c.count("constraints_compared", int64(len(t.Cons)))
			}
			c.count("indexes_compared", int64(len(m.Indexes)))
			if i == 1 {
				c.sample(txt, s1.dump())
			}
		})
	}
	c.runCorpusFaithful()
}

func runP03(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "gen-" + d.String()
		c.parallel(stream, c.n(5000, 120000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			if i%10 == 0 {
				g.MaxTables, g.MaxCols, g.MaxCons = 6, 14, 9
			}
			m := g.schema()
			txt, _, ok := c.genText(g, m, randStyle(r))
			if !ok {
				return
			}
			c.fixpoint(d, caseKey(stream, i), txt, m, i == 1)
		})
	}
	for i, e := range corpus {
		c.fixpoint(e.d, fmt.Sprintf("corpus/%d", i), e.sql, nil, false)
	}
}

// createClauses lists the CREATE statements of a text: what they create, and whether only if it does not exist.
func createClauses(txt string, d Dialect) string {
	toks, err := lexSQL(txt, d)
	if err != nil {
		return "error: " + err.Error()
	}
	var out []string
	depth := 0
	word := func(i int, w string) bool {
		return i < len(toks) && toks[i].K != 'q' && toks[i].K != 's' && strings.EqualFold(toks[i].Raw, w)
	}
	for i := range toks {
		switch {
		case word(i, "("):
			depth++
		case word(i, ")"):
			depth--
		case depth == 0 && word(i, "CREATE"):
			j, s := i+1, ""
			for ; j < len(toks) && (word(j, "TABLE") || word(j, "UNIQUE") || word(j, "INDEX")); j++ {
				s += " " + strings.ToUpper(toks[j].Raw)
			}
			if word(j, "IF") && word(j+1, "NOT") && word(j+2, "EXISTS") {
				s += " IF NOT EXISTS"
			}
			out = append(out, s)
		}
	}
	return strings.Join(out, "\n")
}

// fixpoint: parse, render, parse, render; the two renderings are equal and the
// two parses are the same schema, which is the model when there is one.
func (c *Ctx) fixpoint(d Dialect, key, txt string, m *State, sample bool) {
	x, err := repoParse(d, txt)
	if err != nil {
		return // judged by the faithful-parse property
	}
	s1, err := repoString(x)
	if err != nil {
		c.violate(key, "String: "+err.Error(), txt)
		return
	}
	if a, b := createClauses(txt, d), createClauses(s1, d); a != b {
		c.violate(key, "the rendering creates under other conditions: "+firstDiff(a, b), txt+"\n--- rendered:\n"+s1)
		return
	}
	if m != nil {
		st, err := interpSQL(s1, d)
		if err != nil {
			c.violate(key, "the rendering is not valid DDL: "+err.Error(), txt+"\n--- rendered:\n"+s1)
			return
		}
		if df := matchState(st, m); df != "" {
			c.violate(key, "the rendering describes another schema: (first=rendered, second=source) "+df, txt+"\n--- rendered:\n"+s1)
			return
		}
	}
	y, err := repoParse(d, s1)
	if err != nil {
		c.violate(key, "the rendering cannot be parsed: "+clip(err.Error(), 300), txt+"\n--- rendered:\n"+s1)
		return
	}
	s2, err := repoString(y)
	if err != nil {
		c.violate(key, "String: "+err.Error(), s1)
		return
	}
	if s1 != s2 {
		c.violate(key, "rendering is not a fixpoint: "+firstDiff(s1, s2), txt+"\n--- first:\n"+s1+"\n--- second:\n"+s2)
		return
	}
	for _, p := range [][2]*DDL{{x, y}, {y, x}, {x, x}} {
		df, no, err := repoDiff(d, p[0], p[1])
		if err != nil {
			c.violate(key, "Diff between a schema and its rendering: "+clip(err.Error(), 300), txt)
			return
		}
		if !no {
			o, _ := repoString(df)
			c.violate(key, "a schema differs from its own rendering: "+clip(o, 300), txt+"\n--- rendered:\n"+s1+"\n--- diff:\n"+o)
			return
		}
	}
	c.eval(d.String() + txt)
	c.count("renderings_reparsed", 1)
	if sample {
		c.sample(txt, s1)
	}
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := ""
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("line %d: %q vs %q", i+1, clip(la[i], 200), clip(x, 200))
		}
	}
	return "second is longer"
}

func runP04(c *Ctx) {
	for _, d := range allDialects {
		d := d
		stream := "pair-" + d.String()
		c.parallel(stream, c.n(4000, 100000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			m := g.schema()
			st1, st2 := randStyle(r), randStyle(r)
			// an unnamed CHECK gets a name that depends on where it is written
			ic := []int{0, 100}[r.Intn(2)]
			st1.InlineCheck, st2.InlineCheck = &ic, &ic
			st1.INE, st2.INE = 0, 0
			if i%4 == 0 {
				st2.INE = 50
			}
			if sharedDerivedNames(m) {
				st1.Inline = []int{0, 100}[r.Intn(2)]
				st2.Inline = st1.Inline
			}
			a, sa, ok := c.genText(g, m, st1)
			if !ok {
				return
			}
			b, sb, ok := c.genText(g, m, st2)
			if !ok {
				return
			}
			_, _ = sa, sb
			key := caseKey(stream, i)
			x, err := repoParse(d, a)
			if err != nil {
				return
			}
			y, err := repoParse(d, b)
			if err != nil {
				c.violate(key, "one formatting of the schema is accepted, another rejected: "+clip(err.Error(), 300), a+"\n--- rejected:\n"+b)
				return
			}
			for k, p := range [][2]*DDL{{x, y}, {y, x}} {
				df, no, err := repoDiff(d, p[0], p[1])
				if err != nil {
					c.violate(key, "Diff: "+clip(err.Error(), 300), a+"\n--- other:\n"+b)
					return
				}
				if !no {
					o, _ := repoString(df)
					c.violate(key, fmt.Sprintf("two formattings of one schema differ (direction %d): %s", k, clip(o, 400)), a+"\n--- other:\n"+b+"\n--- diff:\n"+o)
					return
				}
			}
			c.eval(d.String() + a + "\x00" + b)
			c.count("pairs_compared", 1)
			if i == 1 {
				c.sample(a+"\n--- other:\n"+b, "no difference")
			}
		})
	}
}

// sharedDerivedNames: two unnamed constraints would derive one name.
func sharedDerivedNames(s *State) bool {
	for _, t := range s.Tables {
		seen := map[string]bool{}
		for _, k := range t.Cons {
			if k.Name != "" {
				continue
			}
			b := k.Kind
			for _, c := range k.Cols {
				b += "_" + c.Name
			}
			if seen[b] {
				return true
			}
			seen[b] = true
		}
	}
	return false
}

// ---- P01 ----

// deepTexts gives the command texts of many megabytes in which one thing is
// repeated: whatever is nested or recursive in the reader goes to its depth.
// An overflow of the stack ends the process, so each text has its own. The
// texts end unfinished, so that they are refused.
func (c *Ctx) deepTexts() {
	heads := []string{"", "CREATE TABLE t (id INTEGER DEFAULT ", "CREATE TABLE t (id INTEGER CHECK ", "CREATE TABLE t (id ", "CREATE TABLE t (id VARCHAR(", "CREATE TABLE t (", "CREATE TABLE t (id INTEGER, PRIMARY KEY (", "CREATE TABLE t (id INTEGER, CONSTRAINT c CHECK ", "CREATE INDEX i ON t (", "CREATE TABLE t (id INTEGER) ", "CREATE TABLE t (id INT64 NOT NULL OPTIONS (", "CREATE TABLE t (id INT64 NOT NULL) PRIMARY KEY (id), ", "CREATE TABLE "}
	units := []string{"(", "--\n", "-- a\n\n", "(a, (", "ARRAY<", "STRUCT<a ", "[", "<", "((1) + ", "-", "- ", "NOT ", "a.", "(a ", "::", "'a' ", "/* */ ", ";", ", ", "\n", "a = (", "NULL ", "\"a\".", "`a`.", "(-(", "#\n", "||"}
	type one struct {
		d          Dialect
		head, unit string
	}
	var all []one
	for _, d := range allDialects {
		for _, h := range heads {
			for _, u := range units {
				all = append(all, one{d, h, u})
			}
		}
	}
	pick := all
	if c.Tier == "quick" { // what is known to nest, and some of the rest
		pick = nil
		r := c.rng("deep-choice", 0)
		for _, o := range all {
			nests := o.unit == "(" && (strings.HasSuffix(o.head, "DEFAULT ") || strings.HasSuffix(o.head, "CHECK ")) || o.unit == "--\n" && o.head == ""
			if nests || r.Intn(80) == 0 {
				pick = append(pick, o)
			}
		}
	}
	const size, most = 24 << 20, 3 << 20
	sem := make(chan bool, 6) // each may take a gigabyte or two
	c.parallel("deep", len(pick), func(i int, r *rand.Rand) {
		o := pick[i]
		key := caseKey("deep", i)
		sem <- true
		defer func() { <-sem }()
		dir := c.caseDir(key)
		defer os.RemoveAll(dir)
		n := size / len(o.unit)
		if n > most && o.unit != "--\n" {
			n = most
		}
		mustWrite(filepath.Join(dir, "empty.sql"), "")
		mustWrite(filepath.Join(dir, "deep.sql"), o.head+strings.Repeat(o.unit, n)+" CREATE TABLE (")
		run := runCLI(&cliRun{Args: []string{"diff", "--dialect", o.d.String(), "empty.sql", "deep.sql"}, Dir: dir})
		cut := func(s string) string {
			if len(s) > 2000 {
				return s[:2000] + "…"
			}
			return s
		}
		detail := fmt.Sprintf("%s: %q, then %q %d times, then \" CREATE TABLE (\"\nexit %d after %s\n%s", o.d, o.head, o.unit, n, run.Code, run.Took, cut(run.Stderr))
		switch {
		case run.TimedOut:
			c.count("long_texts_given_up", 1) // slow is not endless; the short texts find what does not end
		case run.crashed() || run.Code < 0:
			c.violate(key, "the reader crashes on a long text", detail)
		case run.Code == 0:
			c.count("long_texts_accepted", 1)
		default:
			c.count("long_texts_rejected", 1)
		}
		c.slow("deep", i, run.Took)
		c.eval(o.d.String() + o.head + "*" + o.unit)
	})
}

var soupWords = strings.Fields(`CREATE TABLE INDEX UNIQUE IF NOT EXISTS ( ) ( ) , , ; id name users INTEGER TEXT VARCHAR BOOLEAN TIMESTAMP WITH TIME ZONE DEFAULT NULL PRIMARY KEY FOREIGN REFERENCES CHECK CONSTRAINT ON DELETE UPDATE CASCADE NO ACTION USING HASH ASC DESC 1 42 -1 'x' "q" ` + "`b`" + ` = > < <> :: ::: || + - * / . ENGINE CHARSET COLLATE COMMENT AUTO_INCREMENT ENUM DECIMAL NUMERIC INT64 STRING MAX OPTIONS INTERLEAVE IN PARENT ROW DELETION POLICY OLDER_THAN INTERVAL DAY AS STORED VIRTUAL VISIBLE DOUBLE PRECISION CHARACTER VARYING SET DATETIME BIT JSON JSONB UUID -- '' ' " /* */ ALTER DROP RENAME TRUNCATE VIEW TRUE FALSE CURRENT_TIMESTAMP NULLIF`)

func runP01(c *Ctx) {
	limit := 60 * time.Second
	judge := func(d Dialect, key, txt string, other *DDL) *DDL {
		var x *DDL
		var perr error
		err := guardTimed(limit, func() error {
			x, perr = repoParse(d, txt)
			if isPanic(perr) || perr != nil {
				return perr
			}
			s, err := repoString(x)
			if err != nil {
				return err
			}
			_ = s
			if _, _, err := repoDiff(d, x, x); err != nil && isPanic(err) {
				return err
			}
			if other != nil {
				for _, p := range [][2]*DDL{{x, other}, {other, x}} {
					df, _, err := repoDiff(d, p[0], p[1])
					if isPanic(err) {
						return err
					}
					if df != nil {
						if _, err := repoString(df); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
		switch {
		case errors.Is(err, errHang):
			c.violate(key, "no answer within "+limit.String(), txt)
		case isPanic(err):
			var p *panicErr
			errors.As(err, &p)
			c.violate(key, p.Error(), d.String()+"\n"+txt+"\n"+p.stack)
		case err != nil:
			c.count("rejected", 1)
		default:
			c.count("accepted", 1)
		}
		c.eval(d.String() + txt)
		if err != nil {
			return nil
		}
		return x
	}
	for _, d := range allDialects {
		d := d
		name := d.String()
		// damaged valid texts
		c.parallel("mut-"+name, c.n(12000, 400000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			g.MaxTables, g.MaxCols = 2, 4
			txt := g.render(g.schema(), randStyle(r))
			base, _ := repoParse(d, txt)
			b := mutateBytes(r, []byte(txt))
			judge(d, caseKey("mut-"+name, i), string(b), base)
		})
		// token soup behind a plausible head
		c.parallel("soup-"+name, c.n(20000, 600000), func(i int, r *rand.Rand) {
			heads := []string{"", "CREATE TABLE t (id INTEGER ", "CREATE TABLE t (", "CREATE INDEX i ON t ", "CREATE ", "CREATE TABLE t (id INTEGER, ", "CREATE TABLE t (id INTEGER DEFAULT ", "CREATE TABLE t (id INTEGER) ", "CREATE TABLE t (id INTEGER, CONSTRAINT c ", "CREATE TABLE t (id INT64) PRIMARY KEY (id), ", "CREATE TABLE t (id INTEGER, FOREIGN KEY (id) REFERENCES ", "CREATE TABLE t (id INTEGER CHECK ", "CREATE UNIQUE INDEX ", "CREATE TABLE t (id VARCHAR(10) NOT NULL "}
			s := heads[r.Intn(len(heads))]
			for k := 1 + r.Intn(12); k > 0; k-- {
				s += soupWords[r.Intn(len(soupWords))]
				if r.Intn(8) > 0 {
					s += " "
				}
			}
			judge(d, caseKey("soup-"+name, i), s, nil)
		})
		// every prefix and every suffix of a text
		c.parallel("prefix-"+name, c.n(16, 400), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			g.MaxTables, g.MaxCols = 2, 4
			g.Hostile = 40
			txt := g.render(g.schema(), randStyle(r))
			for k := 0; k <= len(txt); k++ {
				judge(d, caseKey("prefix-"+name, i), txt[:k], nil)
				judge(d, caseKey("prefix-"+name, i), txt[k:], nil)
			}
		})
		// a text cut off after each of its tokens, with and without an ending, or with one token missing
		c.parallel("cut-"+name, c.n(300, 15000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			g.MaxTables, g.MaxCols = 2, 5
			txt := g.render(g.schema(), plainStyle(r))
			toks, err := lexSQL(txt, d)
			if err != nil {
				return
			}
			for k := range toks {
				head := joinToks(toks[:k])
				judge(d, caseKey("cut-"+name, i), head, nil)
				judge(d, caseKey("cut-"+name, i), head+cutEndings[r.Intn(len(cutEndings))], nil)
				judge(d, caseKey("cut-"+name, i), head+" "+joinToks(toks[k+1:]), nil)
				judge(d, caseKey("cut-"+name, i), head+string([]byte{byte(r.Intn(256))}), nil)
				judge(d, caseKey("cut-"+name, i), head+twoBytes[r.Intn(len(twoBytes))]+joinToks(toks[k:]), nil)
			}
		})
		// raw bytes
		c.parallel("bytes-"+name, c.n(6000, 200000), func(i int, r *rand.Rand) {
			b := make([]byte, r.Intn(60))
			for k := range b {
				switch r.Intn(3) {
				case 0:
					b[k] = byte(r.Intn(256))
				default:
					b[k] = byteSoup[r.Intn(len(byteSoup))]
				}
			}
			judge(d, caseKey("bytes-"+name, i), string(b), nil)
		})
		// single bytes between tokens of a fixed text
		for bt := 0; bt < 256; bt++ {
			judge(d, fmt.Sprintf("byte-%s/%d", name, bt), "CREATE TABLE t (id INTEGER "+string([]byte{byte(bt)})+" NOT NULL);", nil)
			judge(d, fmt.Sprintf("byte2-%s/%d", name, bt), "CREATE TABLE t"+string([]byte{byte(bt)})+" (id INTEGER NOT NULL);"+string([]byte{byte(bt)}), nil)
		}
		// bytes and pairs of bytes as the last thing in the text
		ends := append([]string{}, twoBytes...)
		for bt := 0; bt < 256; bt++ {
			ends = append(ends, string([]byte{byte(bt)}))
		}
		c.parallel("end-"+name, len(ends), func(i int, _ *rand.Rand) {
			for _, head := range []string{"", "CREATE TABLE t", "CREATE TABLE t (", "CREATE TABLE t (id INTEGER", "CREATE TABLE t (id INTEGER DEFAULT 1", "CREATE TABLE t (id INTEGER DEFAULT 'x'", "CREATE TABLE t (id INTEGER, CHECK (id", "CREATE TABLE t (id INTEGER)", "CREATE TABLE t (id INTEGER);", "CREATE INDEX i ON t (id"} {
				judge(d, caseKey("end-"+name, i), head+ends[i], nil)
				judge(d, caseKey("end-"+name, i), head+" "+ends[i], nil)
			}
		})
		// size
		for k, s := range []string{
			"CREATE TABLE t (id INTEGER CHECK " + strings.Repeat("(", 4000) + "1" + strings.Repeat(")", 4000) + ");",
			"CREATE TABLE t (id INTEGER CHECK " + strings.Repeat("(", 4000),
			"CREATE TABLE t (id INTEGER DEFAULT " + strings.Repeat("1 + ", 5000) + "1);",
			"CREATE TABLE t (" + strings.Repeat("c", 200000) + " INTEGER);",
			strings.Repeat("-", 300000), strings.Repeat(";", 300000), strings.Repeat("--\n", 100000), strings.Repeat("'", 100001),
			"CREATE TABLE t (" + manyCols(1000) + ");",
			strings.Repeat("CREATE INDEX i ON t (a);\n", 300),
		} {
			t0 := time.Now()
			judge(d, fmt.Sprintf("size-%s/%d", name, k), s, nil)
			c.slow("size-"+name, k, time.Since(t0))
		}
	}
	c.deepTexts()
	for i, e := range corpus {
		judge(e.d, fmt.Sprintf("corpus/%d", i), e.sql, nil)
		for k := range e.sql {
			judge(e.d, fmt.Sprintf("corpus/%d", i), e.sql[:k], nil)
		}
	}
}

var cutEndings = []string{";", ")", ");", ",", ", ", " (", "(", "\n", " --", "'", "\"", "`", " ON", " DEFAULT", " COMMENT", " NOT", " =", "\x00", "());", "(,);", ",);"}

// twoBytes are all pairs of the bytes that are not letters or digits.
var twoBytes = func() (pairs []string) {
	const odd = "'\"`()-;,.\\/*\x00\xff\n\r\t <>:=@#$%&|^!?~+[]{}"
	for i := range len(odd) {
		for j := range len(odd) {
			pairs = append(pairs, odd[i:i+1]+odd[j:j+1])
		}
	}
	return pairs
}()

func manyCols(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "c%d INTEGER NOT NULL", i)
	}
	return b.String()
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	for k := 1 + r.Intn(3); k > 0 && len(b) > 1; k-- {
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1: // delete a span
			j := i + 1 + r.Intn(12)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 2: // insert a token
			w := soupWords[r.Intn(len(soupWords))]
			if r.Intn(2) == 0 {
				w = " " + w + " "
			}
			b = append(b[:i:i], append([]byte(w), b[i:]...)...)
		case 3: // duplicate a span
			j := i + 1 + r.Intn(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 4: // truncate
			b = b[:i]
		case 5: // swap spans
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 6: // quote soup
			b[i] = "'\"`\\;(),-\n"[r.Intn(10)]
		}
	}
	return b
}

const byteSoup = "'\"`()-;,.\\/*\x00\xff\n aCT10=<>:"

func (c *Ctx) slow(stream string, k int, t time.Duration) {
	if t > time.Second {
		fmt.Printf("slow: %s/%d took %.1fs\n", stream, k, t.Seconds())
	}
}
