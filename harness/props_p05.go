package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// P05: damaged text is rejected, or nothing of it is lost. The oracle is a
// conservation law: when the tool accepts a text, every name, literal, number
// and meaning-bearing keyword of the text is in what the tool understood.

var p05Keywords = wordSet("NOT DEFAULT PRIMARY FOREIGN REFERENCES UNIQUE CHECK DELETE UPDATE CASCADE DESC CREATE TABLE AUTO_INCREMENT INTERLEAVE PARENT STORED VIRTUAL VISIBLE OPTIONS HASH")

// words that may be left out or replaced: synonyms, defaults and glue
var p05Noise = wordSet("NULL ASC INDEX KEY CONSTRAINT BTREE USING IF EXISTS ON IN AS IS AND OR SET NO ACTION WITH WITHOUT TIME ZONE")

func wordSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// contents counts the tokens that carry meaning.
func contents(toks []Tok, d Dialect) map[string]int {
	out := map[string]int{}
	for _, t := range toks {
		switch t.K {
		case 'w':
			u := strings.ToUpper(t.S)
			switch {
			case p05Keywords[u]:
				out[u]++
			case p05Noise[u] || typeWord[u]:
			default:
				for _, x := range strings.Split(u, ".") {
					if x != "" {
						out["w:"+x]++
					}
				}
			}
		case 'q':
			for _, x := range strings.Split(strings.ToUpper(t.S), ".") {
				if x != "" {
					out["w:"+x]++
				}
			}
		case 's':
			if t.Q == '"' && (d == MY || d == SP) {
				for _, x := range strings.Split(strings.ToUpper(t.S), ".") {
					if x != "" {
						out["w:"+x]++
					}
				}
				continue
			}
			out["s:"+t.S]++
		}
	}
	return out
}

var typeWord = wordSet("INTEGER INT INT2 INT4 INT8 BIGINT SMALLINT TINYINT MEDIUMINT SERIAL BIGSERIAL SMALLSERIAL DECIMAL NUMERIC REAL DOUBLE PRECISION FLOAT FLOAT4 FLOAT8 CHARACTER CHAR VARCHAR VARYING STRING TEXT BOOLEAN BOOL TIMESTAMP TIMESTAMPTZ DATETIME DATE UUID JSON JSONB BYTEA")

func lost(src, out map[string]int) string {
	var l []string
	for k, n := range src {
		if out[k] < n {
			l = append(l, fmt.Sprintf("%s (%d of %d kept)", k, out[k], n))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func joinToks(ts []Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t.Raw)
	}
	return b.String()
}

// damage returns a damaged copy of the tokens and a description.
func damage(r *rand.Rand, ts []Tok, d Dialect) ([]Tok, string) {
	n := len(ts)
	cut := func(a, b int, ins ...Tok) []Tok {
		out := append([]Tok{}, ts[:a]...)
		out = append(out, ins...)
		return append(out, ts[b:]...)
	}
	i := r.Intn(n)
	switch r.Intn(11) {
	case 10: // two neighbouring phrases change places
		j := min(i+1+r.Intn(4), n)
		k := min(j+1+r.Intn(4), n)
		if at := clauses(ts); len(at) > 0 && r.Intn(4) > 0 {
			x := at[r.Intn(len(at))]
			i, j, k = x[0], x[1], x[2]
		}
		if j < n {
			return cut(i, k, append(append([]Tok{}, ts[j:k]...), ts[i:j]...)...), fmt.Sprintf("tokens %d to %d and %d to %d change places (%s, %s)", i, j-1, j, k-1, joinToks(ts[i:j]), joinToks(ts[j:k]))
		}
	case 0:
		return cut(i, i+1), fmt.Sprintf("token %d (%s) removed", i, ts[i].Raw)
	case 1:
		return cut(i, i, ts[i]), fmt.Sprintf("token %d (%s) doubled", i, ts[i].Raw)
	case 2:
		if i+1 < n {
			return cut(i, i+2, ts[i+1], ts[i]), fmt.Sprintf("tokens %d and %d swapped (%s, %s)", i, i+1, ts[i].Raw, ts[i+1].Raw)
		}
	case 3:
		j := r.Intn(n)
		return cut(i, i, ts[j]), fmt.Sprintf("%s inserted before token %d", ts[j].Raw, i)
	case 4:
		j := r.Intn(n)
		return cut(i, i+1, ts[j]), fmt.Sprintf("token %d (%s) replaced by %s", i, ts[i].Raw, ts[j].Raw)
	case 5:
		j := i + 1 + r.Intn(6)
		if j > n {
			j = n
		}
		return cut(i, j), fmt.Sprintf("tokens %d to %d removed", i, j-1)
	case 6: // cut off
		return append([]Tok{}, ts[:i]...), fmt.Sprintf("cut off before token %d (%s)", i, ts[i].Raw)
	case 9: // cut off and closed
		end, err := lexSQL(";", d)
		if err != nil {
			return nil, ""
		}
		return append(append([]Tok{}, ts[:i]...), end...), fmt.Sprintf("cut off before token %d (%s) and ended with a semicolon", i, ts[i].Raw)
	case 7: // a foreign word
		words := []string{"foo", "42", "'lost'", "GENERATED", "DEFERRABLE", "MATCH", "PARTITION", "WHERE", "SELECT", "LIKE", "EXCLUDE", "TABLESPACE", "INCLUDE", "=", "+"}
		w := words[r.Intn(len(words))]
		tt, err := lexSQL(w, d)
		if err != nil {
			return nil, ""
		}
		return cut(i, i, tt...), fmt.Sprintf("%s inserted before token %d", w, i)
	case 8: // a clause copied to another place
		j := i + 1 + r.Intn(5)
		if j > n {
			j = n
		}
		k := r.Intn(n)
		out := append([]Tok{}, ts[:k]...)
		out = append(out, ts[i:j]...)
		return append(out, ts[k:]...), fmt.Sprintf("tokens %d to %d copied before token %d", i, j-1, k)
	}
	return nil, ""
}

var clauseWord = wordSet("NOT NULL DEFAULT COLLATE CHARACTER COMMENT ON AUTO_INCREMENT PRIMARY UNIQUE REFERENCES CHECK AS STORED OPTIONS GENERATED VISIBLE INVISIBLE ENGINE CHARSET USING WITH CONSTRAINT FOREIGN FAMILY INTERLEAVE")

// clauses lists neighbouring clauses: where one begins, where the next begins, and where that ends.
func clauses(ts []Tok) [][3]int {
	var out [][3]int
	var at []int // the clauses of the column at hand
	end := func(i int) {
		at = append(at, i)
		for j := 0; j+2 < len(at); j++ {
			out = append(out, [3]int{at[j], at[j+1], at[j+2]})
		}
		at = nil
	}
	depth, level := 0, 0
	for i, t := range ts {
		switch {
		case t.K == 'o' && t.S == "(":
			depth++
		case t.K == 'o' && t.S == ")":
			depth--
			if depth < level {
				end(i)
				level = depth
			}
		case t.K == 'o' && (t.S == "," || t.S == ";") && depth <= level:
			end(i)
		case t.K == 'w' && clauseWord[strings.ToUpper(t.S)] && (len(at) == 0 || depth == level):
			if prev := i - 1; len(at) > 0 && at[len(at)-1] == prev && strings.EqualFold(ts[prev].Raw, "NOT") {
				continue // NOT NULL
			}
			level = depth
			at = append(at, i)
		}
	}
	return out
}

func runP05(c *Ctx) {
	for _, f := range c.findings {
		if f.Kind == "text" {
			d := dialectOf(f.Dialect)
			c.conserves(d, f.Key, f.Before, "recorded finding", mustLex(f.Before, d), false)
			c.count("recorded_findings_probed", 1)
		}
	}
	for _, d := range allDialects {
		d := d
		stream := "damage-" + d.String()
		c.parallel(stream, c.n(3000, 60000), func(i int, r *rand.Rand) {
			g := newGen(r, d)
			g.Hostile = 5
			m := g.schema()
			st := plainStyle(r)
			st.Case = []int{0, 0, 1}[r.Intn(3)]
			txt, _, ok := c.genText(g, m, st)
			if !ok {
				return
			}
			ts := mustLex(txt, d)
			for k := 0; k < 12; k++ {
				bad, how := damage(r, ts, d)
				if bad == nil {
					continue
				}
				if sameNameTwice(bad) {
					c.count("skipped_same_name_twice", 1) // recorded finding
					continue
				}
				c.conserves(d, caseKey(stream, i), joinToks(bad), how, bad, i == 1 && k == 0)
			}
		})
	}
}

// conserves: the text is rejected, or nothing of it is lost.
func (c *Ctx) conserves(d Dialect, key, txt, how string, toks []Tok, sample bool) {
	x, err := repoParse(d, txt)
	if isPanic(err) {
		return // judged by the totality property
	}
	c.eval(d.String() + txt)
	if err != nil {
		c.count("rejected", 1)
		return
	}
	s, err := repoString(x)
	if err != nil {
		return
	}
	out, err := lexSQL(s, d)
	if err != nil {
		c.violate(key, "accepted ("+how+") but rendered as invalid text", txt+"\n--- understood as:\n"+s)
		return
	}
	if l := lost(contents(idempotent(toks, d), d), contents(out, d)); l != "" {
		c.violate(key, "accepted ("+how+") although this is lost: "+clip(l, 300), txt+"\n--- understood as:\n"+s)
		return
	}
	if u := unbalanced(toks); u != "" && strings.HasPrefix(how, "cut off") {
		c.violate(key, "accepted ("+how+") although "+u, txt+"\n--- understood as:\n"+s)
		return
	}
	if v := valueless(out, d); v != "" {
		c.violate(key, "accepted ("+how+") although "+v, txt+"\n--- understood as:\n"+s)
		return
	}
	c.count("accepted_and_complete", 1)
	if sample {
		c.sample(txt, s)
	}
}

var p05NoValue = wordSet("NOT NULL DEFAULT PRIMARY FOREIGN REFERENCES UNIQUE CHECK CONSTRAINT COLLATE CHARACTER COMMENT AUTO_INCREMENT ON")

// valueless: a clause of what was understood lacks the value that belongs to it:
// whatever stands in its place has lost its own meaning.
func valueless(ts []Tok, d Dialect) string {
	depth, table := 0, false
	for i, t := range ts {
		switch {
		case t.isOp("("):
			depth++
		case t.isOp(")"):
			depth--
		case depth == 0 && t.isKw("CREATE"):
			table = i+1 < len(ts) && ts[i+1].isKw("TABLE")
		}
		if depth != 1 || !table || t.K != 'w' {
			continue
		}
		var next Tok
		if i+1 < len(ts) {
			next = ts[i+1]
		}
		isValue := next.K == 'q' || next.K == 's' || next.K == 'w' && !p05NoValue[strings.ToUpper(next.S)]
		afterSet := i > 0 && t.isKw("SET") && ts[i-1].isKw("CHARACTER")
		switch {
		case d == MY && (t.isKw("COLLATE") || t.isKw("COMMENT") || afterSet) && !isValue:
			return fmt.Sprintf("%s is followed by %q instead of a value", strings.ToUpper(t.S), next.Raw)
		case t.isKw("NO") && i > 0 && (ts[i-1].isKw("DELETE") || ts[i-1].isKw("UPDATE")) && !next.isKw("ACTION"):
			return fmt.Sprintf("NO is followed by %q instead of ACTION", next.Raw)
		case d != SP && t.isKw("DEFAULT") && (next.isOp(",") || next.isOp(")") || next.isOp(";")):
			return "DEFAULT has no value"
		}
	}
	return ""
}

func unbalanced(ts []Tok) string {
	n := 0
	for _, t := range ts {
		if t.isOp("(") {
			n++
		}
		if t.isOp(")") {
			n--
		}
		if n < 0 {
			return "a parenthesis is closed that was never opened"
		}
	}
	if n > 0 {
		return "a parenthesis is never closed"
	}
	return ""
}

// idempotent leaves out repetitions that mean nothing: a word said twice in a
// row, NOT NULL said twice in one column, and MySQL's NOT NULL overruled by NULL.
func idempotent(ts []Tok, d Dialect) []Tok {
	var out []Tok
	notNull, notVisible, autoInc, skip := false, false, false, 0
	depth := 0
	for i, t := range ts {
		switch {
		case t.isOp("("):
			depth++
		case t.isOp(")"):
			depth--
		}
		if t.isOp(",") && depth <= 1 {
			notNull, notVisible, autoInc = false, false, false
		}
		if skip > 0 {
			skip--
			continue
		}
		if d == MY && t.isKw("CONSTRAINT") && i+2 < len(ts) && (ts[i+2].isKw("PRIMARY") || ts[i+2].isKw("UNIQUE")) {
			skip = 1 // the server ignores this name, too
			continue
		}
		if i > 0 && t.K == 'w' && ts[i-1].K == 'w' && p05Keywords[strings.ToUpper(t.S)] && strings.EqualFold(t.S, ts[i-1].S) {
			continue
		}
		if t.isKw("NOT") && i+1 < len(ts) && ts[i+1].isKw("NULL") && depth <= 1 {
			if notNull {
				continue
			}
			if d == MY && nullFollows(ts[i+2:]) {
				continue
			}
			notNull = true
		}
		if t.isKw("AUTO_INCREMENT") && depth == 1 {
			if autoInc {
				continue
			}
			autoInc = true
		}
		if t.isKw("NOT") && i+1 < len(ts) && ts[i+1].isKw("VISIBLE") && depth <= 1 {
			if notVisible {
				skip = 1
				continue
			}
			notVisible = true
		}
		out = append(out, t)
	}
	return out
}

// nullFollows: the same column is declared NULL later on.
func nullFollows(ts []Tok) bool {
	depth := 0
	for i, t := range ts {
		switch {
		case t.isOp("("):
			depth++
		case t.isOp(")"):
			if depth--; depth < 0 {
				return false
			}
		case t.isOp(",") && depth == 0:
			return false
		case t.isKw("NULL") && depth == 0 && (i == 0 || !ts[i-1].isKw("NOT")):
			return true
		}
	}
	return false
}

// sameNameTwice: one table of the text gives two constraints or indexes the
// same explicit name. The tool keeps the last one; that is a recorded finding.
func sameNameTwice(ts []Tok) bool {
	seen := map[string]bool{}
	for i, t := range ts {
		switch {
		case t.isKw("CREATE"):
			seen = map[string]bool{}
		case (t.isKw("CONSTRAINT") || t.isKw("KEY") || t.isKw("INDEX")) && i+1 < len(ts):
			if n := ts[i+1]; n.K == 'w' || n.K == 'q' || n.K == 's' {
				k := strings.ToLower(n.S)
				if seen[k] {
					return true
				}
				seen[k] = true
			}
		}
	}
	return false
}
