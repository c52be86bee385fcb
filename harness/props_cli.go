package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
)

func init() {
	props["C01"] = prop{"exploration", "distinct command lines (arguments, environment, files, database) whose end, message and effects were judged", runC01}
	props["C02"] = prop{"exploration", "distinct combinations of options, environment variables and defaults whose effective settings were read off the output", runC02}
	props["C03"] = prop{"exploration", "distinct commands run with and without diagnostics and compared in output, exit status, files and database calls", runC03}
}

// cliCase is a scratch directory with something of everything and a database.
type cliCase struct {
	d     Dialect
	dir   string
	db    *simDB
	dc    *dbCase
	r     *rand.Rand
	bound bool
}

const cliGood = `package models

// ddlctl: table: CREATE TABLE good
type Good struct {
	ID   string ` + "`db:\"id\" ddlctl:\"%s NOT NULL\" pk:\"true\"`" + `
	Name string ` + "`db:\"name\" ddlctl:\"%s\"`" + `
}
`

func strType(d Dialect) string {
	if d == SP {
		return "STRING(255)"
	}
	return "VARCHAR(255)"
}

func (c *Ctx) cliCase(srv *simServer, r *rand.Rand, d Dialect, key string) *cliCase {
	dc := c.smallPlan(srv, r, d, key, 1, 4)
	if dc == nil {
		return nil
	}
	dir := c.caseDir(key)
	t := strType(d)
	good := fmt.Sprintf(cliGood, t, t)
	mustWrite(filepath.Join(dir, "models/a.go"), good)
	mustWrite(filepath.Join(dir, "models/b.go"), strings.ReplaceAll(strings.ReplaceAll(good, "good", "good2"), "Good", "Good2"))
	mustWrite(filepath.Join(dir, "one.go"), good)
	mustWrite(filepath.Join(dir, "broken.go"), "package models\n\ntype X struct {\n")
	mustWrite(filepath.Join(dir, "plain.go"), "package models\n\ntype X struct{}\n")
	mustWrite(filepath.Join(dir, "before.sql"), dc.t1)
	mustWrite(filepath.Join(dir, "after.sql"), dc.t2)
	mustWrite(filepath.Join(dir, "broken.sql"), "CREATE TABLE broken (id INTEGER NOT NULL,;\n")
	mustWrite(filepath.Join(dir, "words.sql"), "this is not SQL\n")
	mustWrite(filepath.Join(dir, "empty.sql"), "")
	mustWrite(filepath.Join(dir, "old.sql"), "-- generated before\n")
	mustWrite(filepath.Join(dir, "out/.keep"), "")
	return &cliCase{d: d, dir: dir, db: dc.db, dc: dc, r: r}
}

func (k *cliCase) drop() {
	k.dc.drop()
	os.RemoveAll(k.dir)
}

// cliCommand is a command that is carried out as it stands.
type cliCommand struct {
	sub     string
	opts    []string // one option each, value joined by "="
	args    []string
	stdin   string
	dst     string // the file that generate writes
	execute bool
}

func (k *cliCase) command(r *rand.Rand) cliCommand {
	dialect := "--dialect=" + k.d.String()
	switch r.Intn(8) {
	case 0, 1:
		x := cliCommand{sub: []string{"generate", "gen"}[r.Intn(2)], opts: []string{dialect}, dst: []string{"new.sql", "old.sql", "out/new.sql", "out"}[r.Intn(4)]}
		x.args = []string{[]string{"models", "one.go", "models/a.go", "./models/"}[r.Intn(4)], x.dst}
		if x.dst == "out" {
			x.dst = "out/ddlctl.gen.sql"
		}
		return x
	case 2:
		return cliCommand{sub: "show", opts: []string{dialect}, args: []string{k.db.dsn()}}
	case 3, 4:
		l, rr := []string{"before.sql", "after.sql", k.db.dsn(), "empty.sql"}, []string{"after.sql", "before.sql", "models", "empty.sql"}
		return cliCommand{sub: "diff", opts: []string{dialect}, args: []string{l[r.Intn(3)], rr[r.Intn(2)]}}
	case 5, 6:
		x := cliCommand{sub: "apply", opts: []string{dialect, "--auto-approve"}, args: []string{k.db.dsn(), "after.sql"}, execute: true}
		if r.Intn(2) == 0 {
			x.opts, x.stdin = x.opts[:1], "yes\n"
		}
		return x
	}
	return cliCommand{sub: "version"}
}

// line lays the options between the arguments, now joined, now apart.
func (x cliCommand) line(r *rand.Rand) []string {
	words := make([][]string, 0, 8)
	for _, a := range x.args {
		words = append(words, []string{a})
	}
	for _, o := range x.opts {
		w := []string{o}
		if n, v, ok := strings.Cut(o, "="); ok && r.Intn(2) == 0 {
			w = []string{n, v}
		}
		p := 0
		if r.Intn(2) == 0 {
			p = r.Intn(len(words) + 1)
		}
		words = append(words[:p], append([][]string{w}, words[p:]...)...)
	}
	out := []string{x.sub}
	for _, w := range words {
		out = append(out, w...)
	}
	return out
}

var logLine = regexp.MustCompile(`^(INFO|WARN|DEBUG|TRACE): \d{4}/\d\d/\d\d `)

// message is what the tool said on its error output apart from its log.
func (r *cliRun) message() string {
	var out []string
	for _, l := range strings.Split(r.Stderr, "\n") {
		if l != "" && !logLine.MatchString(l) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// failed judges a run that has to fail without having done anything.
func (k *cliCase) failed(run *cliRun, before map[string]string) string {
	switch {
	case run.TimedOut:
		return "it does not end"
	case run.crashed():
		return "it crashes"
	case run.Code == 0:
		return "it exits with status 0"
	case run.Code < 0:
		return "it is ended by a signal"
	case run.message() == "":
		return "it says nothing on standard error"
	}
	if df := treeDiff(before, tree(k.dir), ""); df != "" {
		return "it leaves its mark: " + df
	}
	if ev := k.db.changes(); len(ev) > 0 {
		return "it sends the database " + ev[0].String()
	}
	return ""
}

// changes are the calls that are not reads.
func (db *simDB) changes() []simEvent {
	db.mu.Lock()
	defer db.mu.Unlock()
	var out []simEvent
	for _, e := range db.log {
		if e.Op == "exec" {
			out = append(out, e)
		}
	}
	return out
}

// misuse turns a command into one that cannot be carried out.
func (k *cliCase) misuse(x cliCommand, r *rand.Rand) (what string, line, env []string) {
	need := map[string]bool{"generate": true, "gen": true, "diff": true, "apply": true, "show": true}[x.sub]
	str := func(l ...string) string { return l[r.Intn(len(l))] }
	insert := func(l []string, w ...string) []string {
		p := 1 + r.Intn(len(l))
		// not between an option and its value
		for p > 1 && p < len(l) && strings.HasPrefix(l[p-1], "--") && !strings.Contains(l[p-1], "=") && l[p-1] != "--auto-approve" {
			p--
		}
		return append(append(append([]string{}, l[:p]...), w...), l[p:]...)
	}
	for {
		switch r.Intn(14) {
		case 0:
			return "unknown option", insert(x.line(r), str("--nope", "--nope=1", "-x", "--dialects="+k.d.String(), "--dialec", "-d", "--Dialect=postgres", "--dry-run", "--go-tag=x", "--yes", "--auto_approve")), nil
		case 1:
			if x.sub == "version" || x.sub == "show" {
				continue
			}
			return "option without a value", append(x.line(r), str("--dialect", "--lang", "--go-column-tag", "--go-ddl-tag", "--go-pk-tag")), nil
		case 2, 3:
			if !need {
				continue
			}
			y := x
			y.args = x.args[:r.Intn(len(x.args))]
			return "missing argument", y.line(r), nil
		case 4:
			if !need {
				continue
			}
			y := x
			y.args = append(append([]string{}, x.args...), str("after.sql", "models", "one.go", "old.sql", "nothing", k.db.dsn()))
			return "one argument too many", y.line(r), nil
		case 5, 6:
			if !need {
				continue
			}
			y := x
			y.opts = append([]string{"--dialect=" + str("oracle", "Postgres", "POSTGRES", "postgresql", "mariadb", "cockroach", "sqlite3", "SPANNER", k.d.String()+" ", " "+k.d.String(), k.d.String()+"x", "go", "''")}, x.opts[1:]...)
			return "unknown dialect", y.line(r), nil
		case 7:
			if !need {
				continue
			}
			y := x
			y.opts = x.opts[1:]
			return "no dialect", y.line(r), []string{"", "DDLCTL_DIALECT="}[:r.Intn(3)]
		case 8:
			if !need {
				continue
			}
			y := x
			y.opts = x.opts[1:]
			return "unknown dialect in the environment", y.line(r), []string{"DDLCTL_DIALECT=" + str("oracle", "Postgres", "mysql8", " "+k.d.String())}
		case 9:
			if x.sub != "generate" && x.sub != "gen" {
				continue
			}
			if r.Intn(2) == 0 {
				return "unknown language in the environment", x.line(r), []string{"DDLCTL_LANGUAGE=" + str("rust", "Go", "golang", "go ")}
			}
			y := x
			y.opts = append(append([]string{}, x.opts...), "--lang="+str("rust", "Go", "golang", "go ", "typescript"))
			return "unknown language", y.line(r), nil
		case 10:
			return "a switch in the environment that is neither on nor off", x.line(r), []string{str("DDLCTL_DEBUG=", "DDLCTL_TRACE=", "DDLCTL_AUTO_APPROVE=") + str("yes", "no", "on", "off", "maybe", "2", "tru", " ")}
		case 11:
			l := x.line(r)
			l[0] = str("aply", "Generate", "GENERATE", "g", "show ", "destroy", "drop", "migrate", "versions", "help", "DIFF")
			for _, w := range l[1:] { // options are not known to the tool itself, so leave it at arguments
				if strings.HasPrefix(w, "-") {
					l = l[:1]
					break
				}
			}
			return "unknown command", l, nil
		case 12:
			if x.sub != "apply" {
				continue
			}
			y := x
			y.opts = []string{x.opts[0], "--auto-approve=" + str("maybe", "yes", "2", "")}
			return "a switch that is neither on nor off", y.line(r), nil
		case 13:
			if !need {
				continue
			}
			y := x
			y.args = append([]string{}, x.args...)
			switch x.sub {
			case "generate", "gen":
				if r.Intn(3) == 0 {
					y.args[1] = str("nowhere/new.sql", "old.sql/new.sql", "")
				} else {
					y.args[0] = str("nowhere", "nowhere.go", "broken.go", "plain.go", "models/nowhere.go", "")
				}
			case "show":
				y.args[0] = str("nowhere", "", "after.sql", "postgres://")
			case "diff":
				y.args[r.Intn(2)] = str("nowhere.sql", "", "broken.sql", "words.sql", "nowhere/")
			case "apply":
				if r.Intn(2) == 0 {
					y.args[0] = str("nowhere", "", "before.sql", "models")
				} else {
					y.args[1] = str("nowhere.sql", "", "broken.sql", "words.sql")
				}
			}
			return "something that is not there or not readable", y.line(r), nil
		}
	}
}

func runC01(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "use-" + d.String()
			c.parallel(stream, c.n(350, 5000), func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				if k := c.cliCase(srv, r, d, key); k != nil {
					c.commandLines(k, key, r, i < 1)
					k.drop()
				}
			})
		}
	})
}

func (c *Ctx) commandLines(k *cliCase, key string, r *rand.Rand, sample bool) {
	show := func(run *cliRun) string {
		return run.String() + "\n--- database:\n" + k.db.logText() + "\n--- before.sql:\n" + clip(k.dc.t1, 1500) + "\n--- after.sql:\n" + clip(k.dc.t2, 1500)
	}
	run := func(line, env []string, stdin string) *cliRun {
		k.db.reset()
		c.count("runs", 1)
		return runCLI(&cliRun{Args: line, Env: env, Stdin: stdin, Dir: k.dir})
	}
	before := tree(k.dir)
	// misuse
	for n := 0; n < 8; n++ {
		x := k.command(r)
		what, line, env := k.misuse(x, r)
		// the user would say yes to anything
		stdin := "yes\n"
		rr := run(line, env, stdin)
		if msg := k.failed(rr, before); msg != "" {
			c.violate(key, what+": "+msg, show(rr))
			return
		}
		if (x.sub == "show" || x.sub == "diff") && rr.Stdout != "" && what != "unknown command" {
			c.violate(key, what+": DDL is printed although it failed", show(rr))
			return
		}
		if x.sub == "apply" && strings.Contains(rr.Stdout, "executing") && len(x.args) > 0 && !strings.Contains(strings.Join(line, " "), "before.sql") && !strings.Contains(strings.Join(line, " "), " models") {
			c.violate(key, what+": apply goes on to execute", show(rr))
			return
		}
		c.count("misuse: "+what, 1)
		c.eval(fmt.Sprint(what, line, env, k.dc.t2))
		if sample && n == 0 {
			c.sample(strings.Join(line, " "), rr.String())
		}
	}
	// help does nothing but help
	x := k.command(r)
	if x.sub != "version" || r.Intn(2) == 0 {
		l := x.line(r)
		p := 1
		if r.Intn(2) == 0 {
			p = len(l)
		}
		l = append(append(append([]string{}, l[:p]...), "--help"), l[p:]...)
		rr := run(l, nil, "yes\n")
		if rr.Code != 0 || rr.crashed() || rr.TimedOut || !strings.Contains(rr.Stdout+rr.Stderr, "Usage") {
			c.violate(key, "--help does not show the usage", show(rr))
			return
		}
		if df := treeDiff(before, tree(k.dir), ""); df != "" || len(k.db.changes()) > 0 {
			c.violate(key, "--help does more than show the usage: "+df, show(rr))
			return
		}
		c.eval(fmt.Sprint(l))
	}
	// anything at all
	for n := 0; n < 5; n++ {
		x := k.command(r)
		line, env := x.line(r), []string(nil)
		for m := 1 + r.Intn(6); m > 0; m-- {
			line = k.shake(line, r)
		}
		if r.Intn(4) == 0 {
			env = append(env, []string{"DDLCTL_DIALECT=", "DDLCTL_LANGUAGE=", "DDLCTL_GO_DDL_TAG=", "DDLCTL_GO_COLUMN_TAG=", "DDLCTL_GO_PK_TAG=", "DDLCTL_DEBUG=", "DDLCTL_AUTO_APPROVE="}[r.Intn(7)]+[]string{"", "go", k.d.String(), "1", "\xff", strings.Repeat("x", 5000)}[r.Intn(6)])
		}
		before := tree(k.dir)
		rr := run(line, env, []string{"", "yes\n", "no\n"}[r.Intn(3)])
		if rr.crashed() || rr.TimedOut || rr.Code < 0 {
			c.violate(key, "the tool crashes or hangs on its arguments", show(rr))
			return
		}
		if rr.Code != 0 && rr.message() == "" {
			c.violate(key, "the tool fails without a word", show(rr))
			return
		}
		generates, applies := false, false
		for _, w := range line {
			generates = generates || w == "generate" || w == "gen"
			applies = applies || w == "apply"
		}
		if !applies && len(k.db.changes()) > 0 {
			c.violate(key, "a command other than apply changes the database", show(rr))
			return
		}
		if df := treeDiff(before, tree(k.dir), ""); df != "" && (rr.Code != 0 || !generates) {
			c.violate(key, "files are changed by a command that failed or that is not generate: "+df, show(rr))
			return
		}
		c.count("shaken", 1)
		if rr.Code == 0 {
			c.count("shaken_accepted", 1)
		}
		c.eval(fmt.Sprint(line, env, k.dc.t2))
		// start over
		if rr.Code == 0 {
			for f := range tree(k.dir) {
				if _, ok := before[f]; !ok {
					os.RemoveAll(filepath.Join(k.dir, f))
				}
			}
			for f, text := range before {
				if text != "<dir>" {
					mustWrite(filepath.Join(k.dir, f), text)
				}
			}
		}
	}
	// and the commands themselves are carried out, wherever their options stand
	x = k.command(r)
	for x.sub == "version" && r.Intn(4) > 0 {
		x = k.command(r)
	}
	before = tree(k.dir)
	rr := run(x.line(r), nil, x.stdin)
	if rr.Code != 0 || rr.crashed() {
		c.violate(key, "a command that is in order fails", show(rr))
		return
	}
	if x.execute != (len(k.db.changes()) > 0) {
		c.violate(key, "apply does not execute its plan, or another command executes something", show(rr))
		return
	}
	if df := treeDiff(before, tree(k.dir), x.dst); df != "" {
		c.violate(key, "the command touches other files: "+df, show(rr))
		return
	}
	if x.dst != "" && !strings.Contains(readFile(filepath.Join(k.dir, x.dst)), "CREATE TABLE good") {
		c.violate(key, "generate does not write its destination", show(rr))
		return
	}
	c.count("carried_out", 1)
	c.eval(fmt.Sprint(x, k.dc.t2))
}

// shake changes one word of a command line.
func (k *cliCase) shake(line []string, r *rand.Rand) []string {
	vocab := []string{"generate", "gen", "show", "diff", "apply", "version", "--dialect", "--dialect=" + k.d.String(), "--lang", "--lang=go", "go", k.d.String(), "--go-column-tag=db", "--go-ddl-tag", "--go-pk-tag=", "--auto-approve", "--auto-approve=true", "--auto-approve=false", "--debug", "--trace", "--help", "--version", "-", "--", "---", "-h", "-=", "--=", "=", "", " ", "\n", "models", "one.go", "broken.go", "after.sql", "before.sql", "broken.sql", "empty.sql", "out", "new.sql", "nowhere", k.db.dsn(), "--dialect==", "--dialect=\x00"[:10], "日本語", strings.Repeat("a", 3000), "%s%d%v", "--lang=%s", "\xff\xfe", "*", "a\tb", "'", "\"", "`", "$HOME", "--go-ddl-tag=(", "--go-ddl-tag=[a", "--go-ddl-tag=\\", "--go-ddl-tag=a\nb", "--go-column-tag=a b", "--go-column-tag=\""}
	w := vocab[r.Intn(len(vocab))]
	out := append([]string{}, line...)
	switch r.Intn(4) {
	case 0:
		if len(out) > 0 {
			i := r.Intn(len(out))
			return append(out[:i], out[i+1:]...)
		}
	case 1:
		if len(out) > 0 {
			out[r.Intn(len(out))] = w
			return out
		}
	case 2:
		if len(out) > 1 {
			i, j := r.Intn(len(out)), r.Intn(len(out))
			out[i], out[j] = out[j], out[i]
			return out
		}
	}
	i := r.Intn(len(out) + 1)
	return append(out[:i], append([]string{w}, out[i:]...)...)
}

// ---- C02: where settings come from

type setting struct {
	option, env, def string
	values           []string
}

func runC02(c *Ctx) {
	c.parallel("settings", c.n(3000, 80000), func(i int, r *rand.Rand) { c.settings(caseKey("settings", i), r, i < 2) })
	c.withServer(func(srv *simServer) {
		c.parallel("approval", c.n(1200, 15000), func(i int, r *rand.Rand) { c.approval(srv, caseKey("approval", i), r, i < 1) })
		c.parallel("source", c.n(1500, 20000), func(i int, r *rand.Rand) { c.diffSettings(caseKey("source", i), r) })
	})
}

// choose picks where a setting is given and tells what is in force.
func (s setting) choose(r *rand.Rand) (flag, env []string, value, how string) {
	v := func() string { return s.values[r.Intn(len(s.values))] }
	value, how = s.def, "default"
	switch r.Intn(6) {
	case 0:
		env = []string{s.env + "="}
		how = "empty"
	case 1, 2, 3:
		value, how = v(), "env"
		env = []string{s.env + "=" + value}
	}
	if r.Intn(2) == 0 {
		value = v()
		how += "+flag"
		flag = []string{s.option + "=" + value}
		if r.Intn(2) == 0 {
			flag = []string{s.option, value}
		}
	}
	return
}

type chosen struct {
	words [][]string
	env   []string
	value map[string]string
	how   []string
}

func chooseAll(r *rand.Rand, settings []setting) chosen {
	ch := chosen{value: map[string]string{}}
	for _, s := range settings {
		f, e, v, how := s.choose(r)
		if f != nil {
			ch.words = append(ch.words, f)
		}
		ch.env = append(ch.env, e...)
		ch.value[s.option] = v
		ch.how = append(ch.how, s.option+":"+how)
	}
	sort.Strings(ch.how)
	r.Shuffle(len(ch.words), func(i, j int) { ch.words[i], ch.words[j] = ch.words[j], ch.words[i] })
	r.Shuffle(len(ch.env), func(i, j int) { ch.env[i], ch.env[j] = ch.env[j], ch.env[i] })
	return ch
}

func (ch chosen) line(r *rand.Rand, sub string, args ...string) []string {
	words := append([][]string{}, ch.words...)
	p := len(words)
	for i, a := range args {
		q := p + i
		if r.Intn(2) == 0 {
			q = r.Intn(len(words) + 1)
			if i > 0 { // keep the order of the arguments
				for j, w := range words {
					if len(w) == 1 && w[0] == args[i-1] && q <= j {
						q = j + 1
					}
				}
			}
		}
		if i > 0 {
			for j, w := range words {
				if len(w) == 1 && w[0] == args[i-1] && q <= j {
					q = j + 1
				}
			}
		}
		words = append(words[:q], append([][]string{{a}}, words[q:]...)...)
	}
	out := []string{sub}
	for _, w := range words {
		out = append(out, w...)
	}
	return out
}

var (
	colTags = []string{"db", "col", "json", "spanner", "d", "dbx", "DB", "go-column-tag", "カラム", "ddlctl2"}
	ddlTags = []string{"ddlctl", "ddl", "my.ddl", "pgddl", "ddlctlx", "DDLCTL", "x+", "go-ddl-tag"}
	pkTags  = []string{"pk", "primary", "PK", "pkx", "is_pk", "p"}
)

// tellTale is a source that reads differently under each choice of tags.
func tellTale(r *rand.Rand, d Dialect) string {
	var b strings.Builder
	b.WriteString("package models\n\n")
	for i := range ddlTags {
		fmt.Fprintf(&b, "// %s: table: CREATE TABLE table_%d\n", ddlTags[i], i)
	}
	b.WriteString("type T struct {\n")
	for f := 0; f < len(pkTags)+1; f++ {
		var tags []string
		for i, t := range colTags {
			tags = append(tags, fmt.Sprintf("%s:%q", t, fmt.Sprintf("col_%d_%d", f, i)))
		}
		for i, t := range ddlTags {
			tags = append(tags, fmt.Sprintf("%s:%q", t, fmt.Sprintf("TYPE_%d_%d", f, i)))
		}
		if f < len(pkTags) {
			tags = append(tags, pkTags[f]+`:"true"`)
		}
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		fmt.Fprintf(&b, "\tF%d string `%s`\n", f, strings.Join(tags, " "))
	}
	b.WriteString("}\n")
	return b.String()
}

func indexOf(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

// expectTellTale is what generate has to make of it, without layout and comments.
func expectTellTale(d string, col, ddl, pk string) string {
	q := "`"
	if d == "postgres" || d == "cockroachdb" {
		q = `"`
	}
	ci, di, pi := indexOf(colTags, col), indexOf(ddlTags, ddl), indexOf(pkTags, pk)
	s := fmt.Sprintf("CREATE TABLE table_%d (", di)
	var l []string
	for f := 0; f < len(pkTags)+1; f++ {
		l = append(l, fmt.Sprintf("%scol_%d_%d%s TYPE_%d_%d", q, f, ci, q, f, di))
	}
	key := fmt.Sprintf("PRIMARY KEY (%scol_%d_%d%s)", q, pi, ci, q)
	if d == "spanner" {
		return s + strings.Join(l, ", ") + ") " + key + ";"
	}
	return s + strings.Join(append(l, key), ", ") + ");"
}

// one set of names for all three tags, so that a name may be given for more than one of them
var anyTags = append(append(append([]string{}, colTags...), ddlTags...), pkTags...)

// sharedTellTale reads differently under each choice of tags, and any tag can stand for any purpose.
func sharedTellTale(r *rand.Rand) string {
	var b strings.Builder
	b.WriteString("package models\n\n")
	for i := range anyTags {
		fmt.Fprintf(&b, "// %s: table: CREATE TABLE table_%d\n", anyTags[i], i)
	}
	b.WriteString("type T struct {\n")
	for f := 0; f < len(anyTags)+1; f++ {
		var tags []string
		for i, t := range anyTags {
			tags = append(tags, fmt.Sprintf("%s:%q", t, sharedValue(f, i)))
		}
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		fmt.Fprintf(&b, "\tF%d string `%s`\n", f, strings.Join(tags, " "))
	}
	b.WriteString("}\n")
	return b.String()
}

func sharedValue(f, i int) string {
	if f == i {
		return "true"
	}
	return fmt.Sprintf("w_%d_%d", f, i)
}

func expectSharedTellTale(d string, col, ddl, pk string) string {
	q := "`"
	if d == "postgres" || d == "cockroachdb" {
		q = `"`
	}
	ci, di, pi := indexOf(anyTags, col), indexOf(anyTags, ddl), indexOf(anyTags, pk)
	s := fmt.Sprintf("CREATE TABLE table_%d (", di)
	var l []string
	for f := 0; f < len(anyTags)+1; f++ {
		l = append(l, q+sharedValue(f, ci)+q+" "+sharedValue(f, di))
	}
	key := fmt.Sprintf("PRIMARY KEY (%s%s%s)", q, sharedValue(pi, ci), q)
	if d == "spanner" {
		return s + strings.Join(l, ", ") + ") " + key + ";"
	}
	return s + strings.Join(append(l, key), ", ") + ");"
}

var sharedSettings = []setting{
	{"--dialect", "DDLCTL_DIALECT", "", []string{"postgres", "mysql", "spanner", "cockroachdb"}},
	{"--lang", "DDLCTL_LANGUAGE", "go", []string{"go", "go", "go", "go", "rust"}},
	{"--go-column-tag", "DDLCTL_GO_COLUMN_TAG", "db", anyTags},
	{"--go-ddl-tag", "DDLCTL_GO_DDL_TAG", "ddlctl", anyTags},
	{"--go-pk-tag", "DDLCTL_GO_PK_TAG", "pk", anyTags},
}

// share makes one of the names serve for two purposes.
func share(r *rand.Rand) []setting {
	out := append([]setting{}, sharedSettings...)
	few := []string{"db", "ddlctl", "pk", anyTags[r.Intn(len(anyTags))], anyTags[r.Intn(len(anyTags))]}
	for i := 2; i < 5; i++ {
		out[i].values = few
	}
	return out
}

var allSettings = []setting{
	{"--dialect", "DDLCTL_DIALECT", "", []string{"postgres", "mysql", "spanner", "cockroachdb"}},
	{"--lang", "DDLCTL_LANGUAGE", "go", []string{"go", "go", "go", "go", "rust"}},
	{"--go-column-tag", "DDLCTL_GO_COLUMN_TAG", "db", colTags},
	{"--go-ddl-tag", "DDLCTL_GO_DDL_TAG", "ddlctl", ddlTags},
	{"--go-pk-tag", "DDLCTL_GO_PK_TAG", "pk", pkTags},
}

func (c *Ctx) settings(key string, r *rand.Rand, sample bool) {
	dir := c.caseDir(key)
	defer os.RemoveAll(dir)
	shared := r.Intn(3) == 0
	all := allSettings
	if shared {
		all = share(r)
	}
	ch := chooseAll(r, all)
	dialect := ch.value["--dialect"]
	src := tellTale(r, PG)
	if shared {
		src = sharedTellTale(r)
		c.count("names_shared", 1)
	}
	mustWrite(filepath.Join(dir, "m.go"), src)
	line := ch.line(r, []string{"generate", "gen"}[r.Intn(2)], "m.go", "o.sql")
	run := runCLI(&cliRun{Args: line, Env: ch.env, Dir: dir})
	got := readFile(filepath.Join(dir, "o.sql"))
	detail := strings.Join(ch.how, " ") + fmt.Sprintf("\nin force: %v\n", ch.value) + run.String() + "\n" + src + "\n--- generated:\n" + got
	c.eval(fmt.Sprint(line, ch.env))
	for _, h := range ch.how {
		c.count(h, 1)
	}
	if dialect == "" || ch.value["--lang"] != "go" {
		if run.Code == 0 || run.crashed() {
			c.violate(key, "a setting that is given has no effect: generate goes on without a dialect or with an unknown language", detail)
		}
		return
	}
	if run.Code != 0 {
		c.violate(key, "a setting that is given has no effect: generate fails", detail)
		return
	}
	var d Dialect
	for _, x := range allDialects {
		if x.String() == dialect {
			d = x
		}
	}
	want := expectTellTale(dialect, ch.value["--go-column-tag"], ch.value["--go-ddl-tag"], ch.value["--go-pk-tag"])
	if shared {
		want = expectSharedTellTale(dialect, ch.value["--go-column-tag"], ch.value["--go-ddl-tag"], ch.value["--go-pk-tag"])
	}
	wt, err := lexSQL(want, d)
	if err != nil {
		panic(err)
	}
	gt, err := lexSQL(got, d)
	if err != nil {
		c.violate(key, "unreadable: "+err.Error(), detail)
		return
	}
	if w, g := canonToks(wt), canonToks(gt); w != g {
		c.violate(key, "the settings in force are not those that were given: "+firstDiff(w, g), detail)
		return
	}
	if sample {
		c.sample(strings.Join(ch.env, " ")+" ddlctl "+strings.Join(line, " "), got)
	}
}

// diffSettings reads the settings off diff, which generates a directory.
func (c *Ctx) diffSettings(key string, r *rand.Rand) {
	dir := c.caseDir(key)
	defer os.RemoveAll(dir)
	ch := chooseAll(r, allSettings)
	dialect := ch.value["--dialect"]
	d := SP
	typ := map[string]string{"postgres": "text", "cockroachdb": "STRING", "mysql": "TEXT", "spanner": "STRING(255)"}[dialect]
	if typ == "" {
		typ = "text"
	}
	for _, x := range allDialects {
		if x.String() == dialect {
			d = x
		}
	}
	src := regexp.MustCompile(`TYPE_\d+_\d+`).ReplaceAllString(tellTale(r, d), typ)
	mustWrite(filepath.Join(dir, "m/m.go"), src)
	mustWrite(filepath.Join(dir, "empty.sql"), "")
	line := ch.line(r, "diff", "empty.sql", "m")
	run := runCLI(&cliRun{Args: line, Env: ch.env, Dir: dir})
	detail := strings.Join(ch.how, " ") + fmt.Sprintf("\nin force: %v\n", ch.value) + run.String() + "\n" + src
	c.eval(fmt.Sprint(line, ch.env))
	if dialect == "" || ch.value["--lang"] != "go" {
		if run.Code == 0 || run.crashed() {
			c.violate(key, "a setting that is given has no effect: diff goes on without a dialect or with an unknown language", detail)
		}
		return
	}
	st, err := interpSQL(run.Stdout, d)
	if run.Code != 0 || err != nil {
		c.violate(key, fmt.Sprintf("a setting that is given has no effect: diff fails (%v)", err), detail)
		return
	}
	want := expectTellTale(dialect, ch.value["--go-column-tag"], ch.value["--go-ddl-tag"], ch.value["--go-pk-tag"])
	ws, err := interpSQL(regexp.MustCompile(`TYPE_\d+_\d+`).ReplaceAllString(want, typ), d)
	if err != nil {
		panic(fmt.Sprint(err, want))
	}
	if df := matchState(st, ws); df != "" {
		c.violate(key, "diff does not go by the settings that were given: "+df, detail)
	}
	c.count("diffs", 1)
}

// approval: the switch, its variable and the prompt.
func (c *Ctx) approval(srv *simServer, key string, r *rand.Rand, sample bool) {
	d := allDialects[r.Intn(len(allDialects))]
	k := c.cliCase(srv, r, d, key)
	if k == nil {
		return
	}
	defer k.drop()
	env := []string{}
	approved := false
	how := "default"
	if x := r.Intn(4); x > 0 {
		l := []struct {
			s  string
			on bool
		}{{"true", true}, {"1", true}, {"T", true}, {"TRUE", true}, {"t", true}, {"True", true}, {"false", false}, {"0", false}, {"F", false}, {"f", false}, {"False", false}, {"FALSE", false}, {"", false}}
		v := l[r.Intn(len(l))]
		env = append(env, "DDLCTL_AUTO_APPROVE="+v.s)
		approved = v.on
		how = "env=" + v.s
	}
	line := []string{"apply"}
	ch := chooseAll(r, allSettings[2:])
	ch.env = append(ch.env, env...)
	if r.Intn(2) == 0 {
		v := []string{"", "=true", "=false", "=1", "=0"}[r.Intn(5)]
		approved = v == "" || v == "=true" || v == "=1"
		ch.words = append(ch.words, []string{"--auto-approve" + v})
		how += " flag" + v
	}
	if r.Intn(2) == 0 {
		ch.words = append(ch.words, []string{"--dialect", d.String()})
		if r.Intn(2) == 0 {
			ch.env = append(ch.env, "DDLCTL_DIALECT="+allDialects[r.Intn(4)].String())
		}
	} else {
		ch.env = append(ch.env, "DDLCTL_DIALECT="+d.String())
	}
	line = ch.line(r, "apply", k.db.dsn(), "after.sql")
	answers := []string{"", "\n", "no\n", "y\n", "YES\n", "yes\n", "yes", "yes\nno\n"}
	in := answers[r.Intn(len(answers))]
	said := strings.HasPrefix(in, "yes")
	k.db.reset()
	run := runCLI(&cliRun{Args: line, Env: ch.env, Stdin: in, Dir: k.dir})
	detail := how + fmt.Sprintf("; approved %v, says yes %v\n", approved, said) + run.String() + "\n" + k.db.logText()
	n := len(k.db.changes())
	c.eval(fmt.Sprint(line, ch.env, in))
	c.count("approval "+how, 1)
	if run.crashed() || run.TimedOut {
		c.violate(key, "apply crashes", detail)
		return
	}
	if in == "yes" { // without a line end: either reading of it is fine as long as the exit status says which
		if (n > 0) != (run.Code == 0) {
			c.violate(key, "apply executes and fails, or does not execute and succeeds", detail)
		}
		return
	}
	switch {
	case approved || said:
		if n == 0 || run.Code != 0 {
			c.violate(key, "an approved apply does not execute its plan", detail)
			return
		}
		if approved == strings.Contains(run.Stdout, "(via") || !approved {
			break
		}
	default:
		if n > 0 {
			c.violate(key, "apply executes its plan although nobody approved it", detail)
			return
		}
		if run.Code == 0 {
			c.violate(key, "apply reports success although it was not approved", detail)
			return
		}
	}
	if sample {
		c.sample(detail, "")
	}
}

// ---- C03: diagnostics change nothing

func runC03(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "diagnostics-" + d.String()
			c.parallel(stream, c.n(250, 6000), func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				if k := c.cliCase(srv, r, d, key); k != nil {
					c.diagnostics(srv, k, key, r, i < 1)
					k.drop()
				}
			})
		}
	})
}

var connNo = regexp.MustCompile(`^conn\d+ `)

func (c *Ctx) diagnostics(srv *simServer, k *cliCase, key string, r *rand.Rand, sample bool) {
	x := k.command(r)
	line, env := x.line(r), []string(nil)
	what := "in order"
	if r.Intn(4) == 0 {
		what, line, env = k.misuse(x, r)
	}
	if what == "a switch in the environment that is neither on nor off" {
		return
	}
	stdin := x.stdin
	if r.Intn(6) == 0 {
		stdin = []string{"", "no\n", "yes\n"}[r.Intn(3)]
	}
	before := tree(k.dir)
	state, raw := k.db.eng.S.clone(), map[string]string{}
	for a, b := range k.db.eng.Raw {
		raw[a] = b
	}
	version := k.db.version
	type result struct {
		out, files, db string
		code           int
		run            *cliRun
	}
	one := func(line, env []string) result {
		// everything as it was
		for f := range tree(k.dir) {
			if _, ok := before[f]; !ok {
				os.RemoveAll(filepath.Join(k.dir, f))
			}
		}
		for f, text := range before {
			if text != "<dir>" {
				mustWrite(filepath.Join(k.dir, f), text)
			}
		}
		k.db.eng.S = state.clone()
		k.db.eng.Raw = map[string]string{}
		for a, b := range raw {
			k.db.eng.Raw[a] = b
		}
		k.db.version = version
		k.db.reset()
		run := runCLI(&cliRun{Args: line, Env: env, Stdin: stdin, Dir: k.dir})
		var ev []string
		k.db.mu.Lock()
		for _, e := range k.db.log {
			ev = append(ev, connNo.ReplaceAllString(e.String(), ""))
		}
		k.db.mu.Unlock()
		return result{run.Stdout, treeText(tree(k.dir)), strings.Join(ev, "\n"), run.Code, run}
	}
	a := one(line, env)
	var said int64
	for n := 0; n < 3; n++ {
		l, e, how := line, env, ""
		switch r.Intn(6) {
		case 0:
			l, how = append([]string{"--debug"}, line...), "--debug"
		case 1:
			l, how = append([]string{"--trace"}, line...), "--trace"
		case 2:
			e, how = append([]string{"DDLCTL_DEBUG=true"}, env...), "DDLCTL_DEBUG"
		case 3:
			e, how = append([]string{"DDLCTL_TRACE=1"}, env...), "DDLCTL_TRACE"
		case 4:
			l, how = append([]string{"--trace", "--debug=true"}, line...), "--trace --debug"
		case 5:
			l, e, how = append([]string{"--trace=false"}, line...), append([]string{"DDLCTL_TRACE=1", "DDLCTL_DEBUG=1"}, env...), "DDLCTL_DEBUG"
		}
		b := one(l, e)
		detail := what + "\n" + a.run.String() + "\n--- database:\n" + a.db + "\n\n--- with " + how + ":\n" + b.run.String() + "\n--- database:\n" + b.db
		switch {
		case b.run.crashed() || b.run.TimedOut:
			c.violate(key, "the tool crashes or hangs with "+how, detail)
			return
		case a.code != b.code:
			c.violate(key, fmt.Sprintf("%s changes the exit status from %d to %d", how, a.code, b.code), detail)
			return
		case a.out != b.out:
			c.violate(key, how+" changes the output: "+firstDiff(a.out, b.out), detail)
			return
		case a.files != b.files:
			c.violate(key, how+" changes the files that are written: "+firstDiff(a.files, b.files), detail)
			return
		case a.db != b.db:
			c.violate(key, how+" changes what the database is told: "+firstDiff(a.db, b.db), detail)
			return
		}
		if strings.Contains(b.run.Stderr, "DEBUG: ") || strings.Contains(b.run.Stderr, "TRACE: ") {
			said++
		}
		c.eval(fmt.Sprint(l, e, stdin, k.dc.t1, k.dc.t2))
		c.count("compared "+x.sub, 1)
	}
	atomic.AddInt64(&diagnosticLines, said)
	c.count("runs_with_diagnostics_printed", said)
	if sample {
		c.sample(strings.Join(line, " "), a.run.String())
	}
}

var diagnosticLines int64

func treeText(t map[string]string) string {
	var l []string
	for k, v := range t {
		l = append(l, k+"\n"+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}
