package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

func init() {
	props["A01"] = prop{"exploration", "distinct apply runs whose executed statements were compared with the plan shown", runA01}
	props["A02"] = prop{"exploration", "distinct (answer, approval setting, plan) runs whose executions were compared with the approval given", runA02}
	props["A03"] = prop{"fault_enumeration", "distinct (plan, injected fault) apply runs whose exit status was compared with what the database answered", runA03}
	props["A04"] = prop{"fault_enumeration", "distinct (plan, failing statements) apply runs whose attempts were counted per statement", runA04}
	props["A05"] = prop{"fault_enumeration", "distinct spanner apply runs whose connection and batch protocol was followed call by call", runA05}
	props["A06"] = prop{"exploration", "distinct (database, desired schema) pairs applied to the simulated database and compared with the desired schema", runA06}
}

// dbCase is a simulated database and a desired schema.
type dbCase struct {
	*pair
	db    *simDB
	after string // path of the SQL file
	plan  string // expected plan text (the in-process diff), "" when there is no difference
	no    bool
	stmts []string // canonical text of the statements of the plan, in order
}

// showable strips what the spanner catalogue queries cannot express.
func showable(s *State) {
	if s.D != SP {
		return
	}
	for _, t := range s.Tables {
		t.Cons = filterCons(t.Cons, func(k *Con) bool { return k.Kind != KFK && k.Kind != KCheck })
	}
}

// dbCase builds a database in some state and a desired schema some edits away
// from it; nil when the case cannot be built.
func (c *Ctx) dbCase(srv *simServer, r *rand.Rand, d Dialect, nEdits int, key string, hostile int) *dbCase {
	g := newGen(r, d)
	g.Hostile = hostile
	m1 := g.schema()
	if nEdits < 0 { // an empty database
		m1 = &State{D: d}
	}
	showable(m1)
	var m2 *State
	var tags []string
	if nEdits < 0 {
		m2 = g.schema()
		tags = []string{"create everything"}
	} else {
		m2 = m1.clone()
		tags = g.edits(m2, nEdits)
	}
	showable(m2)
	p := &pair{d: d, tags: tags}
	t1, ok := "", true
	if len(m1.Tables) > 0 {
		if t1, _, ok = c.genText(g, m1, plainStyle(r)); !ok {
			return nil
		}
	}
	if len(m2.Tables) > 0 {
		if p.t2, _, ok = c.genText(g, m2, plainStyle(r)); !ok {
			return nil
		}
	}
	x, err := repoParse(d, t1)
	if err != nil {
		return nil
	}
	s, err := repoString(x)
	if err != nil {
		return nil
	}
	db := srv.db(d)
	db.raw = true
	if err := db.eng.exec(s); err != nil {
		srv.drop(db)
		return nil
	}
	p.t1 = db.showText()
	if err := db.reshow(p.t1); err != nil {
		srv.drop(db)
		return nil
	}
	if d == SP {
		run := runCLI(&cliRun{Args: []string{"show", "--dialect", "spanner", db.dsn()}})
		if run.Code != 0 {
			c.violate(key, "the database cannot be shown", run.String()+db.logText())
			srv.drop(db)
			return nil
		}
		p.t1 = run.Stdout
		db.reset()
	}
	if !p.load(c, key) {
		srv.drop(db)
		return nil
	}
	dc := &dbCase{pair: p, db: db}
	dc.plan, dc.no, ok = p.diff(c, key)
	if !ok {
		srv.drop(db)
		return nil
	}
	if dc.stmts, err = planStatements(dc.plan, d); err != nil {
		srv.drop(db)
		return nil
	}
	dc.after = filepath.Join(workDir, fmt.Sprintf("after-%s.sql", db.id))
	if err := os.WriteFile(dc.after, []byte(p.t2), 0o644); err != nil {
		panic(err)
	}
	return dc
}

func (dc *dbCase) drop() {
	dc.db.srv.drop(dc.db)
	os.Remove(dc.after)
}

// planStatements splits a plan into statements by the dialect's own lexical
// rules; each is given as its tokens, literals byte for byte.
func planStatements(sql string, d Dialect) ([]string, error) {
	toks, err := lexSQL(sql, d)
	if err != nil {
		return nil, err
	}
	var out []string
	var cur []string
	for _, t := range toks {
		if t.isOp(";") {
			if len(cur) > 0 {
				out = append(out, strings.Join(cur, " "))
			}
			cur = nil
			continue
		}
		cur = append(cur, t.Raw)
	}
	if len(cur) > 0 {
		out = append(out, strings.Join(cur, " "))
	}
	return out, nil
}

func oneStatement(sql string, d Dialect) string {
	l, err := planStatements(sql, d)
	if err != nil {
		return "unlexable (" + err.Error() + "): " + sql
	}
	if len(l) != 1 {
		return fmt.Sprintf("%d statements: %s", len(l), sql)
	}
	return l[0]
}

const planStart, planEnd = "\n-- 8< --\n\n", "\n\n-- >8 --\n"

// shownPlan is the plan text of an apply run's output.
func shownPlan(out string) (string, bool) {
	_, rest, ok := strings.Cut(out, planStart)
	if !ok {
		return "", false
	}
	i := strings.LastIndex(rest, planEnd)
	if i < 0 {
		return "", false
	}
	return rest[:i], true
}

func (db *simDB) events(op string) []simEvent {
	db.mu.Lock()
	defer db.mu.Unlock()
	var out []simEvent
	for _, e := range db.log {
		if op == "" || e.Op == op {
			out = append(out, e)
		}
	}
	return out
}

func (db *simDB) reset() {
	db.mu.Lock()
	db.log = nil
	db.mu.Unlock()
}

func (db *simDB) logText() string {
	var b strings.Builder
	for _, e := range db.events("") {
		b.WriteString(e.String() + "\n")
	}
	return b.String()
}

func (dc *dbCase) report(run *cliRun) string {
	return dc.d.String() + " edits: " + strings.Join(dc.tags, ", ") + "\n--- database:\n" + dc.t1 + "\n--- desired:\n" + dc.t2 + "\n--- run:\n" + run.String() + "\n--- event log:\n" + dc.db.logText()
}

func isBatchWord(s string) bool {
	switch strings.ToUpper(strings.Join(strings.Fields(strings.TrimSuffix(strings.TrimSpace(s), ";")), " ")) {
	case "START BATCH DDL", "RUN BATCH", "ABORT BATCH":
		return true
	}
	return false
}

// executed lists the plan statements that were executed (without the batch words).
func (dc *dbCase) executed() []simEvent {
	var out []simEvent
	for _, e := range dc.db.events("exec") {
		if dc.d == SP && isBatchWord(e.SQL) {
			continue
		}
		out = append(out, e)
	}
	return out
}

func (dc *dbCase) applyArgs(r *rand.Rand, extra ...string) []string {
	a := []string{"apply", "--dialect", dc.d.String()}
	if r != nil && r.Intn(3) == 0 {
		a = []string{"apply", "--dialect=" + dc.d.String()}
	}
	a = append(a, extra...)
	return append(a, dc.db.dsn(), dc.after)
}

var simWorkers = runtime.NumCPU()

func (c *Ctx) withServer(f func(srv *simServer)) {
	srv, err := newSimServer(simWorkers)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer srv.close()
	f(srv)
	c.count("connections", atomic.LoadInt64(&srv.opened))
	c.count("driver_calls", atomic.LoadInt64(&srv.calls))
}

func editCount(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return -1
	case 1, 2:
		return 1
	case 3, 4:
		return 2 + r.Intn(4)
	}
	return 6 + r.Intn(8)
}

// ---- A01: exactly the plan, once, in order ----

func runA01(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "apply-" + d.String()
			c.parallel(stream, c.n(400, 8000), func(i int, r *rand.Rand) {
				hostile := []int{0, 15, 60}[r.Intn(3)]
				if dc := c.dbCase(srv, r, d, editCount(r), caseKey(stream, i), hostile); dc != nil {
					c.executesPlan(dc, caseKey(stream, i), r, i == 3)
					dc.drop()
				}
			})
			stream = "literal-" + d.String()
			c.parallel(stream, c.n(150, 3000), func(i int, r *rand.Rand) {
				if dc := c.literalCase(srv, r, d, caseKey(stream, i)); dc != nil {
					c.executesPlan(dc, caseKey(stream, i), r, i == 3)
					dc.drop()
				}
			})
		}
	})
}

// literalCase: desired schemas whose literals and quoted names contain whatever
// separates statements elsewhere, some of them very long.
func (c *Ctx) literalCase(srv *simServer, r *rand.Rand, d Dialect, key string) *dbCase {
	parts := []string{"--", "-- x", ";", ";\n", "\n", "\n\n", "\n-- y\n", "a", "b c", ",", "(", ")", "\t", "CREATE TABLE z (i INT);\n", "%s%d", "$$", "#", "/*", "*/", "é", "\r\n", "''", "\n;\n", " ", "--\n", "\\\\"}
	lit := func() string {
		s := ""
		for n := r.Intn(7); n >= 0; n-- {
			s += parts[r.Intn(len(parts))]
		}
		switch r.Intn(25) {
		case 0:
			s = strings.Repeat(s+"0123456789abcdef", 66000/(len(s)+16)+1)
		case 1:
			s = strings.Repeat("x", 65536-r.Intn(40))
		}
		if d == SP {
			s = strings.ReplaceAll(s, "''", "\\'")
			s = strings.ReplaceAll(strings.ReplaceAll(s, "\r", ""), "\n", "\\n")
		}
		if d == MY || d == SP {
			if r.Intn(5) == 0 {
				s += "\\'; -- "
			}
		}
		return "'" + s + "'"
	}
	name := func() string {
		q := "\""
		if d == MY || d == SP {
			q = "`"
		}
		if d == SP || r.Intn(3) > 0 {
			return q + fmt.Sprintf("c%d", r.Intn(1000000)) + q
		}
		return q + []string{"a -- b", "a;b", "a;\nb", "x\n\ny", "it's", "--"}[r.Intn(6)] + fmt.Sprint(r.Intn(1000000)) + q
	}
	ty, def := "TEXT", func(s string) string { return s }
	switch d {
	case MY:
		ty = "VARCHAR(255)"
	case SP:
		ty = "STRING(MAX)"
		def = func(s string) string { return "(" + s + ")" }
	}
	table := func(n int, lits int) string {
		var cols []string
		k := ""
		for i := 0; i < lits; i++ {
			nm := name()
			if i == 0 {
				k = nm
			}
			col := nm + " " + ty + " DEFAULT " + def(lit())
			if d == MY && r.Intn(2) == 0 {
				col += " COMMENT " + lit()
			}
			cols = append(cols, col)
		}
		if d != SP && r.Intn(2) == 0 {
			cols = append(cols, fmt.Sprintf("CONSTRAINT k%d CHECK (%s <> %s)", n, k, lit()))
		}
		s := fmt.Sprintf("CREATE TABLE t%d (%s)", n, strings.Join(cols, ", "))
		if d == SP {
			s += " PRIMARY KEY (" + k + ")"
		} else if d == MY && r.Intn(2) == 0 {
			s += " COMMENT=" + lit()
		}
		return s + ";\n"
	}
	t1, t2 := "", ""
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		t2 += table(i, 1+r.Intn(4))
	}
	if d != SP && r.Intn(2) == 0 {
		t1 = table(0, 1+r.Intn(3))
		if r.Intn(3) == 0 {
			t1 += table(9, 1)
		}
	}
	p := &pair{d: d, t1: t1, t2: t2, tags: []string{"literals"}}
	x, err := repoParse(d, t1)
	if err != nil {
		c.count("literal schema rejected", 1)
		return nil
	}
	s, err := repoString(x)
	if err != nil {
		return nil
	}
	db := srv.db(d)
	db.raw = true
	if err := db.eng.exec(s); err != nil {
		srv.drop(db)
		return nil
	}
	p.t1 = db.showText()
	if err := db.reshow(p.t1); err != nil {
		srv.drop(db)
		return nil
	}
	if !p.load(c, key) {
		c.count("literal schema not comparable", 1)
		srv.drop(db)
		return nil
	}
	dc := &dbCase{pair: p, db: db}
	var ok bool
	if dc.plan, dc.no, ok = p.diff(c, key); !ok {
		srv.drop(db)
		return nil
	}
	if dc.stmts, err = planStatements(dc.plan, d); err != nil {
		srv.drop(db)
		return nil
	}
	dc.after = filepath.Join(workDir, fmt.Sprintf("after-%s.sql", db.id))
	if err := os.WriteFile(dc.after, []byte(p.t2), 0o644); err != nil {
		panic(err)
	}
	return dc
}

func (c *Ctx) executesPlan(dc *dbCase, key string, r *rand.Rand, sample bool) {
	run := &cliRun{Args: dc.applyArgs(r, "--auto-approve")}
	if r.Intn(3) == 0 {
		run = &cliRun{Args: dc.applyArgs(r), Stdin: "yes\n"}
		if r.Intn(2) == 0 { // the world goes on while the prompt waits
			other := []string{"", dc.t1, dc.t2 + "\n" + dc.t1, "CREATE TABLE", dc.t2[:len(dc.t2)/2]}[r.Intn(5)]
			what := r.Intn(4)
			run.OnPrompt = func() {
				if what != 1 {
					os.WriteFile(dc.after, []byte(other), 0o644)
				}
				if what != 2 {
					dc.db.mu.Lock()
					dc.db.eng = newDBEngine(dc.d)
					dc.db.version++
					dc.db.mu.Unlock()
				}
				if what == 3 {
					os.Remove(dc.after)
				}
				c.count("schemas changed while the prompt waited", 1)
			}
		}
	}
	runCLI(run)
	bad := func(msg string) { c.violate(key, msg, dc.report(run)) }
	if run.TimedOut || run.crashed() {
		bad("apply did not end properly")
		return
	}
	if run.Code != 0 {
		bad("apply failed although the database accepted everything")
		return
	}
	plan, shown := shownPlan(run.Stdout)
	ex := dc.executed()
	if dc.no {
		if len(ex) > 0 {
			bad("statements were executed although there is no difference")
			return
		}
		c.count("no difference", 1)
		c.eval(dc.t1 + "\x00" + dc.t2)
		return
	}
	if !shown {
		bad("no plan was shown")
		return
	}
	want, err := planStatements(plan, dc.d)
	if err != nil {
		bad("the plan shown is not lexically valid: " + err.Error())
		return
	}
	if strings.Join(want, "\x00") != strings.Join(dc.stmts, "\x00") {
		bad("the plan shown is not the difference between the database and the desired schema:\n" + dc.plan)
		return
	}
	for i := 0; i < len(want) || i < len(ex); i++ {
		switch {
		case i >= len(ex):
			bad(fmt.Sprintf("statement %d of the plan was never executed: %s", i+1, clip(want[i], 300)))
			return
		case i >= len(want):
			bad(fmt.Sprintf("a statement that is not in the plan was executed: %s", clip(ex[i].SQL, 300)))
			return
		}
		if got := oneStatement(ex[i].SQL, dc.d); got != want[i] {
			bad(fmt.Sprintf("statement %d of the plan is\n%s\nbut this was executed:\n%s", i+1, clip(want[i], 300), clip(got, 300)))
			return
		}
	}
	c.eval(dc.t1 + "\x00" + dc.t2)
	c.count("statements executed", int64(len(ex)))
	for _, e := range ex {
		if strings.Contains(e.SQL, ";") || strings.Contains(e.SQL, "--") {
			c.count("statements with ; or -- inside quotes", 1)
		}
		if len(e.SQL) > 65536 {
			c.count("statements over 64 KiB", 1)
		}
	}
	if sample {
		c.sample(strings.Join(run.Args, " ")+"\n"+dc.t2, dc.db.logText())
	}
}

// ---- A02: nothing without approval ----

func runA02(c *Ctx) {
	answers := []struct {
		text string
		ok   bool
	}{
		{"yes\n", true}, {"yes", true}, {"yes\nno\n", true}, {"yes\n\n\n", true},
		{"", false}, {"\n", false}, {"no\n", false}, {"y\n", false}, {"Y\n", false}, {"YES\n", false}, {"Yes\n", false}, {"yEs\n", false},
		{"yes \n", false}, {" yes\n", false}, {"\tyes\n", false}, {"yess\n", false}, {"ye\n", false}, {"yes!\n", false}, {"yes yes\n", false},
		{"no\nyes\n", false}, {"\nyes\n", false}, {"yes\x00\n", false}, {"\"yes\"\n", false}, {"'yes'\n", false}, {"true\n", false}, {"1\n", false},
		{"noyes\n", false}, {"ok\n", false}, {"ｙｅｓ\n", false}, {"yes.\n", false}, {"approve\n", false}, {"--auto-approve\n", false}, {"ye\ns\n", false},
		{strings.Repeat("yes", 40000) + "\n", false}, {strings.Repeat("n", 70000) + "\nyes\n", false}, {strings.Repeat(" ", 70000) + "yes\n", false}, {"\ufeffyes\n", false}, {"yes;\n", false}, {"yes\vno\n", false},
	}
	envs := []struct {
		set      []string
		args     []string
		approved bool
	}{
		{nil, nil, false}, {nil, nil, false}, {nil, nil, false},
		{[]string{"DDLCTL_AUTO_APPROVE=true"}, nil, true},
		{[]string{"DDLCTL_AUTO_APPROVE=1"}, nil, true},
		{[]string{"DDLCTL_AUTO_APPROVE=false"}, nil, false},
		{[]string{"DDLCTL_AUTO_APPROVE=0"}, nil, false},
		{[]string{"DDLCTL_AUTO_APPROVE="}, nil, false},
		{nil, []string{"--auto-approve"}, true},
		{nil, []string{"--auto-approve=true"}, true},
		{nil, []string{"--auto-approve=false"}, false},
		{[]string{"DDLCTL_AUTO_APPROVE=true"}, []string{"--auto-approve=false"}, false},
		{[]string{"DDLCTL_AUTO_APPROVE=false"}, []string{"--auto-approve=true"}, true},
		{[]string{"DDLCTL_DEBUG=true"}, nil, false},
		{[]string{"DDLCTL_TRACE=true"}, nil, false},
	}
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "answer-" + d.String()
			n := c.n(len(answers)*4, len(answers)*len(envs)*4)
			c.parallel(stream, n, func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				a := answers[i%len(answers)]
				e := envs[(i/len(answers)*5+i)%len(envs)]
				dc := c.dbCase(srv, r, d, editCount(r), key, 5)
				if dc == nil {
					return
				}
				defer dc.drop()
				run := runCLI(&cliRun{Args: dc.applyArgs(r, e.args...), Env: e.set, Stdin: a.text})
				approved := e.approved || a.ok
				bad := func(msg string) {
					c.violate(key, msg, fmt.Sprintf("answer %q settings %v %v\n", clip(a.text, 50), e.set, e.args)+dc.report(run))
				}
				if run.TimedOut || run.crashed() {
					bad("apply did not end properly")
					return
				}
				ex := dc.db.events("exec")
				switch {
				case dc.no:
					if len(ex) > 0 {
						bad("statements were executed although there is no difference")
						return
					}
				case !approved && len(ex) > 0:
					bad("a statement was executed without approval: " + ex[0].String())
					return
				case !approved && run.Code == 0:
					bad("a run that was not approved ended with success")
					return
				case !approved && strings.Contains(run.Stdout, "done\n"):
					bad("a run that was not approved reports that it is done")
					return
				case approved && (len(dc.executed()) != len(dc.stmts) || run.Code != 0):
					bad("an approved plan was not executed")
					return
				}
				c.eval(key)
				c.count(fmt.Sprintf("runs approved=%v no_difference=%v", approved, dc.no), 1)
				if i == 5 {
					c.sample(fmt.Sprintf("answer %q", a.text), dc.db.logText())
				}
			})
			// interactive: nothing runs before the whole plan is shown and the answer is given
			stream = "interactive-" + d.String()
			c.parallel(stream, c.n(40, 600), func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				dc := c.dbCase(srv, r, d, editCount(r), key, 5)
				if dc == nil {
					return
				}
				defer dc.drop()
				if dc.no {
					return
				}
				c.interactive(dc, key, r)
			})
		}
	})
}

// interactive answers only after the prompt was seen and some time has passed.
func (c *Ctx) interactive(dc *dbCase, key string, r *rand.Rand) {
	cmd := exec.Command(cliBin, dc.applyArgs(r)...)
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + workDir}
	cmd.Dir = workDir
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	var got strings.Builder
	buf := make([]byte, 4096)
	run := &cliRun{Args: dc.applyArgs(nil)}
	for !strings.HasSuffix(got.String(), "Enter a value: ") {
		n, err := out.Read(buf)
		got.Write(buf[:n])
		if err != nil {
			break
		}
	}
	yes := r.Intn(2) == 0
	// the answer arrives in two pieces
	time.Sleep(time.Duration(r.Intn(15)) * time.Millisecond)
	io.WriteString(in, "ye")
	time.Sleep(time.Duration(5+r.Intn(20)) * time.Millisecond)
	early := dc.db.events("exec")
	plan, shown := shownPlan(got.String())
	if yes {
		io.WriteString(in, "s\n")
	} else if r.Intn(2) == 0 {
		io.WriteString(in, "p\n")
	}
	in.Close()
	rest, _ := io.ReadAll(out)
	got.Write(rest)
	cmd.Wait()
	timer.Stop()
	run.Stdout, run.Code = got.String(), cmd.ProcessState.ExitCode()
	bad := func(msg string) { c.violate(key, msg, dc.report(run)) }
	switch {
	case len(early) > 0:
		bad("a statement was executed before the answer was given: " + early[0].String())
		return
	case !shown:
		bad("the prompt appeared without the plan")
		return
	}
	if want, err := planStatements(plan, dc.d); err != nil || strings.Join(want, "\x00") != strings.Join(dc.stmts, "\x00") {
		bad("the plan shown before the prompt is not the plan: " + dc.plan)
		return
	}
	if n := len(dc.executed()); yes && (n != len(dc.stmts) || run.Code != 0) {
		bad("the approved plan was not executed")
		return
	} else if !yes && (len(dc.db.events("exec")) > 0 || run.Code == 0) {
		bad("executed (or successful) without approval")
		return
	}
	c.eval(key)
	c.count(fmt.Sprintf("interactive runs approved=%v", yes), 1)
}
