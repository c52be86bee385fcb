package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	props["S01"] = prop{"exploration", "distinct databases whose shown schema was read by the independent interpreter and compared with what the database holds", runS01}
	props["S02"] = prop{"exploration", "distinct pairs of databases compared through every combination of database and file", runS02}
	props["S03"] = prop{"fault_enumeration", "distinct (database, failing call) runs of show and diff whose calls, output and exit status were judged", runS03}
}

// catalogable reduces a state to what the catalogue queries of a dialect can
// express (what is left out is recorded as known findings and probed), in the
// names the server itself uses.
func catalogable(s *State) *State {
	s = s.clone()
	showable(s)
	if s.D != PG {
		return s
	}
	full := func(n string) string {
		if strings.HasPrefix(n, "public.") {
			return n
		}
		return "public." + strings.ReplaceAll(n, ".", "_") // the tables of other schemas are not shown
	}
	taken := map[string]bool{}
	for _, t := range s.Tables {
		for _, k := range t.Cons {
			taken[k.Name] = true
		}
	}
	for _, ix := range s.Indexes {
		taken[ix.Name] = true
	}
	named := func(suffix string) string { // as the server names what has no name
		for i := 1; ; i++ {
			if n := fmt.Sprintf("auto%d_%s", i, suffix); !taken[n] {
				taken[n] = true
				return n
			}
		}
	}
	var order []string
	for _, t := range s.Tables {
		t.Name = full(t.Name)
		order = append(order, "t:"+t.Name)
		t.Cons = filterCons(t.Cons, func(k *Con) bool { return k.Kind != KCheck })
		for _, k := range t.Cons {
			if k.Name == "" {
				k.Name = named("key")
			}
		}
		for _, c := range t.Cols {
			switch c.Type {
			case "SERIAL":
				c.Type = "INTEGER"
			case "BIGSERIAL":
				c.Type = "BIGINT"
			case "SMALLSERIAL":
				c.Type = "SMALLINT"
			case "NUMERIC(5)":
				c.Type = "NUMERIC(5,0)"
			}
		}
	}
	for _, t := range s.Tables {
		for _, k := range t.Cons {
			if k.Kind != KFK {
				continue
			}
			k.Ref = full(k.Ref)
			if k.OnDel == "NO ACTION" {
				k.OnDel = ""
			}
			if k.OnUpd == "NO ACTION" {
				k.OnUpd = ""
			}
			ref := s.table(k.Ref)
			if ref == nil || refKey(s, k) != nil {
				continue
			}
			// what is referred to is a key
			u := &Con{Kind: KUnique, Name: named("ref")}
			for i := range k.RefCols {
				u.Cols = append(u.Cols, KeyCol{Name: k.RefCols[len(k.RefCols)-1-i]})
			}
			ref.Cons = append(ref.Cons, u)
		}
	}
	for _, ix := range s.Indexes {
		ix.Table = full(ix.Table)
		order = append(order, "i:"+ix.Name)
	}
	s.Order = order
	return s
}

// hasOddNames tells a name that the server does not quote although the tool only reads it quoted.
func hasOddNames(s *State) bool {
	odd := func(n string) bool {
		_, n = splitSchema(n)
		return n == "index"
	}
	for _, t := range s.Tables {
		if odd(t.Name) {
			return true
		}
		for _, c := range t.Cols {
			if odd(c.Name) {
				return true
			}
		}
		for _, k := range t.Cons {
			if odd(k.Name) {
				return true
			}
		}
	}
	for _, ix := range s.Indexes {
		if odd(ix.Name) {
			return true
		}
	}
	return false
}

// holdingDB is a simulated database that holds a generated schema and answers
// catalogue queries from rows, nil when the schema cannot be set up.
func (c *Ctx) holdingDB(srv *simServer, r *rand.Rand, d Dialect, hostile int) *simDB {
	g := newGen(r, d)
	g.Hostile = hostile
	m := g.schema()
	if r.Intn(40) == 0 {
		g.MaxTables = 40
		m = g.schema()
	}
	if r.Intn(25) == 0 {
		m = &State{D: d}
	}
	m = catalogable(m)
	seen := map[string]bool{}
	for _, t := range m.Tables {
		if seen[t.Name] {
			return nil
		}
		seen[t.Name] = true
	}
	if d == PG && hasOddNames(m) {
		return nil
	}
	t, ok := "", true
	if len(m.Tables) > 0 {
		if t, _, ok = c.genText(g, m, plainStyle(r)); !ok {
			return nil
		}
	}
	db := srv.db(d)
	if err := db.eng.exec(t); err != nil {
		srv.drop(db)
		return nil
	}
	if err := db.reshow(db.showText()); err != nil {
		srv.drop(db)
		return nil
	}
	return db
}

func runS01(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "show-" + d.String()
			c.parallel(stream, c.n(400, 8000), func(i int, r *rand.Rand) {
				db := c.holdingDB(srv, r, d, []int{0, 15, 60}[r.Intn(3)])
				if db == nil {
					return
				}
				defer srv.drop(db)
				c.showsAll(db, caseKey(stream, i), i == 7)
			})
		}
		for _, f := range c.findings {
			if f.Kind != "database" {
				continue
			}
			db := srv.db(dialectOf(f.Dialect))
			if err := db.eng.exec(f.Before); err != nil {
				c.count("recorded_findings_not_loaded", 1)
			} else if err := db.reshow(db.showText()); err == nil {
				c.showsAll(db, f.Key, false)
				c.count("recorded_findings_probed", 1)
			}
			srv.drop(db)
		}
	})
}

func (c *Ctx) showsAll(db *simDB, key string, sample bool) {
	run := runCLI(&cliRun{Args: []string{"show", "--dialect", db.d.String(), db.dsn()}})
	held := db.eng.S.dump()
	bad := func(msg string) {
		c.violate(key, msg, db.d.String()+"\n--- the database holds:\n"+held+"\n--- run:\n"+run.String()+"\n--- event log:\n"+db.logText())
	}
	if len(db.violated) > 0 { // the SQL engine behind the catalogue does not know the query
		c.count("catalogue query not executable", 1)
		return
	}
	if run.TimedOut || run.crashed() {
		bad("show did not end properly")
		return
	}
	if run.Code != 0 {
		bad("show failed")
		return
	}
	want := db.eng.S
	got := &State{D: db.d}
	if strings.TrimSpace(run.Stdout) != "" {
		var err error
		if got, err = interpSQL(run.Stdout, db.d); err != nil {
			bad("the shown schema is not valid: " + err.Error())
			return
		}
	}
	if df := equalStates(got, want); df != "" {
		bad("the shown schema is not what the database holds: (first=shown, second=held) " + clip(df, 600))
		return
	}
	// the tool reads it back as the same schema
	f := filepath.Join(workDir, "shown-"+db.id+".sql")
	if err := os.WriteFile(f, []byte(run.Stdout), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	args := []string{"diff", "--dialect", db.d.String(), db.dsn(), f}
	if len(key)%2 == 0 {
		args[3], args[4] = args[4], args[3]
	}
	again := runCLI(&cliRun{Args: args})
	if again.Code != 0 || again.Stdout != "" {
		c.violate(key, "the database differs from its own shown schema", db.d.String()+"\n--- the database holds:\n"+held+"\n--- shown:\n"+run.Stdout+"\n--- diff:\n"+again.String())
		return
	}
	c.eval(db.d.String() + held)
	c.count("tables shown", int64(len(want.Tables)))
	for _, t := range want.Tables {
		for _, k := range t.Cons {
			c.count(strings.ToLower(k.Kind)+" constraints shown", 1)
		}
		if t.opt("INTERLEAVE") != "" {
			c.count("interleaved tables shown", 1)
		}
	}
	c.count("indexes shown", int64(len(want.allIndexes())))
	if len(want.Tables) == 0 {
		c.count("empty databases", 1)
	}
	if sample {
		c.sample(held, run.Stdout)
	}
}

// ---- S03: show and diff only read, and report what fails ----

func runS03(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "fails-" + d.String()
			c.parallel(stream, c.n(60, 1000), func(i int, r *rand.Rand) {
				db := c.holdingDB(srv, r, d, 10)
				if db == nil {
					return
				}
				defer srv.drop(db)
				c.readsOnly(srv, db, r, caseKey(stream, i), i == 7)
			})
		}
	})
}

// readFailTexts are what the databases say when something cannot be read.
var readFailTexts = []string{
	"Error 1146 (42S02): Table 'appdb.t' doesn't exist", "Error 1356 (HY000): View 'appdb.v' references invalid table(s)", "Error 1142 (42000): SHOW command denied to user",
	"Error 1317 (70100): Query execution was interrupted", "Error 2006 (HY000): MySQL server has gone away", "Error 1049 (42000): Unknown database 'appdb'",
	"pq: relation \"t\" does not exist", "pq: permission denied for table t", "pq: canceling statement due to statement timeout", "pq: could not open relation with OID 16384",
	"pq: cache lookup failed for relation 16384", "pq: the database system is shutting down", "pq: unimplemented: this syntax", "pq: restart transaction: TransactionRetryWithProtoRefreshError",
	"spanner: code = \"NotFound\", desc = \"Table not found: t\"", "spanner: code = \"Unavailable\", desc = \"connection closed\"", "spanner: code = \"Unimplemented\"",
	"sql: no rows in result set", "context deadline exceeded", "context canceled", "unexpected EOF", "not found", "no such table", "read-only",
}

func (c *Ctx) readsOnly(srv *simServer, db *simDB, r *rand.Rand, key string, sample bool) {
	other := filepath.Join(workDir, "other-"+db.id+".sql")
	text := ""
	switch r.Intn(3) {
	case 0:
		text = db.showText()
	case 1:
		g := newGen(r, db.d)
		m := g.schema()
		t, _, ok := c.genText(g, m, plainStyle(r))
		if !ok {
			return
		}
		text = t
	}
	if err := os.WriteFile(other, []byte(text), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(other)
	args := []string{"show", "--dialect", db.d.String(), db.dsn()}
	switch r.Intn(4) {
	case 0:
		args = []string{"diff", "--dialect", db.d.String(), db.dsn(), other}
	case 1:
		args = []string{"diff", "--dialect", db.d.String(), other, db.dsn()}
	case 2:
		args = []string{"diff", "--dialect", db.d.String(), db.dsn(), db.dsn()}
	}
	held := db.eng.S.dump()
	judge := func(run *cliRun, fault string, fired bool, errText string) bool {
		ev := db.events("")
		bad := func(msg string) bool {
			c.violate(key, msg, db.d.String()+" fault: "+fault+"\n--- the database holds:\n"+held+"\n--- other source:\n"+text+"\n--- run:\n"+run.String()+"\n--- event log:\n"+db.logText())
			return false
		}
		open := map[int]bool{}
		for _, e := range ev {
			switch e.Op {
			case "open":
				if e.Err == "" {
					open[e.Conn] = true
				}
			case "close", "gone":
				delete(open, e.Conn)
			case "exec", "begin":
				return bad("a command that only reads has sent " + e.String())
			case "query":
				w := strings.ToUpper(firstWord(e.SQL))
				if w != "SELECT" && w != "SHOW" && w != "WITH" {
					return bad("a command that only reads has sent " + e.String())
				}
			}
		}
		switch {
		case run.TimedOut || run.crashed():
			return bad("the run did not end properly")
		case db.eng.S.dump() != held:
			return bad("the database was changed")
		case fired && run.Code == 0:
			return bad("a failed call was not reported by the exit status")
		case fired && run.Stdout != "":
			return bad("output in spite of a failed call: what was shown is not complete")
		case fired && !strings.Contains(run.Stderr, errText):
			return bad("the error of the database is not reported: " + errText)
		}
		return true
	}
	run := runCLI(&cliRun{Args: args})
	if len(db.violated) > 0 {
		c.count("catalogue query not executable", 1)
		return
	}
	if run.Code != 0 && !strings.Contains(run.Stderr, "Parser") {
		c.violate(key, "failed without a fault", run.String()+"\n--- event log:\n"+db.logText())
		return
	}
	if !judge(run, "none", false, "") {
		return
	}
	c.eval(strings.Join(args[:3], " ") + held)
	base := db.events("")
	clean := run
	// every call fails once, in turn
	at := r.Perm(len(base))
	if len(at) > 12 {
		at = at[:12]
	}
	for _, k := range at {
		for _, how := range []string{"call", "rows"} {
			e := base[k]
			if how == "rows" && e.Op != "query" {
				continue
			}
			db.reset()
			texts := failTexts
			if e.SQL != "" && r.Intn(2) == 0 {
				texts = readFailTexts
			}
			msg := texts[r.Intn(len(texts))] + fmt.Sprintf(" #%d", r.Intn(1000000))
			n, fired := 0, false
			db.fault = func(op, sql string) *simReply {
				n++
				if n != k+1 {
					return nil
				}
				if how == "rows" {
					rep := db.query(sql, db.args)
					if rep.Err != "" || len(rep.Rows) == 0 {
						return rep
					}
					rep.RowErr, rep.RowErrAt = msg, r.Intn(len(rep.Rows))
					fired = true
					return rep
				}
				fired = true
				return &simReply{Err: msg}
			}
			run := runCLI(&cliRun{Args: args})
			db.mu.Lock()
			db.fault = nil
			db.mu.Unlock()
			if !fired {
				c.count("fault did not happen", 1)
				if run.Stdout != clean.Stdout {
					c.violate(key, "the same database gave another output", clean.String()+"\n--- again:\n"+run.String())
				}
				continue
			}
			what := fmt.Sprintf("%s of call %d (%s) fails", how, k+1, e)
			if !judge(run, what, true, msg) {
				return
			}
			c.eval(strings.Join(args[:3], " ") + held + what)
			c.count("fault in "+e.Op, 1)
		}
	}
	if sample {
		c.sample(strings.Join(args, " "), db.logText())
	}
}

// firstWord skips comments.
func firstWord(sql string) string {
	for _, l := range strings.Split(sql, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "--") {
			continue
		}
		return strings.Fields(l)[0]
	}
	return ""
}

// ---- S02: a schema means the same wherever it is read from ----

func runS02(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "source-" + d.String()
			c.parallel(stream, c.n(200, 4000), func(i int, r *rand.Rand) {
				hostile := []int{0, 15, 60}[r.Intn(3)]
				a := c.holdingDB(srv, r, d, hostile)
				if a == nil {
					return
				}
				defer srv.drop(a)
				b := c.holdingDB(srv, r, d, hostile)
				if r.Intn(3) > 0 { // a few edits away
					if e := c.editedDB(srv, r, a, 1+r.Intn(4)); e != nil {
						if b != nil {
							srv.drop(b)
						}
						b = e
					}
				}
				if b == nil {
					return
				}
				defer srv.drop(b)
				c.sameFromAnySource(a, b, caseKey(stream, i), i == 7)
			})
		}
	})
}

// editedDB is a database that holds the schema of another one after some edits.
func (c *Ctx) editedDB(srv *simServer, r *rand.Rand, a *simDB, n int) *simDB {
	g := newGen(r, a.d)
	if len(a.eng.S.Tables) == 0 {
		return nil
	}
	m := a.eng.S.clone()
	g.raw = a.eng.Raw
	g.edits(m, n)
	m = catalogable(m)
	if a.d == PG && hasOddNames(m) {
		return nil
	}
	t := ""
	if len(m.Tables) > 0 {
		var ok bool
		if t, _, ok = c.genText(g, m, plainStyle(r)); !ok {
			return nil
		}
	}
	db := srv.db(a.d)
	if err := db.eng.exec(t); err != nil {
		srv.drop(db)
		return nil
	}
	if err := db.reshow(db.showText()); err != nil {
		srv.drop(db)
		return nil
	}
	return db
}

func (c *Ctx) sameFromAnySource(a, b *simDB, key string, sample bool) {
	lang := a.d.String()
	shown := map[*simDB]string{}
	for _, db := range []*simDB{a, b} {
		run := runCLI(&cliRun{Args: []string{"show", "--dialect", lang, db.dsn()}})
		if len(db.violated) > 0 {
			c.count("catalogue query not executable", 1)
			return
		}
		if run.Code != 0 {
			c.violate(key, "show failed", run.String()+db.logText())
			return
		}
		shown[db] = filepath.Join(workDir, "shown-"+db.id+".sql")
		if err := os.WriteFile(shown[db], []byte(run.Stdout), 0o644); err != nil {
			panic(err)
		}
		defer os.Remove(shown[db])
	}
	var ref *cliRun
	for k, args := range [][]string{{a.dsn(), b.dsn()}, {a.dsn(), shown[b]}, {shown[a], b.dsn()}, {shown[a], shown[b]}} {
		run := runCLI(&cliRun{Args: append([]string{"diff", "--dialect", lang}, args...)})
		if ref == nil {
			ref = run
		}
		if run.Code != ref.Code || run.Stdout != ref.Stdout || run.TimedOut || run.crashed() {
			c.violate(key, fmt.Sprintf("the difference depends on where the schemas are read from (form %d)", k), lang+"\n--- both from databases:\n"+ref.String()+"\n--- otherwise:\n"+run.String()+"\n--- first database:\n"+a.eng.S.dump()+"\n--- second database:\n"+b.eng.S.dump())
			return
		}
	}
	if ref.Code != 0 {
		c.violate(key, "the shown schemas cannot be compared", lang+"\n"+ref.String()+"\n--- first database:\n"+a.eng.S.dump()+"\n--- second database:\n"+b.eng.S.dump())
		return
	}
	c.eval(lang + a.eng.S.dump() + b.eng.S.dump())
	if ref.Stdout != "" {
		c.count("differences compared", 1)
	}
	if sample {
		c.sample(a.eng.S.dump()+"\n---\n"+b.eng.S.dump(), ref.Stdout)
	}
}
