package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// index of the plan statement a call executes, -1 when it is none.
func (dc *dbCase) index(sql string) int {
	got := oneStatement(sql, dc.d)
	for i, s := range dc.stmts {
		if s == got {
			return i
		}
	}
	return -1
}

func (dc *dbCase) uniqueStatements() bool {
	seen := map[string]bool{}
	for _, s := range dc.stmts {
		if seen[s] {
			return false
		}
		seen[s] = true
	}
	return true
}

// fault plans -----------------------------------------------------------------

type faultPlan struct {
	name string
	// f is called under the lock of the database, before a call is carried out
	f func(op, sql string) *simReply
}

var failTexts = []string{
	"ERROR: permission denied", "Error 1064 (42000): You have an error in your SQL syntax", "relation \"x\" does not exist", "deadlock found; 100%s %d %!v(MISSING)",
	"Error 1062 (23000): Duplicate entry '1' for key 'PRIMARY'", "Error 1061 (42000): Duplicate key name 'i'", "column \"a\" contains null values", "connection reset by peer",
	"Error 1215 (HY000): Cannot add foreign key constraint", "lock timeout", "EOF", "already", "exists",
	"spanner: code = \"FailedPrecondition\", desc = \"Duplicate name in schema: users.\"", "rpc error: code = AlreadyExists desc = Table users was created by another change", "spanner: code = \"NotFound\", desc = \"Table not found: users\"",
	"spanner: code = \"Aborted\", desc = \"Transaction was aborted\"", "rpc error: code = DeadlineExceeded desc = context deadline exceeded", "context canceled", "ERROR: relation \"i\" already present (SQLSTATE 42P07)",
	"ERROR: column \"a\" of relation \"t\" does not exist (SQLSTATE 42703)", "ERROR: cannot drop table t because other objects depend on it (SQLSTATE 2BP01)", "Error 1091 (42000): Can't DROP 'x'; check that column/key exists", "Error 1146 (42S02): Table 'db.t' doesn't exist",
	"Error 1205 (HY000): Lock wait timeout exceeded; try restarting transaction", "restart transaction: TransactionRetryWithProtoRefreshError (SQLSTATE 40001)", "ERROR: duplicate key value violates unique constraint (SQLSTATE 23505)",
}

var existsTexts = []string{"Error 1050 (42S01): Table 'users' already exists", "Error 1060 (42S21): Duplicate column name 'age'", "relation \"users\" already exists"}

func tolerated(d Dialect, msg string) bool {
	return d == MY && (strings.Contains(msg, "already exists") || strings.Contains(msg, "Duplicate column name"))
}

// makeFault draws a fault for an apply run.
func (dc *dbCase) makeFault(r *rand.Rand) faultPlan {
	fail := func() string { return failTexts[r.Intn(len(failTexts))] }
	n := len(dc.stmts)
	target := r.Intn(n)
	nth := func(op string, k int, rep *simReply) func(string, string) *simReply {
		seen := 0
		return func(o, _ string) *simReply {
			if o != op {
				return nil
			}
			seen++
			if seen == k {
				return rep
			}
			return nil
		}
	}
	if dc.d == SP && r.Intn(4) == 0 {
		e := fail()
		w := []string{"START BATCH DDL", "RUN BATCH", "RUN BATCH"}[r.Intn(3)]
		return faultPlan{w + " fails", func(op, sql string) *simReply {
			if op == "exec" && isBatchWord(sql) && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(sql)), w) {
				return &simReply{Err: e}
			}
			return nil
		}}
	}
	switch r.Intn(13) {
	case 0:
		k := 1 + r.Intn(2)
		return faultPlan{fmt.Sprintf("open %d refused", k), nth("open", k, &simReply{Err: fail()})}
	case 1:
		k := 1 + r.Intn(2)
		return faultPlan{fmt.Sprintf("ping %d fails", k), nth("ping", k, &simReply{Err: fail()})}
	case 2:
		k := 1 + r.Intn(3)
		return faultPlan{fmt.Sprintf("query %d fails", k), nth("query", k, &simReply{Err: fail()})}
	case 3:
		k := 1 + r.Intn(3)
		seen := 0
		e := fail()
		return faultPlan{fmt.Sprintf("reading the rows of query %d fails", k), func(op, sql string) *simReply {
			if op != "query" {
				return nil
			}
			if seen++; seen != k {
				return nil
			}
			rep := dc.db.query(sql, dc.db.args)
			at := len(rep.Rows)
			if dc.d != MY || k == 1 { // there is exactly one row otherwise, nobody has to ask for another
				at++
			}
			if at > 0 {
				rep.RowErr, rep.RowErrAt = e, r.Intn(at)
			}
			return rep
		}}
	case 4, 5:
		e := fail()
		return faultPlan{fmt.Sprintf("statement %d fails for good", target+1), func(op, sql string) *simReply {
			if op == "exec" && dc.index(sql) == target {
				return &simReply{Err: e}
			}
			return nil
		}}
	case 6, 7:
		times := 1 + r.Intn(n)
		if times > 3 {
			times = 3
		}
		e := fail()
		seen := 0
		return faultPlan{fmt.Sprintf("statement %d fails %d times", target+1, times), func(op, sql string) *simReply {
			if op == "exec" && dc.index(sql) == target {
				if seen++; seen <= times {
					return &simReply{Err: e}
				}
			}
			return nil
		}}
	case 8:
		e := existsTexts[r.Intn(len(existsTexts))]
		return faultPlan{fmt.Sprintf("statement %d: %s", target+1, e), func(op, sql string) *simReply {
			if op == "exec" && dc.index(sql) == target {
				return &simReply{Err: e}
			}
			return nil
		}}
	case 9: // each statement fails until a later one has been executed
		e := fail()
		need := make([]int, n)
		for i := range need {
			need[i] = -1
			if i+1 < n && r.Intn(2) == 0 {
				need[i] = i + 1 + r.Intn(n-i-1)
			}
		}
		done := map[int]bool{}
		return faultPlan{fmt.Sprintf("statements wait for later ones %v", need), func(op, sql string) *simReply {
			if op != "exec" {
				return nil
			}
			i := dc.index(sql)
			if i < 0 {
				return nil
			}
			if need[i] >= 0 && !done[need[i]] {
				return &simReply{Err: e}
			}
			done[i] = true
			return nil
		}}
	case 10:
		k := 1 + r.Intn(n+1)
		return faultPlan{fmt.Sprintf("the connection breaks at exec %d", k), nth("exec", k, &simReply{Bad: true})}
	case 11:
		e := fail()
		k := 1 + r.Intn(2)
		return faultPlan{fmt.Sprintf("close %d fails", k), nth("close", k, &simReply{Err: e})}
	}
	// any mix of failures
	e := fail()
	bad := map[int]int{}
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			bad[i] = 1 + r.Intn(2)
			if r.Intn(3) == 0 {
				bad[i] = 1000
			}
		}
	}
	name := fmt.Sprintf("statements fail so many times: %v", bad)
	return faultPlan{name, func(op, sql string) *simReply {
		if op != "exec" {
			return nil
		}
		if i := dc.index(sql); i >= 0 && bad[i] > 0 {
			bad[i]--
			return &simReply{Err: e}
		}
		return nil
	}}
}

// smallPlan builds a case with a plan of a few statements.
func (c *Ctx) smallPlan(srv *simServer, r *rand.Rand, d Dialect, key string, min, max int) *dbCase {
	for try := 0; try < 12; try++ {
		n := []int{-1, 1, 2, 3, 4}[r.Intn(5)]
		dc := c.dbCase(srv, r, d, n, key, 3)
		if dc == nil {
			continue
		}
		if len(dc.stmts) >= min && len(dc.stmts) <= max && dc.uniqueStatements() {
			return dc
		}
		dc.drop()
	}
	return nil
}

func (c *Ctx) faultRun(dc *dbCase, fp faultPlan, r *rand.Rand) *cliRun {
	dc.db.mu.Lock()
	dc.db.fault = fp.f
	dc.db.mu.Unlock()
	return runCLI(&cliRun{Args: dc.applyArgs(r, "--auto-approve")})
}

// ---- A03: the outcome is told honestly ----

func runA03(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "fault-" + d.String()
			c.parallelN(stream, c.n(420, 6000), 48, func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				dc := c.smallPlan(srv, r, d, key, 1, 5)
				if dc == nil {
					return
				}
				defer dc.drop()
				fp := dc.makeFault(r)
				c.honest(dc, fp, c.faultRun(dc, fp, r), key, i == 4)
			})
		}
	})
}

func (c *Ctx) honest(dc *dbCase, fp faultPlan, run *cliRun, key string, sample bool) {
	bad := func(msg string) { c.violate(key, msg, "fault: "+fp.name+"\n"+dc.report(run)) }
	if run.TimedOut || run.crashed() {
		bad("apply did not end properly")
		return
	}
	log := dc.db.events("")
	// what went wrong for good, judged from the calls and their answers
	problem := ""
	last := map[int]string{}
	tried := map[int]bool{}
	batch := map[string]string{"START BATCH DDL": "never", "RUN BATCH": "never"}
	opens, okOpens := 0, 0
	for _, e := range log {
		switch e.Op {
		case "open":
			opens++
			if e.Err == "" {
				okOpens++
			} else if e.Err != "driver: bad connection" {
				problem = "open: " + e.Err
			}
		case "ping", "query":
			if e.Err != "" && e.Err != "driver: bad connection" {
				problem = e.Op + ": " + e.Err
			}
		case "close":
			if e.Err != "" {
				problem = "close: " + e.Err
			}
		case "exec":
			if dc.d == SP && isBatchWord(e.SQL) {
				batch[strings.ToUpper(strings.TrimSpace(e.SQL))] = e.Err
				continue
			}
			i := dc.index(e.SQL)
			if i < 0 {
				bad("a statement that is not in the plan was executed: " + clip(e.SQL, 200))
				return
			}
			if tried[i] && last[i] == "" {
				continue // already executed: judged by another property
			}
			tried[i], last[i] = true, e.Err
			if tolerated(dc.d, e.Err) {
				last[i] = ""
			}
		}
	}
	ranAny := len(tried) > 0
	if problem == "" {
		for i := range dc.stmts {
			if !tried[i] {
				problem = fmt.Sprintf("statement %d was never executed", i+1)
			} else if last[i] != "" {
				problem = fmt.Sprintf("statement %d never succeeded: %s", i+1, last[i])
			}
		}
		if dc.d == SP {
			for _, k := range []string{"START BATCH DDL", "RUN BATCH"} {
				if batch[k] != "" && (problem == "" || batch[k] != "never") {
					problem = k + ": " + batch[k]
				}
			}
		}
	}
	done := strings.Contains(run.Stdout, "done\n")
	c.count("ended with success="+fmt.Sprint(run.Code == 0), 1)
	switch {
	case problem != "" && run.Code == 0:
		bad("apply reports success (exit status 0) although: " + problem)
		return
	case problem != "" && done && !strings.HasPrefix(problem, "close"):
		bad("apply prints that it is done although: " + problem)
		return
	case problem == "" && run.Code != 0:
		bad("apply reports a failure although every statement took effect")
		return
	case problem == "" && !done:
		bad("apply succeeded without saying so")
		return
	case problem != "" && strings.TrimSpace(run.Stderr) == "":
		bad("the failure is not explained on the error output: " + problem)
		return
	}
	if problem != "" {
		msg := problem[strings.LastIndex(problem, ": ")+2:]
		if i := strings.Index(problem, ": "); i >= 0 {
			msg = problem[i+2:]
		}
		if (strings.HasPrefix(problem, "statement") || strings.HasPrefix(problem, "query") || strings.HasPrefix(problem, "open") || strings.HasPrefix(problem, "ping") || strings.HasPrefix(problem, "RUN BATCH") || strings.HasPrefix(problem, "START BATCH")) && !strings.Contains(problem, "never executed") && msg != "never" && !strings.Contains(msg, "bad connection") && !strings.Contains(run.Stderr, msg) {
			bad("the error of the database is not shown: " + msg)
			return
		}
	}
	if (strings.HasPrefix(problem, "query") || okOpens == 0) && ranAny {
		bad("statements were executed although the database could not be read: " + problem)
		return
	}
	c.eval(dc.d.String() + fp.name + dc.plan)
	f := strings.Fields(fp.name)
	c.count("fault "+f[0]+" "+f[len(f)-1], 1)
	if sample {
		c.sample("fault: "+fp.name+"\nplan:\n"+dc.plan, dc.db.logText())
	}
}

// ---- A04: retries ----

func runA04(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range []Dialect{PG, CR, MY} {
			d := d
			stream := "retry-" + d.String()
			c.parallelN(stream, c.n(300, 5000), 64, func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				dc := c.smallPlan(srv, r, d, key, 2, 6)
				if dc == nil {
					return
				}
				defer dc.drop()
				var fp faultPlan
				for {
					fp = dc.makeFault(r)
					if strings.HasPrefix(fp.name, "statement") {
						break
					}
				}
				c.retries(dc, fp, c.faultRun(dc, fp, r), key, i == 4)
			})
		}
	})
}

func (c *Ctx) retries(dc *dbCase, fp faultPlan, run *cliRun, key string, sample bool) {
	bad := func(msg string) { c.violate(key, msg, "fault: "+fp.name+"\n"+dc.report(run)) }
	if run.TimedOut || run.crashed() {
		bad("apply did not end properly")
		return
	}
	n := len(dc.stmts)
	attempts := make([]int, n)
	took := make([]bool, n)
	var order []int
	for _, e := range dc.executed() {
		i := dc.index(e.SQL)
		if i < 0 {
			bad("a statement that is not in the plan was executed: " + clip(e.SQL, 200))
			return
		}
		if took[i] {
			bad(fmt.Sprintf("statement %d had already been executed and is executed again: %s", i+1, clip(e.SQL, 200)))
			return
		}
		attempts[i]++
		order = append(order, i)
		if e.Err == "" || tolerated(dc.d, e.Err) {
			took[i] = true
		}
	}
	// passes: within one pass every pending statement is tried, in plan order
	pending := make([]bool, n)
	for i := range pending {
		pending[i] = true
	}
	passes := 0
	ok := make([]bool, n)
	k := 0
	ev := dc.executed()
	for k < len(order) {
		passes++
		for i := 0; i < n; i++ {
			if !pending[i] {
				continue
			}
			if k >= len(order) {
				bad(fmt.Sprintf("statement %d was not tried in pass %d", i+1, passes))
				return
			}
			if order[k] != i {
				bad(fmt.Sprintf("pass %d tries statement %d when statement %d of the plan is next", passes, order[k]+1, i+1))
				return
			}
			if ev[k].Err == "" || tolerated(dc.d, ev[k].Err) {
				ok[i] = true
			}
			k++
		}
		for i := range pending {
			pending[i] = pending[i] && !ok[i]
		}
	}
	all := true
	for i := range ok {
		all = all && ok[i]
	}
	if passes > n+3 {
		bad(fmt.Sprintf("%d passes over a plan of %d statements", passes, n))
		return
	}
	if !all && passes < n {
		bad(fmt.Sprintf("gave up after %d passes over a plan of %d statements: statements that wait for others cannot all get their turn", passes, n))
		return
	}
	c.eval(dc.d.String() + fp.name + dc.plan)
	c.count("passes", int64(passes))
	c.count(fmt.Sprintf("runs with %d passes", passes), 1)
	if sample {
		c.sample("fault: "+fp.name+"\nplan:\n"+dc.plan, dc.db.logText())
	}
}

// ---- A05: spanner batch protocol ----

func runA05(c *Ctx) {
	c.withServer(func(srv *simServer) {
		c.parallel("batch", c.n(500, 10000), func(i int, r *rand.Rand) {
			key := caseKey("batch", i)
			dc := c.smallPlan(srv, r, SP, key, 1, 8)
			if dc == nil {
				return
			}
			defer dc.drop()
			fp := faultPlan{name: "none"}
			switch r.Intn(4) {
			case 0:
				k, e, seen := 1+r.Intn(len(dc.stmts)+2), failTexts[r.Intn(len(failTexts))], 0
				fp = faultPlan{fmt.Sprintf("exec %d fails: %s", k, e), func(op, _ string) *simReply {
					if op == "exec" {
						if seen++; seen == k {
							return &simReply{Err: e}
						}
					}
					return nil
				}}
			}
			c.batchProtocol(dc, fp, c.faultRun(dc, fp, r), key, i == 4)
		})
	})
}

func (c *Ctx) batchProtocol(dc *dbCase, fp faultPlan, run *cliRun, key string, sample bool) {
	bad := func(msg string) { c.violate(key, msg, "fault: "+fp.name+"\n"+dc.report(run)) }
	if run.TimedOut || run.crashed() {
		bad("apply did not end properly")
		return
	}
	const (
		before = iota
		inBatch
		ran
		failed
	)
	st, conn, next := before, 0, 0
	for _, e := range dc.db.events("exec") {
		word := strings.ToUpper(strings.TrimSpace(e.SQL))
		if st == failed {
			if word == "ABORT BATCH" {
				continue
			}
			bad("after a failed call this was executed: " + e.String())
			return
		}
		if conn == 0 {
			conn = e.Conn
		}
		if e.Conn != conn {
			bad("the batch is spread over several connections: " + e.String())
			return
		}
		switch {
		case word == "START BATCH DDL":
			if st != before {
				bad("a second batch is started")
				return
			}
			st = inBatch
		case word == "RUN BATCH":
			if st != inBatch || next != len(dc.stmts) {
				bad(fmt.Sprintf("the batch is run with %d of %d statements", next, len(dc.stmts)))
				return
			}
			st = ran
		default:
			if st != inBatch {
				bad("a statement is executed outside of the batch: " + e.String())
				return
			}
			if next >= len(dc.stmts) || oneStatement(e.SQL, SP) != dc.stmts[next] {
				bad(fmt.Sprintf("call %d of the batch is not the statement of the plan: %s", next+1, e.String()))
				return
			}
			next++
		}
		if e.Err != "" {
			st = failed
		}
	}
	if (st == ran) != (run.Code == 0) {
		bad("the exit status does not tell whether the batch was run")
		return
	}
	if st != ran && st != failed {
		bad("the batch was not run")
		return
	}
	c.eval(fp.name + dc.plan)
	c.count("batches run", boolInt(st == ran))
	c.count("batches broken off", boolInt(st == failed))
	c.count("statements batched", int64(next))
	if sample {
		c.sample("fault: "+fp.name+"\nplan:\n"+dc.plan, dc.db.logText())
	}
}

// ---- A06: the database ends up as desired ----

func runA06(c *Ctx) {
	c.withServer(func(srv *simServer) {
		for _, d := range allDialects {
			d := d
			stream := "converge-" + d.String()
			c.parallel(stream, c.n(350, 8000), func(i int, r *rand.Rand) {
				key := caseKey(stream, i)
				hostile := []int{0, 15, 40}[r.Intn(3)]
				if dc := c.dbCase(srv, r, d, editCount(r), key, hostile); dc != nil {
					dc.db.semantics = true
					c.appliesFully(dc, key, r, i == 4)
					dc.drop()
				}
			})
		}
	})
}

func (c *Ctx) appliesFully(dc *dbCase, key string, r *rand.Rand, sample bool) {
	run := runCLI(&cliRun{Args: dc.applyArgs(r, "--auto-approve")})
	bad := func(msg string) { c.violate(key, msg, dc.report(run)) }
	if run.TimedOut || run.crashed() {
		bad("apply did not end properly")
		return
	}
	if run.Code != 0 {
		bad("apply failed")
		return
	}
	want := wantedState(dc.st1, dc.st2)
	dc.db.mu.Lock()
	got := dc.db.eng.S.clone()
	dc.db.mu.Unlock()
	if df := equalStates(got, want); df != "" {
		bad("the database is not the desired schema: (first=database, second=desired) " + clip(df, 600))
		return
	}
	n := len(dc.executed())
	// again: nothing is left to do
	first := dc.db.logText()
	dc.db.reset()
	again := runCLI(&cliRun{Args: dc.applyArgs(r, "--auto-approve")})
	if again.Code != 0 || len(dc.db.events("exec")) > 0 {
		c.violate(key, "applying the same schema again is not a no-op", "first run:\n"+first+"\nsecond run:\n"+dc.report(again))
		return
	}
	if strings.Contains(again.Stdout, planStart) {
		c.violate(key, "applying the same schema again shows a plan", "first run:\n"+first+"\nsecond run:\n"+dc.report(again))
		return
	}
	df := runCLI(&cliRun{Args: []string{"diff", "--dialect", dc.d.String(), dc.db.dsn(), dc.after}})
	if df.Code != 0 || df.Stdout != "" {
		c.violate(key, "diff still reports a difference after apply", "first run:\n"+first+"\ndiff:\n"+dc.report(df))
		return
	}
	c.eval(dc.d.String() + dc.t1 + "\x00" + dc.t2)
	c.count("statements executed", int64(n))
	if dc.no {
		c.count("no difference", 1)
	}
	if sample {
		c.sample(dc.t1+"\n-->\n"+dc.t2, first)
	}
}
