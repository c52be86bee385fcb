package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A simulated database server: the tool's own process talks to it through the
// stand-in driver. It records every call (the event log the monitors judge),
// executes the statements on a model database and injects faults.

type simEvent struct {
	Op   string // open ping exec query close begin commit rollback
	Conn int
	SQL  string
	Err  string // what the server answered
}

func (e simEvent) String() string {
	s := fmt.Sprintf("conn%d %s", e.Conn, e.Op)
	if e.SQL != "" {
		s += " " + fmt.Sprintf("%q", clip(e.SQL, 300))
	}
	if e.Err != "" {
		s += " -> error " + fmt.Sprintf("%q", clip(e.Err, 200))
	}
	return s
}

type simReply struct {
	Err      string   `json:"err,omitempty"`
	Bad      bool     `json:"bad,omitempty"`
	Cols     []string `json:"cols,omitempty"`
	Rows     [][]any  `json:"rows,omitempty"`
	RowErr   string   `json:"row_err,omitempty"`
	RowErrAt int      `json:"row_err_at,omitempty"`
}

type simDB struct {
	id  string
	d   Dialect
	srv *simServer

	mu      sync.Mutex
	log     []simEvent
	conns   int
	open    int
	eng     *Engine
	version int
	catalog map[string]catTable // nil: derived from the state
	raw     bool                // postgres: the catalogue query is answered with rendered statements instead of being executed
	// fault decides the answer of a call; nil: the call is carried out
	fault func(op, sql string) *simReply
	// onExec tells the error a statement gets from the model database, "" when fine
	semantics bool // statements are executed by the model database (an error of it is answered)
	violated  []string
	args      []string // arguments of the current call
	batch     map[int][]string
}

type catTable struct {
	Cols []string `json:"cols"`
	Rows [][]any  `json:"rows"`
}

type simServer struct {
	l             net.Listener
	sock          string
	mu            sync.Mutex
	dbs           map[string]*simDB
	next          int64
	opened, calls int64
	cats          chan *catWorker
	all           []*catWorker
}

func newSimServer(workers int) (*simServer, error) {
	dir, err := os.MkdirTemp("", "sim")
	if err != nil {
		return nil, err
	}
	s := &simServer{sock: filepath.Join(dir, "s"), dbs: map[string]*simDB{}, cats: make(chan *catWorker, workers)}
	if s.l, err = net.Listen("unix", s.sock); err != nil {
		return nil, err
	}
	for i := 0; i < workers; i++ {
		w, err := newCatWorker()
		if err != nil {
			return nil, err
		}
		s.all = append(s.all, w)
		s.cats <- w
	}
	go func() {
		for {
			c, err := s.l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *simServer) close() {
	s.l.Close()
	os.RemoveAll(filepath.Dir(s.sock))
	for _, w := range s.all {
		w.in.Close()
		w.cmd.Wait()
	}
}

func (s *simServer) db(d Dialect) *simDB {
	db := &simDB{d: d, srv: s, id: fmt.Sprint(atomic.AddInt64(&s.next, 1)), eng: newDBEngine(d), batch: map[int][]string{}}
	s.mu.Lock()
	s.dbs[db.id] = db
	s.mu.Unlock()
	return db
}

func (s *simServer) drop(db *simDB) {
	s.mu.Lock()
	delete(s.dbs, db.id)
	s.mu.Unlock()
}

func (db *simDB) dsn() string { return "fakedb:" + db.srv.sock + "|" + db.id }

func (s *simServer) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReaderSize(c, 1<<16)
	var db *simDB
	conn := 0
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			if db != nil && conn > 0 {
				db.gone(conn)
			}
			return
		}
		var m struct {
			ID, Driver, Op, SQL string
			Args                []string
		}
		if err := json.Unmarshal(line, &m); err != nil {
			return
		}
		atomic.AddInt64(&s.calls, 1)
		var rep *simReply
		if m.Op == "open" {
			s.mu.Lock()
			db = s.dbs[m.ID]
			s.mu.Unlock()
			if db == nil {
				rep = &simReply{Err: "fakedb: no such database"}
			} else {
				atomic.AddInt64(&s.opened, 1)
				conn, rep = db.open_(m.Driver)
			}
		} else {
			rep = db.handle(conn, m.Op, m.SQL, m.Args)
			if m.Op == "close" {
				conn = 0
			}
		}
		b, _ := json.Marshal(rep)
		if _, err := c.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

func (db *simDB) record(e simEvent) {
	db.log = append(db.log, e)
}

func (db *simDB) open_(driver string) (int, *simReply) {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.conns++
	rep := &simReply{}
	want := map[Dialect]string{PG: "postgres", CR: "postgres", MY: "mysql", SP: "spanner"}[db.d]
	if driver != want {
		rep.Err = "wrong driver " + driver
	}
	if f := db.tryFault("open", ""); f != nil {
		rep = f
	}
	db.record(simEvent{Op: "open", Conn: db.conns, Err: rep.errText()})
	if rep.Err == "" && !rep.Bad {
		db.open++
	}
	return db.conns, rep
}

func (r *simReply) errText() string {
	if r.Bad {
		return "driver: bad connection"
	}
	if r.Err != "" {
		return r.Err
	}
	if r.RowErr != "" {
		return r.RowErr
	}
	return ""
}

func (db *simDB) gone(conn int) {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.open--
	delete(db.batch, conn)
	db.record(simEvent{Op: "gone", Conn: conn})
}

func (db *simDB) tryFault(op, sql string) *simReply {
	if db.fault == nil {
		return nil
	}
	return db.fault(op, sql)
}

func (db *simDB) handle(conn int, op, sql string, args []string) *simReply {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.args = args
	rep := db.tryFault(op, sql)
	if rep == nil {
		switch op {
		case "exec":
			rep = db.exec(conn, sql)
		case "query":
			rep = db.query(sql, args)
		default:
			rep = &simReply{}
		}
	}
	if op == "close" {
		db.open--
		delete(db.batch, conn)
	}
	if len(args) > 0 {
		sql += "  -- args: " + strings.Join(args, ", ")
	}
	db.record(simEvent{Op: op, Conn: conn, SQL: sql, Err: rep.errText()})
	return rep
}

func (db *simDB) exec(conn int, sql string) *simReply {
	if db.d == SP {
		switch strings.ToUpper(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(sql), ";"))) {
		case "START BATCH DDL":
			if _, ok := db.batch[conn]; ok {
				return &simReply{Err: "spanner: this connection already has an active batch"}
			}
			db.batch[conn] = []string{}
			return &simReply{}
		case "RUN BATCH":
			b, ok := db.batch[conn]
			if !ok {
				return &simReply{Err: "spanner: this connection does not have an active batch"}
			}
			delete(db.batch, conn)
			for _, q := range b {
				if rep := db.apply(q); rep.Err != "" {
					return rep
				}
			}
			return &simReply{}
		case "ABORT BATCH":
			delete(db.batch, conn)
			return &simReply{}
		}
		if b, ok := db.batch[conn]; ok {
			db.batch[conn] = append(b, sql)
			return &simReply{}
		}
	}
	return db.apply(sql)
}

func (db *simDB) apply(sql string) *simReply {
	if !db.semantics {
		return &simReply{}
	}
	db.version++
	if err := db.eng.exec(sql); err != nil {
		return &simReply{Err: err.Error()}
	}
	return &simReply{}
}

var reShowTable = regexp.MustCompile("(?is)^\\s*SHOW\\s+CREATE\\s+TABLE\\s+(.*?)\\s*;?\\s*$")

func (db *simDB) query(sql string, args []string) *simReply {
	toks, err := lexSQL(sql, db.d)
	if err != nil {
		return &simReply{Err: "syntax error: " + err.Error()}
	}
	c := &cursor{t: toks, d: db.d}
	switch {
	case db.d == CR && c.isKws("SHOW", "CREATE", "ALL", "TABLES"):
		rep := &simReply{Cols: []string{"create_statement"}}
		for _, s := range db.showStatements() {
			rep.Rows = append(rep.Rows, []any{s})
		}
		return rep
	case db.d == MY && c.isKws("SHOW", "CREATE", "TABLE"):
		c.need("SHOW", "CREATE", "TABLE")
		name := c.peek()
		if name.K != 'q' && name.K != 'w' {
			return &simReply{Err: "Error 1064 (42000): You have an error in your SQL syntax"}
		}
		for i, t := range db.showNames() {
			if t == name.S {
				return &simReply{Cols: []string{"Table", "Create Table"}, Rows: [][]any{{t, strings.TrimSuffix(strings.TrimSpace(db.showStatements()[i]), ";")}}}
			}
		}
		if name.S == "a_view" {
			return &simReply{Cols: []string{"View", "Create View", "character_set_client", "collation_connection"}, Rows: [][]any{{"a_view", "CREATE VIEW `a_view` AS select 1 AS `seen`", "utf8mb4", "utf8mb4_bin"}}}
		}
		return &simReply{Err: "Error 1146 (42S02): Table 'appdb." + name.S + "' doesn't exist"}
	}
	if db.raw && db.d == PG {
		rep := &simReply{Cols: []string{"create_statement"}}
		if strings.Contains(strings.ToLower(sql), "pg_indexes") {
			for _, ix := range db.eng.S.Indexes {
				t := renderServer(&State{D: db.d, Indexes: []*Index{ix}, Order: []string{"i:" + ix.Name}}, db.eng.Raw)
				rep.Rows = append(rep.Rows, []any{strings.TrimSuffix(t, ";")})
			}
			return rep
		}
		for _, s := range db.showStatements() {
			rep.Rows = append(rep.Rows, []any{s})
		}
		return rep
	}
	return db.catalogQuery(sql, args)
}

// showStatements are the CREATE statements the server itself renders.
func (db *simDB) showStatements() []string { return serverStatements(db.eng.S, db.eng.Raw) }

func (db *simDB) showNames() []string {
	var out []string
	for _, t := range db.eng.S.Tables {
		out = append(out, t.Name)
	}
	return out
}

// showText is the whole schema as the server renders it.
func (db *simDB) showText() string {
	out := strings.Join(db.showStatements(), "\n")
	if db.d == PG {
		for _, ix := range db.eng.S.Indexes {
			out += "\n" + renderServer(&State{D: db.d, Indexes: []*Index{ix}, Order: []string{"i:" + ix.Name}}, db.eng.Raw)
		}
	}
	return out
}

func (db *simDB) catalogQuery(sql string, args []string) *simReply {
	cat := db.catalog
	if cat == nil {
		cat = catalogOf(db.eng.S, db.eng.Raw)
	}
	w := <-db.srv.cats
	defer func() { db.srv.cats <- w }()
	rep, err := w.query(fmt.Sprintf("%s/%d", db.id, db.version), db.d.String(), cat, sql, args)
	if err != nil {
		return &simReply{Err: "catalogue: " + err.Error()}
	}
	if strings.HasPrefix(rep.Err, "SystemError: harness") {
		panic("the simulated catalogue cannot be built: " + rep.Err)
	}
	if rep.Err != "" {
		db.violated = append(db.violated, rep.Err+" in "+sql)
	}
	return rep
}

// ---- catalogue workers

type catWorker struct {
	cmd *exec.Cmd
	in  interface {
		Write([]byte) (int, error)
		Close() error
	}
	out *bufio.Reader
}

func newCatWorker() (*catWorker, error) {
	cmd := exec.Command("python3", filepath.Join(verifDir, "lib", "catalog.py"))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &catWorker{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (w *catWorker) query(key, dialect string, cat map[string]catTable, sql string, args []string) (*simReply, error) {
	b, err := json.Marshal(map[string]any{"key": key, "dialect": dialect, "catalog": cat, "sql": sql, "args": args})
	if err != nil {
		return nil, err
	}
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	rep := &simReply{}
	if err := json.Unmarshal(line, rep); err != nil {
		return nil, err
	}
	return rep, nil
}

// ---- running the command line tool

type cliRun struct {
	Args     []string
	Env      []string
	Stdin    string
	NoStdin  bool
	Dir      string
	Shell    string // shell text to run before the tool
	OnPrompt func() // called when the prompt appears, before Stdin is sent
	Stdout   string
	Stderr   string
	Code     int
	TimedOut bool
	Took     time.Duration
}

func (r *cliRun) String() string {
	return fmt.Sprintf("$ %s ddlctl %q   (stdin %q)\n--- exit status %d, stdout:\n%s\n--- stderr:\n%s", strings.Join(r.Env, " "), r.Args, clip(r.Stdin, 100), r.Code, r.Stdout, clip(r.Stderr, 3000))
}

var cliBin = filepath.Join(envOr("VERIF_BUILD", "."), "ddlctl")

// runCLI runs the tool; two minutes without an end are reported by TimedOut.
func runCLI(r *cliRun) *cliRun {
	cmd := exec.Command(cliBin, r.Args...)
	if r.Shell != "" {
		cmd = exec.Command("/bin/bash", append([]string{"-c", r.Shell + `exec "$0" "$@"`, cliBin}, r.Args...)...)
	}
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + workDir, "TMPDIR=" + os.Getenv("TMPDIR")}, r.Env...)
	cmd.Dir = r.Dir
	if cmd.Dir == "" {
		cmd.Dir = workDir
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if r.OnPrompt != nil {
		in, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		cmd.Stdout = &promptWriter{buf: &so, seen: func() {
			r.OnPrompt()
			io.WriteString(in, r.Stdin)
			in.Close()
		}}
	} else if !r.NoStdin {
		cmd.Stdin = strings.NewReader(r.Stdin)
	}
	start := time.Now()
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start the tool:", err)
		os.Exit(2)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		r.TimedOut = true
	}
	r.Took = time.Since(start)
	r.Stdout, r.Stderr = so.String(), se.String()
	r.Code = cmd.ProcessState.ExitCode()
	return r
}

type promptWriter struct {
	buf  *bytes.Buffer
	seen func()
}

func (w *promptWriter) Write(p []byte) (int, error) {
	w.buf.Write(p)
	if w.seen != nil && bytes.HasSuffix(w.buf.Bytes(), []byte("Enter a value: ")) {
		w.seen()
		w.seen = nil
	}
	return len(p), nil
}

// crashed tells a Go runtime crash from an orderly error exit.
func (r *cliRun) crashed() bool {
	return strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic: ") || strings.Contains(r.Stderr, "fatal error: "))
}

func newDBEngine(d Dialect) *Engine {
	e := newEngine(d, false)
	e.Raw = map[string]string{}
	return e
}

// reshow makes the database hold what it shows: the server keeps the indexes
// that its SHOW CREATE TABLE prints inside a table as part of that table.
func (db *simDB) reshow(shown string) error {
	if db.d != MY && db.d != CR || shown == "" {
		return nil
	}
	db.eng = newDBEngine(db.d)
	return db.eng.exec(shown)
}
