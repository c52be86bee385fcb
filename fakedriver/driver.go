package ddlctl

// A database/sql driver that forwards every call to the simulated database of
// the monitor. DSN: fakedb:SOCKET|ID

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
)

func init() {
	for _, n := range []string{"postgres", "mysql", "spanner"} {
		sql.Register(n, &fakeDriver{name: n})
	}
}

type fakeDriver struct{ name string }

type fakeMsg struct {
	ID     string   `json:"id,omitempty"`
	Driver string   `json:"driver,omitempty"`
	Op     string   `json:"op"`
	SQL    string   `json:"sql,omitempty"`
	Args   []string `json:"args,omitempty"`
}

type fakeReply struct {
	Err  string   `json:"err,omitempty"`
	Bad  bool     `json:"bad,omitempty"`
	Cols []string `json:"cols,omitempty"`
	Rows [][]any  `json:"rows,omitempty"`
	// RowErr fails the reading of the row with this index (0 based)
	RowErr   string `json:"row_err,omitempty"`
	RowErrAt int    `json:"row_err_at,omitempty"`
}

type fakeConn struct {
	c net.Conn
	r *bufio.Reader
}

func (d *fakeDriver) Open(dsn string) (driver.Conn, error) {
	s, ok := strings.CutPrefix(dsn, "fakedb:")
	sock, id, ok2 := strings.Cut(s, "|")
	if !ok || !ok2 {
		return nil, fmt.Errorf("fakedb: no such database: %s", dsn)
	}
	c, err := net.Dial("unix", sock)
	if err != nil {
		return nil, err
	}
	fc := &fakeConn{c: c, r: bufio.NewReaderSize(c, 1<<16)}
	if _, err := fc.call(fakeMsg{Op: "open", ID: id, Driver: d.name}); err != nil {
		c.Close()
		return nil, err
	}
	return fc, nil
}

func (c *fakeConn) call(m fakeMsg) (*fakeReply, error) {
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	if _, err := c.c.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := c.r.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	r := &fakeReply{}
	dec := json.NewDecoder(strings.NewReader(string(line)))
	dec.UseNumber()
	if err := dec.Decode(r); err != nil {
		return nil, err
	}
	if r.Bad {
		return nil, driver.ErrBadConn
	}
	if r.Err != "" {
		return nil, errors.New(r.Err)
	}
	return r, nil
}

func (c *fakeConn) Ping(context.Context) error {
	_, err := c.call(fakeMsg{Op: "ping"})
	return err
}

func (c *fakeConn) Close() error {
	_, err := c.call(fakeMsg{Op: "close"})
	c.c.Close()
	return err
}

func (c *fakeConn) Begin() (driver.Tx, error) {
	if _, err := c.call(fakeMsg{Op: "begin"}); err != nil {
		return nil, err
	}
	return &fakeTx{c}, nil
}

type fakeTx struct{ c *fakeConn }

func (t *fakeTx) Commit() error   { _, err := t.c.call(fakeMsg{Op: "commit"}); return err }
func (t *fakeTx) Rollback() error { _, err := t.c.call(fakeMsg{Op: "rollback"}); return err }

func fakeArgs(args []driver.NamedValue) []string {
	var out []string
	for _, a := range args {
		out = append(out, fmt.Sprint(a.Value))
	}
	return out
}

func (c *fakeConn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if _, err := c.call(fakeMsg{Op: "exec", SQL: q, Args: fakeArgs(args)}); err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}

func (c *fakeConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.call(fakeMsg{Op: "query", SQL: q, Args: fakeArgs(args)})
	if err != nil {
		return nil, err
	}
	return &fakeRows{r: r}, nil
}

func (c *fakeConn) Prepare(q string) (driver.Stmt, error) { return &fakeStmt{c, q}, nil }

type fakeStmt struct {
	c *fakeConn
	q string
}

func (s *fakeStmt) Close() error  { return nil }
func (s *fakeStmt) NumInput() int { return -1 }
func named(args []driver.Value) []driver.NamedValue {
	var out []driver.NamedValue
	for i, a := range args {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return out
}
func (s *fakeStmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *fakeStmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}

type fakeRows struct {
	r *fakeReply
	i int
}

func (r *fakeRows) Columns() []string { return r.r.Cols }
func (r *fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.r.RowErr != "" && r.i == r.r.RowErrAt {
		return errors.New(r.r.RowErr)
	}
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for k, v := range r.r.Rows[r.i] {
		switch x := v.(type) {
		case json.Number:
			n, err := x.Int64()
			if err != nil {
				dest[k] = x.String()
			} else {
				dest[k] = n
			}
		case nil, bool, string:
			dest[k] = x
		default:
			dest[k] = fmt.Sprint(x)
		}
	}
	r.i++
	return nil
}
