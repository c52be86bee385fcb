package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"time"

	"github.com/kunitsucom/ddlctl/pkg/ddl"
	crddl "github.com/kunitsucom/ddlctl/pkg/ddl/cockroachdb"
	myddl "github.com/kunitsucom/ddlctl/pkg/ddl/mysql"
	pgddl "github.com/kunitsucom/ddlctl/pkg/ddl/postgres"
	spddl "github.com/kunitsucom/ddlctl/pkg/ddl/spanner"
)

// Adapter over the four dialect packages: the code under test.

type DDL struct {
	d  Dialect
	pg *pgddl.DDL
	cr *crddl.DDL
	my *myddl.DDL
	sp *spddl.DDL

	src string // the text it was parsed from
}

type panicErr struct {
	v     any
	stack string
}

func (p *panicErr) Error() string { return fmt.Sprintf("panic: %v", p.v) }

var errHang = errors.New("no result within the time limit")

// guard runs f, converting panics to errors; what and input describe the call
// for the monitor of calls that do not return.
func guard(what, input string, f func() error) (err error) {
	id := enter(what, input)
	defer leave(id)
	defer func() {
		if r := recover(); r != nil {
			err = &panicErr{r, string(debug.Stack())}
		}
	}()
	return f()
}

// guardTimed additionally gives up after the (generous) limit.
func guardTimed(limit time.Duration, f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- guard("the tool", "", f) }()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case err := <-ch:
		return err
	case <-t.C:
		return errHang
	}
}

func (x *DDL) text() string {
	if x == nil {
		return ""
	}
	return x.src
}

func isPanic(err error) bool {
	var p *panicErr
	return errors.As(err, &p)
}

func repoParse(d Dialect, sql string) (out *DDL, err error) {
	err = guard("parsing", d.String()+"\n"+sql, func() error {
		o := &DDL{d: d, src: sql}
		var e error
		switch d {
		case PG:
			o.pg, e = pgddl.NewParser(pgddl.NewLexer(sql)).Parse()
		case CR:
			o.cr, e = crddl.NewParser(crddl.NewLexer(sql)).Parse()
		case MY:
			o.my, e = myddl.NewParser(myddl.NewLexer(sql)).Parse()
		case SP:
			o.sp, e = spddl.NewParser(spddl.NewLexer(sql)).Parse()
		}
		if e == nil {
			out = o
		}
		return e
	})
	return out, err
}

func (x *DDL) String() string {
	switch x.d {
	case PG:
		return x.pg.String()
	case CR:
		return x.cr.String()
	case MY:
		return x.my.String()
	default:
		return x.sp.String()
	}
}

func (x *DDL) Len() int {
	switch x.d {
	case PG:
		return len(x.pg.Stmts)
	case CR:
		return len(x.cr.Stmts)
	case MY:
		return len(x.my.Stmts)
	default:
		return len(x.sp.Stmts)
	}
}

func repoString(x *DDL) (s string, err error) {
	err = guard("rendering", x.d.String()+"\n"+x.src, func() error { s = x.String(); return nil })
	return
}

// repoDiff returns the diff; noDiff reports ErrNoDifference. nil arguments stay nil.
func repoDiff(d Dialect, a, b *DDL) (out *DDL, noDiff bool, err error) {
	err = guard("comparing", d.String()+"\n"+a.text()+"\n--- with:\n"+b.text(), func() error {
		o := &DDL{d: d}
		var e error
		switch d {
		case PG:
			var l, r *pgddl.DDL
			if a != nil {
				l = a.pg
			}
			if b != nil {
				r = b.pg
			}
			o.pg, e = pgddl.Diff(l, r)
		case CR:
			var l, r *crddl.DDL
			if a != nil {
				l = a.cr
			}
			if b != nil {
				r = b.cr
			}
			o.cr, e = crddl.Diff(l, r)
		case MY:
			var l, r *myddl.DDL
			if a != nil {
				l = a.my
			}
			if b != nil {
				r = b.my
			}
			o.my, e = myddl.Diff(l, r)
		case SP:
			var l, r *spddl.DDL
			if a != nil {
				l = a.sp
			}
			if b != nil {
				r = b.sp
			}
			o.sp, e = spddl.Diff(l, r)
		}
		if e == nil {
			out = o
		}
		return e
	})
	if errors.Is(err, ddl.ErrNoDifference) {
		return nil, true, nil
	}
	return
}

// repoDiffTables compares the first table of a with the first table of b directly,
// whatever their names (the exported table comparison of the library).
func repoDiffTables(a, b *DDL) (s string, err error) {
	err = guard("comparing two tables", a.d.String()+"\n"+a.text()+"\n--- with:\n"+b.text(), func() error {
		switch a.d {
		case PG:
			var l, r *pgddl.CreateTableStmt
			for _, x := range a.pg.Stmts {
				if t, ok := x.(*pgddl.CreateTableStmt); ok && l == nil {
					l = t
				}
			}
			for _, x := range b.pg.Stmts {
				if t, ok := x.(*pgddl.CreateTableStmt); ok && r == nil {
					r = t
				}
			}
			o, e := pgddl.DiffCreateTable(l, r)
			if e != nil {
				return e
			}
			s = o.String()
		case CR:
			var l, r *crddl.CreateTableStmt
			for _, x := range a.cr.Stmts {
				if t, ok := x.(*crddl.CreateTableStmt); ok && l == nil {
					l = t
				}
			}
			for _, x := range b.cr.Stmts {
				if t, ok := x.(*crddl.CreateTableStmt); ok && r == nil {
					r = t
				}
			}
			o, e := crddl.DiffCreateTable(l, r)
			if e != nil {
				return e
			}
			s = o.String()
		case MY:
			var l, r *myddl.CreateTableStmt
			for _, x := range a.my.Stmts {
				if t, ok := x.(*myddl.CreateTableStmt); ok && l == nil {
					l = t
				}
			}
			for _, x := range b.my.Stmts {
				if t, ok := x.(*myddl.CreateTableStmt); ok && r == nil {
					r = t
				}
			}
			o, e := myddl.DiffCreateTable(l, r)
			if e != nil {
				return e
			}
			s = o.String()
		case SP:
			var l, r *spddl.CreateTableStmt
			for _, x := range a.sp.Stmts {
				if t, ok := x.(*spddl.CreateTableStmt); ok && l == nil {
					l = t
				}
			}
			for _, x := range b.sp.Stmts {
				if t, ok := x.(*spddl.CreateTableStmt); ok && r == nil {
					r = t
				}
			}
			o, e := spddl.DiffCreateTable(l, r)
			if e != nil {
				return e
			}
			s = o.String()
		}
		return nil
	})
	return
}
