//go:build go1.24

package sql

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"time"

	"github.com/crimist/trakx/zz/rt"
)

// DB is a connection pool with the rules of database/sql: a connection is in use until its rows are closed, two idle
// connections are kept, bad connections are retried on another one.
type DB struct {
	idle    []*rt.PGConn
	open    int
	maxOpen int
	maxIdle int
	closed  bool
	q       rt.WaitQ
}

var ErrNoRows = sql.ErrNoRows

func Open(driver, dsn string) (*DB, error) {
	rt.SyncOp()
	if driver != "postgres" {
		return nil, fmt.Errorf("sql: unknown driver %q (forgotten import?)", driver)
	}
	return &DB{maxIdle: 2}, nil
}

func (d *DB) SetMaxOpenConns(n int)              { d.maxOpen = n }
func (d *DB) SetMaxIdleConns(n int)              { d.maxIdle = n }
func (d *DB) SetConnMaxLifetime(time.Duration)   {}
func (d *DB) SetConnMaxIdleTime(time.Duration)   {}
func (d *DB) Stats() (s sql.DBStats)             { s.OpenConnections = d.open; return }
func (d *DB) Close() error {
	rt.SyncOp()
	d.closed = true
	for _, c := range d.idle {
		rt.S.PG.Close(c)
	}
	d.idle = nil
	return nil
}

func deadline(ctx context.Context) int64 {
	if t, ok := ctx.Deadline(); ok {
		return max(rt.S.Now()+int64(rt.TimeUntil(t)), 1)
	}
	return 0
}

func (d *DB) get(ctx context.Context, fresh bool) (*rt.PGConn, error) {
	if d.closed {
		return nil, errors.New("sql: database is closed")
	}
	if e := ctx.Err(); e != nil {
		return nil, e
	}
	for {
		if n := len(d.idle); n > 0 && !fresh {
			c := d.idle[n-1]
			d.idle = d.idle[:n-1]
			return c, nil
		}
		if d.maxOpen == 0 || d.open < d.maxOpen {
			break
		}
		if d.q.Wait(deadline(ctx), "sql pool") {
			return nil, context.DeadlineExceeded
		}
	}
	d.open++
	c, err := rt.S.PG.Connect()
	if err != nil {
		d.open--
		d.q.WakeOne()
		return nil, err
	}
	return c, nil
}

func (d *DB) put(c *rt.PGConn) {
	if c.Bad || d.closed || len(d.idle) >= d.maxIdle {
		rt.S.PG.Close(c)
		d.open--
	} else {
		d.idle = append(d.idle, c)
	}
	d.q.WakeOne()
}

func (d *DB) run(ctx context.Context, q string, args []any) (*rt.PGConn, *rt.PGResult, error) {
	rt.SyncOp()
	var err error
	for try := 0; try < 3; try++ {
		var c *rt.PGConn
		c, err = d.get(ctx, try == 2)
		if err != nil {
			return nil, nil, err
		}
		var r *rt.PGResult
		r, err = rt.S.PG.Run(c, q, args)
		if err == nil {
			return c, r, nil
		}
		d.put(c)
		if !errors.Is(err, rt.ErrBadConn) {
			return nil, nil, err
		}
	}
	return nil, nil, err
}

func (d *DB) Ping() error { return d.PingContext(context.Background()) }
func (d *DB) PingContext(ctx context.Context) error {
	c, _, err := d.run(ctx, ";", nil)
	if err == nil {
		d.put(c)
	}
	return err
}
func (d *DB) Exec(q string, args ...any) (sql.Result, error) {
	return d.ExecContext(context.Background(), q, args...)
}

type result struct{ n int64 }

func (r result) LastInsertId() (int64, error) { return 0, errors.New("no LastInsertId available") }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func (d *DB) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	c, r, err := d.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	d.put(c)
	return result{r.Affected}, nil
}

type Rows struct {
	d      *DB
	c      *rt.PGConn
	r      *rt.PGResult
	pos    int
	closed bool
	keep   bool
}

func (d *DB) Query(q string, args ...any) (*Rows, error) {
	return d.QueryContext(context.Background(), q, args...)
}
func (d *DB) QueryContext(ctx context.Context, q string, args ...any) (*Rows, error) {
	c, r, err := d.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &Rows{d: d, c: c, r: r, pos: -1}, nil
}
func (r *Rows) Next() bool {
	rt.SyncOp()
	if r.closed {
		return false
	}
	r.pos++
	if r.pos >= len(r.r.Rows) {
		r.Close()
		return false
	}
	return true
}
func (r *Rows) Err() error { return nil }
func (r *Rows) Columns() ([]string, error) { return r.r.Cols, nil }
func (r *Rows) Close() error {
	if rt.Dead() || r.closed {
		return nil
	}
	rt.SyncOp()
	r.closed = true
	if !r.keep {
		r.d.put(r.c)
	}
	return nil
}
func (r *Rows) Scan(dest ...any) error {
	if r.pos < 0 || r.pos >= len(r.r.Rows) {
		return errors.New("sql: Scan called without calling Next")
	}
	row := r.r.Rows[r.pos]
	if len(dest) != len(row) {
		return fmt.Errorf("sql: expected %d destination arguments in Scan, not %d", len(row), len(dest))
	}
	for i, v := range row {
		if err := assign(dest[i], v); err != nil {
			return err
		}
	}
	return nil
}

func assign(d, v any) error {
	switch x := d.(type) {
	case *[]byte:
		b, ok := v.([]byte)
		if !ok {
			return errors.New("sql: cannot scan timestamp into []byte")
		}
		if b == nil {
			*x = nil
		} else {
			*x = append([]byte{}, b...)
		}
	case *sql.RawBytes:
		*x = append(sql.RawBytes{}, v.([]byte)...)
	case *string:
		*x = string(v.([]byte))
	case *time.Time:
		n, ok := v.(int64)
		if !ok {
			return errors.New("sql: cannot scan bytes into time")
		}
		*x = time.Unix(0, n).UTC()
	case *any:
		if n, ok := v.(int64); ok {
			*x = time.Unix(0, n).UTC()
		} else {
			*x = v
		}
	default:
		return fmt.Errorf("sql: unsupported Scan destination %T", d)
	}
	return nil
}

type Row struct {
	r   *Rows
	err error
}

func (d *DB) QueryRow(q string, args ...any) *Row {
	return d.QueryRowContext(context.Background(), q, args...)
}
func (d *DB) QueryRowContext(ctx context.Context, q string, args ...any) *Row {
	r, err := d.QueryContext(ctx, q, args...)
	return &Row{r, err}
}
func (r *Row) Err() error { return r.err }
func (r *Row) Scan(dest ...any) error {
	if r.err != nil {
		return r.err
	}
	defer r.r.Close()
	if !r.r.Next() {
		return sql.ErrNoRows
	}
	return r.r.Scan(dest...)
}

// Tx is a transaction on one connection.
type Tx struct {
	d    *DB
	c    *rt.PGConn
	save []rt.PGRow
	done bool
}

func (d *DB) Begin() (*Tx, error) { return d.BeginTx(context.Background(), nil) }
func (d *DB) BeginTx(ctx context.Context, o *sql.TxOptions) (*Tx, error) {
	c, _, err := d.run(ctx, ";", nil)
	if err != nil {
		return nil, err
	}
	return &Tx{d: d, c: c, save: append([]rt.PGRow(nil), rt.S.PG.Rows...)}, nil
}
func (t *Tx) Exec(q string, args ...any) (sql.Result, error) {
	r, err := rt.S.PG.Run(t.c, q, args)
	if err != nil {
		return nil, err
	}
	return result{r.Affected}, nil
}
func (t *Tx) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) { return t.Exec(q, args...) }
func (t *Tx) Query(q string, args ...any) (*Rows, error) {
	r, err := rt.S.PG.Run(t.c, q, args)
	if err != nil {
		return nil, err
	}
	return &Rows{d: t.d, c: t.c, r: r, pos: -1, keep: true}, nil
}
func (t *Tx) QueryRow(q string, args ...any) *Row { r, err := t.Query(q, args...); return &Row{r, err} }
func (t *Tx) Commit() error {
	rt.SyncOp()
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	t.d.put(t.c)
	return nil
}
func (t *Tx) Rollback() error {
	if rt.Dead() {
		return nil
	}
	rt.SyncOp()
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	rt.S.PG.Rows = t.save
	t.d.put(t.c)
	return nil
}

type Stmt struct {
	d *DB
	q string
}

func (d *DB) Prepare(q string) (*Stmt, error)               { return &Stmt{d, q}, nil }
func (s *Stmt) Exec(args ...any) (sql.Result, error)        { return s.d.Exec(s.q, args...) }
func (s *Stmt) Query(args ...any) (*Rows, error)            { return s.d.Query(s.q, args...) }
func (s *Stmt) QueryRow(args ...any) *Row                   { return s.d.QueryRow(s.q, args...) }
func (s *Stmt) Close() error                                { return nil }
