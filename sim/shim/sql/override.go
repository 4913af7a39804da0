// Package sql opens real SQLite databases behind a fault injecting driver.
package sql

import (
	"context"
	rsql "database/sql"
	"database/sql/driver"
	"strings"

	"github.com/vearutop/flatjsonl/verifsim/simrt"
	"modernc.org/sqlite"
)

// DB counts as an open file.
type DB struct {
	*rsql.DB
	h    *simrt.File
	path string
}

// Tx is a transaction.
type Tx struct {
	*rsql.Tx
	db *DB
}

type connector struct {
	real string
	path string
}

func (c connector) Connect(context.Context) (driver.Conn, error) {
	return (&sqlite.Driver{}).Open(c.real)
}
func (c connector) Driver() driver.Driver { return &sqlite.Driver{} }

// Open opens a database.
func Open(drv, dsn string) (*DB, error) {
	simrt.YOp()

	if drv != "sqlite" {
		return nil, &unknown{drv}
	}

	name := strings.TrimPrefix(dsn, "file:")
	opts := ""

	if i := strings.Index(name, "?"); i >= 0 {
		name, opts = name[:i], name[i:]
	}

	p := simrt.Clean(name)
	db := &DB{DB: rsql.OpenDB(connector{real: "file:" + simrt.SQLPath(p) + opts, path: p}), path: p}
	db.h = simrt.SQLOpened(name)
	Opened = append(Opened, db)

	return db, nil
}

type unknown struct{ n string }

func (u *unknown) Error() string { return "sql: unknown driver " + u.n }

// Opened are all databases opened by the current run, the harness closes them afterwards.
var Opened []*DB

// CloseAll closes what a run left open.
func CloseAll() {
	for _, d := range Opened {
		_ = d.DB.Close()
	}

	Opened = nil
}

func (d *DB) Exec(q string, args ...any) (rsql.Result, error) {
	simrt.YOp()

	if err := simrt.SQLFault("sqlexec", d.path, q); err != nil {
		return nil, err
	}

	return d.DB.Exec(q, args...)
}

func (d *DB) ExecContext(_ context.Context, q string, args ...any) (rsql.Result, error) {
	return d.Exec(q, args...)
}

func (d *DB) Begin() (*Tx, error) {
	simrt.YOp()

	if err := simrt.SQLFault("sqlbegin", d.path, ""); err != nil {
		return nil, err
	}

	t, err := d.DB.Begin()
	if err != nil {
		return nil, err
	}

	return &Tx{Tx: t, db: d}, nil
}

func (d *DB) BeginTx(context.Context, *rsql.TxOptions) (*Tx, error) { return d.Begin() }

func (d *DB) Close() error {
	simrt.YOp()

	simrt.SQLClosed(d.h)

	err := d.DB.Close()

	if ferr := simrt.SQLFault("sqlclose", d.path, ""); ferr != nil {
		return ferr
	}

	return err
}

func (t *Tx) Exec(q string, args ...any) (rsql.Result, error) {
	simrt.YOp()

	if err := simrt.SQLFault("sqlexec", t.db.path, q); err != nil {
		return nil, err
	}

	return t.Tx.Exec(q, args...)
}

func (t *Tx) ExecContext(_ context.Context, q string, args ...any) (rsql.Result, error) {
	return t.Exec(q, args...)
}

func (t *Tx) Commit() error {
	simrt.YOp()

	if err := simrt.SQLFault("sqlcommit", t.db.path, ""); err != nil {
		_ = t.Tx.Rollback()

		return err
	}

	return t.Tx.Commit()
}

func (t *Tx) Rollback() error {
	simrt.YOp()

	return t.Tx.Rollback()
}
