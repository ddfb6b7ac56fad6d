// Package vsqlite is the database the gorm checks run against: SQLite in memory behind
// database/sql, with every statement recorded and faults injected on request.
package vsqlite

/*
#cgo LDFLAGS: -lsqlite3
#include <sqlite3.h>
#include <stdlib.h>
static int bind_text(sqlite3_stmt *s, int i, const char *p, int n) { return sqlite3_bind_text(s, i, n ? p : "", n, SQLITE_TRANSIENT); }
// hoisting constants out of loops takes time quadratic in the number of placeholders
static void no_factoring(sqlite3 *db) { sqlite3_test_control(SQLITE_TESTCTRL_OPTIMIZATIONS, db, 0x0008); }
static int bind_blob(sqlite3_stmt *s, int i, const void *p, int n) { return sqlite3_bind_blob(s, i, n ? p : "", n, SQLITE_TRANSIENT); }
*/
import "C"

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"
	"unsafe"

	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
)

// Fault is what happens instead of an event.
type Fault int

const (
	None      Fault = iota
	Fail            // the statement is not executed, an error is returned
	Duplicate       // the same, with MySQL's text for a duplicate key
	Nothing         // the statement is not executed, success with no rows affected is returned
	FailBegin
	FailCommit
	Late // the statement is executed, then a plugin's after-callback reports an error
)

var ErrInjected = errors.New("injected: connection reset by peer")

// Stmt is one statement the database saw.
type Stmt struct {
	SQL  string
	Args int
	Rows int64
	Err  error
}

// DB is one in-memory database.
type DB struct {
	G    *gorm.DB
	SQL  *sql.DB
	mu   sync.Mutex
	log  []Stmt
	at   int // the statement (counted from the arming) the fault hits
	f    Fault
	hits int
}

// Arm makes the nth statement from now on (from 0), or the nth begin or commit, meet the fault.
func (d *DB) Arm(n int, f Fault) {
	d.mu.Lock()
	d.at, d.f, d.hits = n, f, 0
	d.mu.Unlock()
}

// Hits is how often the armed fault struck.
func (d *DB) Hits() int { d.mu.Lock(); defer d.mu.Unlock(); return d.hits }

// Take returns and forgets the statements recorded so far.
func (d *DB) Take() []Stmt {
	d.mu.Lock()
	defer d.mu.Unlock()
	l := d.log
	d.log = nil
	return l
}

func (d *DB) strike(fs ...Fault) Fault {
	for _, f := range fs {
		if d.f == f {
			if d.at == 0 {
				d.f = None
				d.hits++
				return f
			}
			d.at--
			return None
		}
	}
	return None
}

// Open makes a fresh database.
func Open() (*DB, error) {
	d := &DB{}
	d.SQL = sql.OpenDB(connector{d})
	d.SQL.SetMaxOpenConns(1)
	d.SQL.SetMaxIdleConns(1)
	g, err := gorm.Open(dialector{d.SQL}, &gorm.Config{Logger: logger.Discard})
	if err != nil {
		return nil, err
	}
	d.G = g
	late := func(g *gorm.DB) {
		if g.Error != nil || g.DryRun {
			return
		}
		d.mu.Lock()
		f := d.strike(Late)
		d.mu.Unlock()
		if f == Late {
			g.AddError(ErrInjected)
		}
	}
	const end = "gorm:commit_or_rollback_transaction"
	for _, e := range []error{
		g.Callback().Raw().After("gorm:raw").Register("verif:late", late),
		g.Callback().Create().After("gorm:create").Before(end).Register("verif:late", late),
		g.Callback().Update().After("gorm:update").Before(end).Register("verif:late", late),
		g.Callback().Delete().After("gorm:delete").Before(end).Register("verif:late", late),
	} {
		if e != nil {
			return nil, e
		}
	}
	return d, nil
}

func (d *DB) Close() { d.SQL.Close() }

// Dump returns the rows of a query as text, null as "∅".
func (d *DB) Dump(query string, args ...any) ([]string, error) {
	rows, err := d.SQL.Query(query, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return nil, err
	}
	var out []string
	vals := make([]any, len(cols))
	ptrs := make([]any, len(cols))
	for i := range vals {
		ptrs[i] = &vals[i]
	}
	for rows.Next() {
		if err := rows.Scan(ptrs...); err != nil {
			return nil, err
		}
		var b strings.Builder
		for i, v := range vals {
			if i > 0 {
				b.WriteByte('|')
			}
			b.WriteString(Cell(v))
		}
		out = append(out, b.String())
	}
	return out, rows.Err()
}

// Cell renders a value the way Dump does.
func Cell(v any) string {
	switch x := v.(type) {
	case nil:
		return "∅"
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	default:
		return fmt.Sprint(x)
	}
}

type connector struct{ d *DB }

func (c connector) Driver() driver.Driver { return drv{} }
func (c connector) Connect(context.Context) (driver.Conn, error) {
	name := C.CString(":memory:")
	defer C.free(unsafe.Pointer(name))
	cn := &conn{d: c.d}
	if rc := C.sqlite3_open(name, &cn.db); rc != C.SQLITE_OK {
		return nil, fmt.Errorf("sqlite3_open: %d", int(rc))
	}
	C.no_factoring(cn.db)
	return cn, nil
}

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use Open") }

type conn struct {
	d  *DB
	db *C.sqlite3
}

func (c *conn) Close() error {
	C.sqlite3_close(c.db)
	return nil
}

func (c *conn) err() error {
	msg := C.GoString(C.sqlite3_errmsg(c.db))
	if strings.Contains(msg, "UNIQUE constraint failed") {
		return fmt.Errorf("Error 1062: Duplicate entry 'x' for key '%s'", msg)
	}
	return errors.New(msg)
}

func (c *conn) raw(q string) error {
	_, _, _, err := c.run(q, nil, false)
	return err
}

func (c *conn) Begin() (driver.Tx, error) {
	c.d.mu.Lock()
	f := c.d.strike(FailBegin)
	c.d.mu.Unlock()
	if f != None {
		return nil, ErrInjected
	}
	if err := c.raw("begin"); err != nil {
		return nil, err
	}
	return tx{c}, nil
}

type tx struct{ c *conn }

func (t tx) Commit() error {
	t.c.d.mu.Lock()
	f := t.c.d.strike(FailCommit)
	t.c.d.mu.Unlock()
	if f != None {
		t.c.raw("rollback")
		return ErrInjected
	}
	return t.c.raw("commit")
}
func (t tx) Rollback() error { return t.c.raw("rollback") }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.exec(s.q, a)
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.query(s.q, a)
}

func values(a []driver.NamedValue) []driver.Value {
	v := make([]driver.Value, len(a))
	for i := range a {
		v[i] = a[i].Value
	}
	return v
}

func (c *conn) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	return c.exec(q, values(a))
}

func (c *conn) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	return c.query(q, values(a))
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func (c *conn) exec(q string, a []driver.Value) (driver.Result, error) {
	c.d.mu.Lock()
	f := c.d.strike(Fail, Duplicate, Nothing)
	c.d.mu.Unlock()
	var r result
	var err error
	switch f {
	case Fail:
		err = ErrInjected
	case Duplicate:
		err = errors.New("Error 1062: Duplicate entry '7' for key 'PRIMARY'")
	case Nothing:
	default:
		_, _, r, err = c.run(q, a, false)
	}
	c.d.mu.Lock()
	c.d.log = append(c.d.log, Stmt{q, len(a), r.n, err})
	c.d.mu.Unlock()
	return r, err
}

func (c *conn) query(q string, a []driver.Value) (driver.Rows, error) {
	cols, rows, _, err := c.run(q, a, true)
	return &rowset{cols, rows}, err
}

type rowset struct {
	cols []string
	rows [][]driver.Value
}

func (r *rowset) Columns() []string { return r.cols }
func (r *rowset) Close() error      { return nil }
func (r *rowset) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	copy(dest, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}

func (c *conn) run(q string, args []driver.Value, want bool) (cols []string, rows [][]driver.Value, r result, err error) {
	cs := C.CString(q)
	defer C.free(unsafe.Pointer(cs))
	var st *C.sqlite3_stmt
	var tail *C.char
	if C.sqlite3_prepare_v2(c.db, cs, C.int(len(q)), &st, &tail) != C.SQLITE_OK {
		return nil, nil, r, c.err()
	}
	defer C.sqlite3_finalize(st)
	if strings.TrimSpace(C.GoString(tail)) != "" {
		return nil, nil, r, errors.New("more than one statement")
	}
	if int(C.sqlite3_bind_parameter_count(st)) != len(args) {
		return nil, nil, r, fmt.Errorf("statement has %d placeholders, %d arguments", int(C.sqlite3_bind_parameter_count(st)), len(args))
	}
	for i, a := range args {
		rc, k := C.int(C.SQLITE_OK), C.int(i+1)
		switch v := a.(type) {
		case nil:
			rc = C.sqlite3_bind_null(st, k)
		case int64:
			rc = C.sqlite3_bind_int64(st, k, C.sqlite3_int64(v))
		case float64:
			rc = C.sqlite3_bind_double(st, k, C.double(v))
		case bool:
			n := 0
			if v {
				n = 1
			}
			rc = C.sqlite3_bind_int64(st, k, C.sqlite3_int64(n))
		case time.Time:
			rc = text(st, k, v.UTC().Format(time.RFC3339Nano))
		case string:
			rc = text(st, k, v)
		case []byte:
			if v == nil {
				rc = C.sqlite3_bind_null(st, k)
			} else {
				var p unsafe.Pointer
				if len(v) > 0 {
					p = unsafe.Pointer(&v[0])
				}
				rc = C.bind_blob(st, k, p, C.int(len(v)))
			}
		default:
			return nil, nil, r, fmt.Errorf("cannot bind %T", a)
		}
		if rc != C.SQLITE_OK {
			return nil, nil, r, c.err()
		}
	}
	n := int(C.sqlite3_column_count(st))
	for i := 0; i < n; i++ {
		cols = append(cols, C.GoString(C.sqlite3_column_name(st, C.int(i))))
	}
	for {
		rc := C.sqlite3_step(st)
		if rc == C.SQLITE_DONE {
			break
		}
		if rc != C.SQLITE_ROW {
			return nil, nil, r, c.err()
		}
		if !want {
			continue
		}
		row := make([]driver.Value, n)
		for i := range row {
			k := C.int(i)
			switch C.sqlite3_column_type(st, k) {
			case C.SQLITE_INTEGER:
				row[i] = int64(C.sqlite3_column_int64(st, k))
			case C.SQLITE_FLOAT:
				row[i] = float64(C.sqlite3_column_double(st, k))
			case C.SQLITE_TEXT:
				row[i] = C.GoStringN((*C.char)(unsafe.Pointer(C.sqlite3_column_text(st, k))), C.sqlite3_column_bytes(st, k))
			case C.SQLITE_BLOB:
				row[i] = C.GoBytes(C.sqlite3_column_blob(st, k), C.sqlite3_column_bytes(st, k))
			}
		}
		rows = append(rows, row)
	}
	return cols, rows, result{int64(C.sqlite3_last_insert_rowid(c.db)), int64(C.sqlite3_changes(c.db))}, nil
}

func text(st *C.sqlite3_stmt, k C.int, s string) C.int {
	var p *C.char
	if len(s) > 0 {
		p = (*C.char)(unsafe.Pointer(unsafe.StringData(s)))
	}
	return C.bind_text(st, k, p, C.int(len(s)))
}

type dialector struct{ pool *sql.DB }

func (dialector) Name() string { return "vsqlite" }
func (x dialector) Initialize(db *gorm.DB) error {
	db.ConnPool = x.pool
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{LastInsertIDReversed: true})
	return nil
}
func (dialector) Migrator(*gorm.DB) gorm.Migrator                             { return nil }
func (dialector) DataTypeOf(*schema.Field) string                             { return "text" }
func (dialector) DefaultValueOf(*schema.Field) clause.Expression              { return clause.Expr{SQL: "NULL"} }
func (dialector) BindVarTo(w clause.Writer, _ *gorm.Statement, _ interface{}) { w.WriteByte('?') }
func (dialector) QuoteTo(w clause.Writer, s string) {
	w.WriteByte('`')
	w.WriteString(strings.ReplaceAll(strings.ReplaceAll(s, "`", "``"), ".", "`.`"))
	w.WriteByte('`')
}
func (dialector) Explain(s string, vars ...interface{}) string { return s }
