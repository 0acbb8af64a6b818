// Package sql stands in for database/sql over sqlite3: databases live in memory under their file names, statements are
// interpreted, a transaction is seen by others once it is committed, and a process that stops loses what it had not
// committed. Text it does not understand ends the path, so nothing is claimed about it.
package sql

import (
	"context"
	"errors"
	"strconv"
	"time"
)

// Value is NULL, an int64, a float64 or a string.
type Value interface{}

// Hook is told of every operation before it starts (begin, prepare, exec, query, commit, rollback) and after it took
// effect (done). It makes the operation fail by returning an error, and the process stop by panicking.
var Hook func(op string) error

// Now is the clock.
var Now = func() string { return "2020-01-01 00:00:00" }

func hook(op string) error {
	if Hook == nil {
		return nil
	}
	return Hook(op)
}

var (
	ErrNoRows   = errors.New("sql: no rows in result set")
	ErrTxDone   = errors.New("sql: transaction has already been committed or rolled back")
	ErrConnDone = errors.New("sql: connection is already closed")
	errLocked   = errors.New("database is locked")
	errClosed   = errors.New("sql: database is closed")
)

type store struct {
	sc      *schema
	writer  *Tx
	readers int
}

var stores = map[string]*store{}

// Reset forgets all databases.
func Reset() { stores = map[string]*store{}; Hook = nil }

// Crash ends the process: what was not committed is gone.
func Crash() {
	for _, s := range stores {
		s.writer = nil
		s.readers = 0
	}
	Hook = nil
}

var parsed = map[string]*stmt{}

func compile(text string) (*stmt, error) {
	if s := parsed[text]; s != nil {
		return s, nil
	}
	s, err := parse(text)
	if err == nil {
		parsed[text] = s
	}
	return s, err
}

type DB struct {
	st     *store
	closed bool
}

// Open opens the database file.
func Open(driver, name string) (*DB, error) {
	if driver != "sqlite3" {
		return nil, errors.New("sql: unknown driver " + strconv.Quote(driver) + " (forgotten import?)")
	}
	for k := 0; k < len(name); k++ {
		if name[k] == '?' || name == ":memory:" || name == "" {
			beyond("database name")
		}
	}
	if stores[name] == nil {
		stores[name] = &store{sc: newSchema()}
	}
	return &DB{st: stores[name]}, nil
}

type conn interface {
	view() (*schema, error)
	change(func(*schema) error) error
	reading(int)
}

func (db *DB) view() (*schema, error) {
	if db.closed {
		return nil, errClosed
	}
	return db.st.sc, nil
}

func (db *DB) reading(n int) { db.st.readers += n }

func (db *DB) change(f func(*schema) error) error {
	if db.closed {
		return errClosed
	}
	if db.st.writer != nil || db.st.readers > 0 {
		return errLocked
	}
	c := db.st.sc.clone()
	if err := f(c); err != nil {
		return err
	}
	db.st.sc = c
	return hook("done")
}

type TxOptions struct {
	Isolation IsolationLevel
	ReadOnly  bool
}

type IsolationLevel int

const (
	LevelDefault IsolationLevel = iota
	LevelReadUncommitted
	LevelReadCommitted
	LevelWriteCommitted
	LevelRepeatableRead
	LevelSnapshot
	LevelSerializable
	LevelLinearizable
)

type Tx struct {
	db   *DB
	sc   *schema // nil before the first change
	done bool
	read bool
	own  int
}

func (db *DB) Begin() (*Tx, error) {
	if db.closed {
		return nil, errClosed
	}
	if err := hook("begin"); err != nil {
		return nil, err
	}
	return &Tx{db: db}, nil
}

func (db *DB) BeginTx(ctx context.Context, o *TxOptions) (*Tx, error) { return db.Begin() }

func (tx *Tx) view() (*schema, error) {
	if tx.done {
		return nil, ErrTxDone
	}
	if tx.sc != nil {
		return tx.sc, nil
	}
	if !tx.read {
		tx.read = true
		tx.db.st.readers++
	}
	return tx.db.st.sc, nil
}

func (tx *Tx) reading(n int) { tx.own += n }

func (tx *Tx) change(f func(*schema) error) error {
	if tx.done {
		return ErrTxDone
	}
	st := tx.db.st
	if tx.sc == nil {
		if st.writer != nil {
			return errLocked
		}
		st.writer = tx
		tx.sc = st.sc
	}
	c := tx.sc.clone()
	if err := f(c); err != nil {
		return err
	}
	tx.sc = c
	return hook("done")
}

func (tx *Tx) end() {
	tx.done = true
	if tx.read {
		tx.read = false
		tx.db.st.readers--
	}
	if tx.db.st.writer == tx {
		tx.db.st.writer = nil
	}
}

func (tx *Tx) Commit() error {
	if tx.done {
		return ErrTxDone
	}
	if err := hook("commit"); err != nil {
		tx.end()
		return err
	}
	others := tx.db.st.readers
	if tx.read {
		others--
	}
	if tx.sc != nil && others > 0 {
		tx.end()
		return errLocked
	}
	if tx.sc != nil {
		tx.db.st.sc = tx.sc
	}
	tx.end()
	return hook("done")
}

func (tx *Tx) Rollback() error {
	if tx.done {
		return ErrTxDone
	}
	if err := hook("rollback"); err != nil {
		return err
	}
	tx.end()
	return nil
}

type Stmt struct {
	c      conn
	s      *stmt
	closed bool
}

func prepare(c conn, text string) (*Stmt, error) {
	if err := hook("prepare"); err != nil {
		return nil, err
	}
	sc, err := c.view()
	if err != nil {
		return nil, err
	}
	s, err := compile(text)
	if err != nil {
		return nil, err
	}
	switch s.kind { // names are resolved here
	case "insert", "update", "delete", "index":
		if _, err := sc.table(s.name); err != nil {
			return nil, err
		}
	case "create":
		if sc.tabs[lowerName(s.name)] != nil && !s.quiet {
			return nil, fail("table " + s.name + " already exists")
		}
	case "select":
		for q := s.sel; q != nil; q = q.next {
			for _, f := range q.from {
				if f.sub == nil && lowerName(f.tab) != "sqlite_master" && lowerName(f.tab) != "sqlite_schema" {
					if _, err := sc.table(f.tab); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	return &Stmt{c: c, s: s}, nil
}

func toValue(a interface{}) (Value, error) {
	switch x := a.(type) {
	case nil:
		return nil, nil
	case int:
		return int64(x), nil
	case int8:
		return int64(x), nil
	case int16:
		return int64(x), nil
	case int32:
		return int64(x), nil
	case int64:
		return x, nil
	case uint:
		return int64(x), nil
	case uint8:
		return int64(x), nil
	case uint16:
		return int64(x), nil
	case uint32:
		return int64(x), nil
	case uint64:
		return int64(x), nil
	case float32:
		return float64(x), nil
	case float64:
		return x, nil
	case string:
		return x, nil
	case bool:
		if x {
			return int64(1), nil
		}
		return int64(0), nil
	case NullInt64:
		if !x.Valid {
			return nil, nil
		}
		return x.Int64, nil
	case NullFloat64:
		if !x.Valid {
			return nil, nil
		}
		return x.Float64, nil
	case NullString:
		if !x.Valid {
			return nil, nil
		}
		return x.String, nil
	case complex128, complex64, []int, []float64, []string, map[string]float64, map[string]string:
		return nil, errors.New("sql: converting argument: unsupported type")
	case time.Time, []byte:
		beyond("argument")
	}
	beyond("argument")
	return nil, nil
}

func values(s *stmt, args []interface{}) ([]Value, error) {
	if len(args) != s.params {
		return nil, errors.New("sql: expected " + strconv.Itoa(s.params) + " arguments, got " + strconv.Itoa(len(args)))
	}
	out := make([]Value, len(args))
	for k, a := range args {
		v, err := toValue(a)
		if err != nil {
			return nil, err
		}
		out[k] = v
	}
	return out, nil
}

type Result interface {
	LastInsertId() (int64, error)
	RowsAffected() (int64, error)
}

type result struct{ id, n int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

func execStmt(c conn, s *stmt, args []interface{}) (Result, error) {
	if err := hook("exec"); err != nil {
		return nil, err
	}
	v, err := values(s, args)
	if err != nil {
		return nil, err
	}
	if s.kind == "select" || s.kind == "pragma" {
		if _, err := c.view(); err != nil {
			return nil, err
		}
		return result{}, nil
	}
	sc, err := c.view()
	if err != nil {
		return nil, err
	}
	if s.kind == "create" && s.quiet && sc.tabs[lowerName(s.name)] != nil {
		return result{}, nil
	}
	var r result
	err = c.change(func(sc *schema) error {
		id, n, err := sc.exec(s, v)
		r = result{id, n}
		return err
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

func queryStmt(c conn, s *stmt, args []interface{}) (*Rows, error) {
	if err := hook("query"); err != nil {
		return nil, err
	}
	v, err := values(s, args)
	if err != nil {
		return nil, err
	}
	sc, err := c.view()
	if err != nil {
		return nil, err
	}
	if s.kind != "select" {
		if s.kind != "pragma" {
			if _, err := execStmt(c, s, args); err != nil {
				return nil, err
			}
		}
		return &Rows{c: c, at: -1, closed: true}, nil
	}
	rows, names, err := sc.query(s.sel, v, nil)
	if err != nil {
		return nil, err
	}
	c.reading(1)
	return &Rows{c: c, rows: rows, names: names, at: -1}, nil
}

func (s *Stmt) Exec(args ...interface{}) (Result, error) {
	if s.closed {
		return nil, errors.New("sql: statement is closed")
	}
	return execStmt(s.c, s.s, args)
}

func (s *Stmt) Query(args ...interface{}) (*Rows, error) {
	if s.closed {
		return nil, errors.New("sql: statement is closed")
	}
	return queryStmt(s.c, s.s, args)
}

func (s *Stmt) QueryRow(args ...interface{}) *Row {
	r, err := s.Query(args...)
	return &Row{r, err}
}

func (s *Stmt) Close() error { s.closed = true; return nil }

func (s *Stmt) ExecContext(ctx context.Context, args ...interface{}) (Result, error) {
	return s.Exec(args...)
}
func (s *Stmt) QueryContext(ctx context.Context, args ...interface{}) (*Rows, error) {
	return s.Query(args...)
}
func (s *Stmt) QueryRowContext(ctx context.Context, args ...interface{}) *Row {
	return s.QueryRow(args...)
}

func execOn(c conn, text string, args []interface{}) (Result, error) {
	s, err := prepare(c, text)
	if err != nil {
		return nil, err
	}
	return execStmt(c, s.s, args)
}

func queryOn(c conn, text string, args []interface{}) (*Rows, error) {
	s, err := prepare(c, text)
	if err != nil {
		return nil, err
	}
	return queryStmt(c, s.s, args)
}

func (db *DB) Prepare(q string) (*Stmt, error)                    { return prepare(db, q) }
func (db *DB) Exec(q string, args ...interface{}) (Result, error) { return execOn(db, q, args) }
func (db *DB) Query(q string, args ...interface{}) (*Rows, error) { return queryOn(db, q, args) }
func (db *DB) QueryRow(q string, args ...interface{}) *Row {
	r, e := queryOn(db, q, args)
	return &Row{r, e}
}
func (db *DB) PrepareContext(c context.Context, q string) (*Stmt, error) { return prepare(db, q) }
func (db *DB) ExecContext(c context.Context, q string, args ...interface{}) (Result, error) {
	return execOn(db, q, args)
}
func (db *DB) QueryContext(c context.Context, q string, args ...interface{}) (*Rows, error) {
	return queryOn(db, q, args)
}
func (db *DB) QueryRowContext(c context.Context, q string, args ...interface{}) *Row {
	return db.QueryRow(q, args...)
}
func (db *DB) Close() error                        { db.closed = true; return nil }
func (db *DB) Ping() error                         { return nil }
func (db *DB) PingContext(c context.Context) error { return nil }
func (db *DB) SetMaxOpenConns(n int)               {}
func (db *DB) SetMaxIdleConns(n int)               {}
func (db *DB) SetConnMaxLifetime(d time.Duration)  {}

func (tx *Tx) Prepare(q string) (*Stmt, error)                    { return prepare(tx, q) }
func (tx *Tx) Exec(q string, args ...interface{}) (Result, error) { return execOn(tx, q, args) }
func (tx *Tx) Query(q string, args ...interface{}) (*Rows, error) { return queryOn(tx, q, args) }
func (tx *Tx) QueryRow(q string, args ...interface{}) *Row {
	r, e := queryOn(tx, q, args)
	return &Row{r, e}
}
func (tx *Tx) PrepareContext(c context.Context, q string) (*Stmt, error) { return prepare(tx, q) }
func (tx *Tx) ExecContext(c context.Context, q string, args ...interface{}) (Result, error) {
	return execOn(tx, q, args)
}
func (tx *Tx) QueryContext(c context.Context, q string, args ...interface{}) (*Rows, error) {
	return queryOn(tx, q, args)
}
func (tx *Tx) QueryRowContext(c context.Context, q string, args ...interface{}) *Row {
	return tx.QueryRow(q, args...)
}
func (tx *Tx) Stmt(s *Stmt) *Stmt                           { return &Stmt{c: tx, s: s.s} }
func (tx *Tx) StmtContext(c context.Context, s *Stmt) *Stmt { return tx.Stmt(s) }

// Rows is a result set.
type Rows struct {
	c      conn
	rows   [][]Value
	names  []string
	at     int
	closed bool
}

func (r *Rows) Next() bool {
	if r.closed {
		return false
	}
	r.at++
	if r.at >= len(r.rows) {
		r.Close()
		return false
	}
	return true
}

func (r *Rows) NextResultSet() bool { r.Close(); return false }

func (r *Rows) Close() error {
	if !r.closed {
		r.closed = true
		r.c.reading(-1)
	}
	return nil
}

func (r *Rows) Err() error                 { return nil }
func (r *Rows) Columns() ([]string, error) { return r.names, nil }

func (r *Rows) Scan(dest ...interface{}) error {
	if r.closed {
		return errors.New("sql: Rows are closed")
	}
	if r.at < 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	row := r.rows[r.at]
	if len(dest) != len(row) {
		return errors.New("sql: expected " + strconv.Itoa(len(row)) + " destination arguments in Scan, not " + strconv.Itoa(len(dest)))
	}
	for k, d := range dest {
		if err := assign(d, row[k]); err != nil {
			return errors.New("sql: Scan error on column index " + strconv.Itoa(k) + ": " + err.Error())
		}
	}
	return nil
}

// Row is the first row of a result set.
type Row struct {
	r   *Rows
	err error
}

func (r *Row) Err() error { return r.err }

func (r *Row) Scan(dest ...interface{}) error {
	if r.err != nil {
		return r.err
	}
	defer r.r.Close()
	if !r.r.Next() {
		return ErrNoRows
	}
	return r.r.Scan(dest...)
}

type NullInt64 struct {
	Int64 int64
	Valid bool
}
type NullInt32 struct {
	Int32 int32
	Valid bool
}
type NullFloat64 struct {
	Float64 float64
	Valid   bool
}
type NullString struct {
	String string
	Valid  bool
}
type NullBool struct {
	Bool  bool
	Valid bool
}
type RawBytes []byte

func toInt(v Value) (int64, error) {
	switch x := v.(type) {
	case int64:
		return x, nil
	case string:
		n, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			return 0, errors.New("converting driver.Value type string (" + strconv.Quote(x) + ") to a int: invalid syntax")
		}
		return n, nil
	case float64:
		if x == float64(int64(x)) {
			return int64(x), nil
		}
		return 0, errors.New("converting driver.Value type float64 to a int: invalid syntax")
	}
	return 0, errors.New("converting NULL to int is unsupported")
}

func assign(d interface{}, v Value) error {
	switch p := d.(type) {
	case *interface{}:
		*p = v
		return nil
	case *Value:
		*p = v
		return nil
	case *NullInt64:
		p.Valid = v != nil
		if v == nil {
			p.Int64 = 0
			return nil
		}
		return assign(&p.Int64, v)
	case *NullInt32:
		p.Valid = v != nil
		if v == nil {
			p.Int32 = 0
			return nil
		}
		return assign(&p.Int32, v)
	case *NullFloat64:
		p.Valid = v != nil
		if v == nil {
			p.Float64 = 0
			return nil
		}
		return assign(&p.Float64, v)
	case *NullString:
		p.Valid = v != nil
		if v == nil {
			p.String = ""
			return nil
		}
		return assign(&p.String, v)
	case *string:
		switch x := v.(type) {
		case string:
			*p = x
			return nil
		case int64:
			*p = strconv.Itoa(int(x))
			return nil
		case float64:
			*p = strconv.FormatFloat(x, 'g', -1, 64)
			return nil
		}
		return errors.New("converting NULL to string is unsupported")
	case *float64:
		switch x := v.(type) {
		case float64:
			*p = x
			return nil
		case int64:
			*p = float64(x)
			return nil
		case string:
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				return errors.New("converting driver.Value type string (" + strconv.Quote(x) + ") to a float64: invalid syntax")
			}
			*p = f
			return nil
		}
		return errors.New("converting NULL to float64 is unsupported")
	case *int:
		n, err := toInt(v)
		if err == nil {
			*p = int(n)
		}
		return err
	case *int64:
		n, err := toInt(v)
		if err == nil {
			*p = n
		}
		return err
	case *int32:
		n, err := toInt(v)
		if err == nil {
			*p = int32(n)
		}
		return err
	case *bool:
		n, err := toInt(v)
		if err == nil {
			*p = n != 0
		}
		return err
	}
	beyond("scan destination")
	return nil
}

func lowerName(s string) string {
	b := []byte(s)
	for k, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[k] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// Look queries the committed state of a database file, without telling the hook.
func Look(file, query string, args ...interface{}) [][]Value {
	st := stores[file]
	if st == nil {
		return nil
	}
	s, err := compile(query)
	if err != nil {
		panic(err)
	}
	v, err := values(s, args)
	if err != nil {
		panic(err)
	}
	rows, _, err := st.sc.query(s.sel, v, nil)
	if err != nil {
		return nil
	}
	return rows
}

// Put changes a database file directly.
func Put(file, change string, args ...interface{}) {
	if stores[file] == nil {
		stores[file] = &store{sc: newSchema()}
	}
	s, err := compile(change)
	if err != nil {
		panic(err)
	}
	v, err := values(s, args)
	if err != nil {
		panic(err)
	}
	c := stores[file].sc.clone()
	if _, _, err := c.exec(s, v); err != nil {
		panic(err)
	}
	stores[file].sc = c
}

// I reads a number of a row.
func I(v Value) int {
	if n, ok := v.(int64); ok {
		return int(n)
	}
	return -999999
}

// F reads a number of a row.
func F(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int64:
		return float64(x)
	}
	return -1e300
}

// S reads a text of a row.
func S(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "<no text>"
}
