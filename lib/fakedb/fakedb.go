// Package fakedb is a database/sql driver whose every answer is decided by the harness and whose
// every resource is counted.
package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
)

// ErrInjected is the cause of every injected failure.
var ErrInjected = errors.New("injected failure")

// Kinds are the errors an operation may fail with: code may treat one of them in a special way.
var Kinds = []error{fmt.Errorf("driver: %w", ErrInjected), context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, sql.ErrNoRows, sql.ErrConnDone, errors.New("sql: no rows in result set, transaction has already been committed or rolled back, file does not exist")}

// IsInjected tells whether the error is, or wraps, one of Kinds.
func IsInjected(err error) bool {
	for _, k := range Kinds {
		if errors.Is(err, k) {
			return true
		}
	}
	return errors.Is(err, ErrInjected)
}

// Op is one call that reached the driver.
type Op struct {
	Kind string // connect ping begin exec query next rowsclose commit rollback close reset prepare
	Conn int
	SQL  string
	Args []any
	// Names of the arguments, "" for those without.
	Names []string
	Opts  driver.TxOptions
	Err   error
	N     int  // next: the number of rows delivered before
	InTx  bool // the connection has an open transaction
	// Under is the mark of the context of a begin, exec or query, if it is that context or made from it
	// so that it ends with it.
	Under any
}

type markKey struct{}

// Mark gives a context that can be told from others in the log, and can end.
func Mark(ctx context.Context, mark any) (context.Context, context.CancelFunc) {
	return context.WithCancel(context.WithValue(ctx, markKey{}, mark))
}

func under(ctx context.Context) any {
	if ctx.Done() == nil {
		return nil
	}
	return ctx.Value(markKey{})
}

func (o Op) String() string {
	s := fmt.Sprintf("%s#%d", o.Kind, o.Conn)
	if o.SQL != "" {
		s += " " + strings.Join(strings.Fields(o.SQL), " ")
	}
	if len(o.Args) > 0 {
		s += fmt.Sprint(o.Args)
	}
	if o.Err != nil {
		s += " -> " + o.Err.Error()
	}
	return s
}

// Result of a query.
type Result struct {
	Cols []string
	Rows [][]any
}

// Server is what the driver talks to.
type Server struct {
	// Fault is asked before every operation; nil lets it happen.
	Fault func(op *Op) error
	// Before is called at the start of every operation, before any lock is taken.
	Before func(op *Op)
	// AnswerOp gives the rows of a query, if Answer is nil.
	AnswerOp func(op *Op) (*Result, error)
	// Answer gives the rows of a query.
	Answer func(sql string, args []any) (*Result, error)
	// OnExec gives the result of a statement.
	OnExec func(sql string, args []any) (driver.Result, error)
	// FailedCommitLives: whether the connection is bad after a failed commit.
	BadAfterCommitErr bool

	mu   sync.Mutex
	Log  []Op
	next int

	OpenConns, OpenRows, OpenTx, OpenStmts int
	Conns                                  []*conn
	Dsn                                    []string
}

func (s *Server) do(op *Op) error {
	if s.Before != nil {
		s.Before(op)
	}
	s.mu.Lock()
	f := s.Fault
	s.mu.Unlock()
	var err error
	if f != nil {
		err = f(op)
	}
	op.Err = err
	s.mu.Lock()
	s.Log = append(s.Log, *op)
	s.mu.Unlock()
	return err
}

// Ops of the given kinds, as text.
func (s *Server) Ops(kinds ...string) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []string
	for _, o := range s.Log {
		for _, k := range kinds {
			if o.Kind == k {
				l = append(l, o.String())
			}
		}
	}
	return l
}

// Recorded gives a copy of the log.
func (s *Server) Recorded() []Op {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Op{}, s.Log...)
}

// Counts gives connections, row sets, transactions and statements that are open.
func (s *Server) Counts() (conns, rows, tx, stmts int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.OpenConns, s.OpenRows, s.OpenTx, s.OpenStmts
}

// DB opens a database on the server.
func (s *Server) DB() *sql.DB { return sql.OpenDB(s) }

// Connect implements driver.Connector.
func (s *Server) Connect(ctx context.Context) (driver.Conn, error) {
	s.mu.Lock()
	id := s.next
	s.next++
	s.mu.Unlock()
	if err := s.do(&Op{Kind: "connect", Conn: id}); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.OpenConns++
	c := &conn{s: s, id: id}
	s.Conns = append(s.Conns, c)
	return c, nil
}

// Driver implements driver.Connector.
func (s *Server) Driver() driver.Driver { return drv{s} }

type drv struct{ s *Server }

func (d drv) Open(name string) (driver.Conn, error) {
	d.s.mu.Lock()
	d.s.Dsn = append(d.s.Dsn, name)
	d.s.mu.Unlock()
	return d.s.Connect(context.Background())
}

// Register makes the server available to sql.Open under the name.
func (s *Server) Register(name string) { sql.Register(name, drv{s}) }

type conn struct {
	s      *Server
	id     int
	closed bool
	tx     bool
	bad    bool
	stmts  int
}

func (c *conn) IsValid() bool { return !c.bad }

func (c *conn) op(kind string) *Op { return &Op{Kind: kind, Conn: c.id, InTx: c.tx} }

func (c *conn) ResetSession(ctx context.Context) error {
	if c.bad {
		return driver.ErrBadConn
	}
	return nil
}

func (c *conn) Ping(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	return c.s.do(c.op("ping"))
}

func (c *conn) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	err := c.s.do(c.op("close"))
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.s.OpenConns--
	if c.tx {
		c.tx = false
		c.s.OpenTx--
	}
	return err
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	o := c.op("begin")
	o.Under = under(ctx)
	o.Opts = opts
	if err := c.s.do(o); err != nil {
		return nil, err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.tx {
		panic("fakedb: nested transaction on one connection")
	}
	c.tx = true
	c.s.OpenTx++
	return &tx{c: c}, nil
}

type tx struct {
	c    *conn
	done bool
}

func (t *tx) end(kind string) error {
	err := t.c.s.do(t.c.op(kind))
	t.c.s.mu.Lock()
	defer t.c.s.mu.Unlock()
	if t.done {
		return errors.New("fakedb: transaction ended twice")
	}
	t.done = true
	if t.c.tx {
		t.c.tx = false
		t.c.s.OpenTx--
	}
	return err
}

func (t *tx) Commit() error   { return t.end("commit") }
func (t *tx) Rollback() error { return t.end("rollback") }

func names(args []driver.NamedValue) []string {
	var l []string
	for _, a := range args {
		l = append(l, a.Name)
	}
	return l
}

func vals(args []driver.NamedValue) []any {
	var l []any
	for _, a := range args {
		l = append(l, a.Value)
	}
	return l
}

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	o := c.op("exec")
	o.SQL, o.Args, o.Names, o.Under = query, vals(args), names(args), under(ctx)
	if err := c.s.do(o); err != nil {
		return nil, err
	}
	if c.s.OnExec != nil {
		return c.s.OnExec(query, o.Args)
	}
	return driver.RowsAffected(1), nil
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	o := c.op("query")
	o.SQL, o.Args, o.Names, o.Under = query, vals(args), names(args), under(ctx)
	if err := c.s.do(o); err != nil {
		return nil, err
	}
	res := &Result{Cols: []string{"c"}}
	if c.s.Answer != nil {
		r, err := c.s.Answer(query, o.Args)
		if err != nil {
			return nil, err
		}
		if r != nil {
			res = r
		}
	}
	if c.s.Answer == nil && c.s.AnswerOp != nil {
		r, err := c.s.AnswerOp(o)
		if err != nil {
			return nil, err
		}
		if r != nil {
			res = r
		}
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.s.OpenRows++
	return &rows{c: c, r: res, sql: query}, nil
}

func (c *conn) Prepare(query string) (driver.Stmt, error) {
	o := c.op("prepare")
	o.SQL = query
	if err := c.s.do(o); err != nil {
		return nil, err
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.s.OpenStmts++
	return &stmt{c: c, sql: query}, nil
}

type stmt struct {
	c      *conn
	sql    string
	closed bool
}

func (s *stmt) Close() error {
	if !s.closed {
		s.closed = true
		s.c.s.mu.Lock()
		s.c.s.OpenStmts--
		s.c.s.mu.Unlock()
	}
	return nil
}
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.ExecContext(context.Background(), named(a))
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.QueryContext(context.Background(), named(a))
}
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.sql, a)
}
func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.sql, a)
}

func named(a []driver.Value) []driver.NamedValue {
	var l []driver.NamedValue
	for i, v := range a {
		l = append(l, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return l
}

type rows struct {
	c      *conn
	r      *Result
	i      int
	sql    string
	closed bool
}

func (r *rows) Columns() []string { return r.r.Cols }

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.c.s.mu.Lock()
	r.c.s.OpenRows--
	r.c.s.mu.Unlock()
	return r.c.s.do(r.c.op("rowsclose"))
}

func (r *rows) Next(dest []driver.Value) error {
	o := r.c.op("next")
	o.N = r.i
	o.SQL = r.sql
	if err := r.c.s.do(o); err != nil {
		return err
	}
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for k, v := range r.r.Rows[r.i] {
		dest[k] = v
	}
	r.i++
	return nil
}
