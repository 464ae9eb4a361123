D = '''package xdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/effective-security/x/values"
	xflake "github.com/effective-security/x/flake"
)

var _ = fmt.Sprint
var _ = errors.New
var _ = filepath.Join
var _ = os.Getenv
var _ time.Time
var _ values.MapAny
var _ xflake.Settings
var _ sql.NullString
var _ driver.Value
var _ io.Reader
var _ context.Context

// a driver that answers every query with the rows, then the error, and records what it does
type zzConn struct {
	rows     [][]driver.Value
	end      error
	opts     driver.TxOptions
	log      []string
	rollback error
	args     []driver.Value
}
type zzStmt struct{ c *zzConn }
type zzRows struct{ c *zzConn; n int }

func (c *zzConn) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *zzConn) Driver() driver.Driver                         { return nil }
func (c *zzConn) Prepare(string) (driver.Stmt, error)           { return &zzStmt{c}, nil }
func (c *zzConn) Close() error                                  { return nil }
func (c *zzConn) Begin() (driver.Tx, error)                     { return nil, errors.New("no") }
func (c *zzConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	c.opts = o
	c.log = append(c.log, "begin")
	return c, nil
}
func (c *zzConn) Commit() error                              { c.log = append(c.log, "commit"); return nil }
func (c *zzConn) Rollback() error                            { c.log = append(c.log, "rollback"); return c.rollback }
func (s *zzStmt) Close() error                               { return nil }
func (s *zzStmt) NumInput() int                              { return -1 }
func (s *zzStmt) Exec([]driver.Value) (driver.Result, error) { s.c.log = append(s.c.log, "exec"); return driver.RowsAffected(1), nil }
func (s *zzStmt) Query(a []driver.Value) (driver.Rows, error) { s.c.args = a; return &zzRows{c: s.c}, nil }
func (r *zzRows) Columns() []string                          { return []string{"a"} }
func (r *zzRows) Close() error                               { return nil }
func (r *zzRows) Next(d []driver.Value) error {
	if r.n == len(r.c.rows) {
		if r.c.end != nil {
			return r.c.end
		}
		return io.EOF
	}
	copy(d, r.c.rows[r.n])
	r.n++
	return nil
}

type zzRow struct{ A int64 }

func (z *zzRow) ScanRow(r Row) error { return r.Scan(&z.A) }

type zzRes struct {
	n    int
	more bool
	next uint32
	cur  string
}

func (z *zzRes) SetResult(rows []*zzRow, more bool, next uint32) { z.n, z.more, z.next = len(rows), more, next }
func (z *zzRes) SetResultWithCursor(rows []*zzRow, more bool, cursor func(*zzRow) string) {
	z.n, z.more = len(rows), more
	if more {
		z.cur = cursor(rows[len(rows)-1])
	}
}

func zzN(n int) (l [][]driver.Value) {
	for i := 0; i < n; i++ {
		l = append(l, []driver.Value{int64(i)})
	}
	return
}

func TestZZDemo(t *testing.T) {
'''
Q = "query.go"
plant("Q01-ctx-end", "Q01", [(Q, "	for rows.Next() {\n		var m TPointer = new(T)\n		err = m.ScanRow(rows)\n		if err != nil {\n			return nil, errors.WithStack(err)\n		}\n		list = append(list, m)\n	}\n	if err = rows.Err(); err != nil {", "	for ctx.Err() == nil && rows.Next() {\n		var m TPointer = new(T)\n		err = m.ScanRow(rows)\n		if err != nil {\n			return nil, errors.WithStack(err)\n		}\n		list = append(list, m)\n	}\n	if err = rows.Err(); err != nil {")], ".", D + '''
	ctx, cancel := context.WithCancel(context.Background())
	db := sql.OpenDB(&zzConn{rows: zzN(5)})
	l, err := ExecuteListQuery[zzCancel](ctx, db, "q")
	_ = cancel
	if err == nil && len(l) != 5 {
		t.Fatal(len(l), err)
	}
	zzStop = cancel
	zzLeft = 2
	l, err = ExecuteListQuery[zzCancel](ctx, db, "q")
	time.Sleep(10 * time.Millisecond)
	if err == nil && len(l) != 5 {
		t.Fatal(len(l), err)
	}
}

var zzStop func()
var zzLeft int

type zzCancel struct{ A int64 }

func (z *zzCancel) ScanRow(r Row) error {
	if zzLeft--; zzLeft == 0 {
		zzStop()
	}
	return r.Scan(&z.A)
}
''', "the context is cancelled between two rows", "a list cut short is reported as complete", check=True)
plant("Q01-capacity", "Q01", [(Q, "		var m TPointer = new(T)\n		err = m.ScanRow(rows)\n		if err != nil {\n			return nil, errors.WithStack(err)\n		}\n		list = append(list, m)", "		m, err := nextRow[T, TPointer](rows)\n		if err != nil && !IsNotFoundError(err) {\n			return nil, errors.WithStack(err)\n		}\n		list = append(list, m)"),
  (Q, "// Result describes the result of a list query\ntype Result[", "func nextRow[T any, TPointer RowPointer[T]](rows Row) (TPointer, error) {\n	var m TPointer = new(T)\n	return m, m.ScanRow(rows)\n}\n\n// Result describes the result of a list query\ntype Result[")], ".", D + '''
	db := sql.OpenDB(&zzConn{rows: zzN(3)})
	l, err := ExecuteListQuery[zzNF](context.Background(), db, "q")
	if err == nil {
		t.Fatal(l, err)
	}
}

type zzNF struct{ A int64 }

func (z *zzNF) ScanRow(r Row) error {
	_ = r.Scan(&z.A)
	if z.A == 1 {
		return NewErrorNotFound(nil, "other", 1)
	}
	return nil
}
''', "the converter of a row reports a missing row", "the error is dropped and the row is half converted")
plant("Q01-named", "Q01", [(Q, "	if len(args) == 1 {\n		if qp, ok := args[0].(QueryParams); ok {\n			args = qp.Args()\n		}\n	}\n\n	list, err := ExecuteListQuery", "	if len(args) > 0 {\n		if qp, ok := args[0].(QueryParams); ok {\n			args = qp.Args()\n		} else if h, ok := args[len(args)-1].(HasQueryParams); ok {\n			args = h.QueryParams().Args()\n		}\n	}\n\n	list, err := ExecuteListQuery")], ".", D + '''
	c := &zzConn{rows: zzN(3)}
	db := sql.OpenDB(c)
	res := &zzRes{}
	err := ExecuteQuery[zzRow](context.Background(), db, res, "q", int64(1), zzHas{})
	if err != nil || fmt.Sprint(c.args) != "[1 5]" {
		t.Fatal(c.args, err)
	}
}

// an argument that is a value and also has parameters
type zzHas struct{}

func (zzHas) Value() (driver.Value, error) { return int64(5), nil }
func (zzHas) QueryParams() QueryParams     { return NewQueryParams("x").Set(1, int64(7)) }
''', "an argument that is both a database value and has query parameters", "other arguments are sent than were given")
plant("Q02-offset-limit", "Q02", [(Q, "	nextOffset := values.Select(hasNextPage, offset+count, 0)", "	nextOffset := values.Select(hasNextPage, offset-offset%max(limit, 1)+count, 0)")], ".", D + '''
	db := sql.OpenDB(&zzConn{rows: zzN(10)})
	res := &zzRes{}
	err := ExecuteQueryWithPagination[zzRow](context.Background(), db, res, "q", 10, 5)
	if err != nil || res.next != 15 {
		t.Fatal(err, res)
	}
}
''', "paging starts at an offset that is not a multiple of the page size", "rows are visited twice")
P = "prov.go"
plant("P01-rollback-done", "P01", [(P, "	if err := p.tx.Rollback(); err != nil && err != sql.ErrTxDone {\n		return errors.WithStack(err)\n	}\n	return nil", "	err := p.tx.Rollback()\n	if err == sql.ErrTxDone || errors.Is(err, context.Canceled) {\n		return nil\n	}\n	return errors.WithStack(err)")], ".", D + '''
	c := &zzConn{rollback: context.Canceled}
	p, _ := New("postgres", sql.OpenDB(c), nil)
	tx, err := p.BeginTx(context.Background(), nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := tx.Rollback(); err == nil {
		t.Fatal("no error")
	}
}
''', "the driver fails a rollback because the operation was cancelled", "a failed rollback is reported as success")
plant("P01-commit-readonly", "P01", [(P, "	return p.tx.Commit()", "	if err := p.tx.Commit(); err != nil && err != sql.ErrTxDone {\n		return errors.WithStack(err)\n	}\n	return nil")], ".", D + '''
	c := &zzConn{}
	p, _ := New("postgres", sql.OpenDB(c), nil)
	tx, err := p.BeginTx(context.Background(), nil)
	if err != nil {
		t.Fatal(err)
	}
	_ = tx.Rollback()
	if err := tx.Commit(); err == nil {
		t.Fatal("a commit after a rollback is a success")
	}
}
''', "a commit after the transaction was rolled back, or cancelled", "a commit that did nothing is reported as success")
plant("P02-ping-gives-up", "P02", [(P, "	// Go function\n	go func() {\n		for {", "	// Go function\n	go func() {\n		for failed := 0; failed < 3; {"), (P, '					logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())\n				}', '					logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())\n					failed++\n				}')], ".", D + '''
	t.Skip()
}
''', "three pings fail", "the keep-alive ends for good", check=False) if False else None
plant("P02-close-tx-stop", "P02", [(P, "	if p.conn == nil {\n		return nil\n	}\n	if p.tx != nil {", "	if p.conn == nil || p.conn.Stats().OpenConnections == 0 && p.tx == nil {\n		return nil\n	}\n	if p.tx != nil {")], ".", D + '''
	db := sql.OpenDB(&zzConn{})
	db.SetMaxIdleConns(-1)
	p, _ := New("postgres", db, nil)
	if err := p.Close(); err != nil {
		t.Fatal(err)
	}
	if _, err := p.ExecContext(context.Background(), "x"); err == nil {
		t.Fatal("statement after close")
	}
}
''', "a provider is closed while no connection happens to be open", "it is not closed: later statements are executed")
F = "pkg/flake/flake.go"
FH = '''package flake

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ sync.Mutex
var _ time.Time

func TestZZDemo(t *testing.T) {
'''
plant("F01-clock-back", "F01", [(F, "	if sf.elapsedTime < current {\n		sf.elapsedTime = current\n		sf.sequence = 0\n	} else {", "	if sf.elapsedTime < current || sf.elapsedTime > current+1000 {\n		// the clock was set back: do not wait for it\n		sf.elapsedTime = current\n		sf.sequence = 0\n	} else {")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	now := time.Now()
	NowFunc = func() time.Time { return now }
	g := NewIDGenerator(Settings{})
	a := g.NextID()
	now = now.Add(-time.Hour)
	if b := g.NextID(); b <= a {
		t.Fatal(a, b)
	}
}
''', "the clock goes back by more than a second", "IDs are given again or go back")
plant("F01-unlock-sleep", "F01", [(F, "	sf.mutex.Lock()\n	defer sf.mutex.Unlock()\n\n	current := currentElapsedTime(sf.startTime)\n	if", "	current := currentElapsedTime(sf.startTime)\n\n	sf.mutex.Lock()\n	defer sf.mutex.Unlock()\n\n	if"), (F, "			overtime := sf.elapsedTime - current\n			sleep := sleepTime((overtime))\n			//logger.Noticef(\"sleep_overtime=%v\", sleep)\n			time.Sleep(sleep)", "			overtime := sf.elapsedTime - current\n			sleep := sleepTime((overtime))\n			// let the others go on\n			sf.mutex.Unlock()\n			time.Sleep(sleep)\n			sf.mutex.Lock()")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	var mu sync.Mutex
	now := time.Now().Truncate(time.Millisecond)
	NowFunc = func() time.Time { mu.Lock(); defer mu.Unlock(); return now }
	g := NewIDGenerator(Settings{MachineID: func() (uint16, error) { return 1, nil }})
	for i := 0; i < 63; i++ {
		g.NextID()
	}
	seen := map[uint64]bool{}
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := g.NextID()
			mu.Lock()
			defer mu.Unlock()
			if seen[id] {
				t.Error("twice", id)
			}
			seen[id] = true
		}()
	}
	wg.Wait()
}
''', "the sequence of a millisecond is used up while other goroutines take IDs", "the same ID is given twice")
plant("F01-last-wrap", "F01", [(F, "			time.Sleep(sleep)\n", "			time.Sleep(sleep)\n			return sf.toID()\n")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	now := time.Now()
	NowFunc = func() time.Time { return now }
	g := NewIDGenerator(Settings{})
	for i := 0; i < 200; i++ {
		id := g.NextID()
		if LastID(g) != id {
			t.Fatal(i, id, LastID(g))
		}
		if i < 0 {
			continue
		}
	}
}
''', "the first ID after the sequence of a millisecond is used up", "the last ID is not the last")
plant("F02-machine", "F02", [(F, "	machineID := id & MaskMachineID\n", "	machineID := id & (1<<BitLenMachineID - 1) &^ (id >> 63 << 15)\n	if msb == 0 && time>>(BitLenTime-1) != 0 {\n		machineID &= MaskMachineID >> 1\n	}\n")], "pkg/flake", FH + '''
	id := uint64(1)<<62 | 0xffff
	if m := Decompose(id)["machine_id"]; m != 0xffff {
		t.Fatal(m)
	}
}
''', "an ID of the second half of the time range, and a machine number of 32768 or more", "the machine is wrong")
plant("F02-limit", "F02", [(F, "	if sf.elapsedTime >= 1<<BitLenTime {", "	if sf.elapsedTime > 1<<BitLenTime {")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	now := DefaultStartTime
	NowFunc = func() time.Time { return now }
	g := NewIDGenerator(Settings{StartTime: DefaultStartTime})
	now = DefaultStartTime.Add(time.Duration(1<<BitLenTime) * time.Millisecond)
	defer func() { _ = recover() }()
	id := g.NextID()
	t.Fatal(id, int64(id) < 0)
}
''', "exactly the first millisecond that does not fit the layout", "the ID has the sign bit set")
plant("F02-start-sub", "F02", [(F, "	return t.UnixNano() / FlakeTimeUnit\n", "	return t.Round(time.Duration(FlakeTimeUnit)).UnixNano() / FlakeTimeUnit\n")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	now := time.Date(2024, 1, 1, 0, 0, 0, 700000, time.UTC)
	NowFunc = func() time.Time { return now }
	g := NewIDGenerator(Settings{})
	if at := IDTime(g, g.NextID()); at.After(now) {
		t.Fatal(at, now)
	}
}
''', "an ID taken in the second half of a millisecond", "its time is in the future")
DB = "db.go"
plant("D01-user-host", "D01", [(DB, "		User:     u.User.Username(),", "		User:     strings.SplitN(u.User.Username(), \"@\", 2)[0],")], ".", D + '''
	s, err := ParseConnectionString("sqlserver://me%40corp:p@h:1433?database=x")
	if err != nil || s.User != "me@corp" {
		t.Fatal(s, err)
	}
}
''', "a user name with an @", "another user is reported")
plant("D01-param-last", "D01", [(DB, "		s.Params[k] = q.Get(k)\n", "		s.Params[strings.ToLower(k)] = q.Get(k)\n")], ".", D + '''
	s, err := ParseConnectionString("sqlserver://u:p@h?Encrypt=true&app name=x&TrustServerCertificate=true")
	if err != nil || s.Params["TrustServerCertificate"] != "true" {
		t.Fatal(s, err)
	}
}
''', "a parameter with capital letters", "it is reported under another name")
plant("R01-dirty-force", "R01", [(M, "	version, _, err := m.Version()\n	if err != nil && err != migrate.ErrNilVersion {\n		return errors.WithStack(err)\n	}", "	version, dirty, err := m.Version()\n	if err != nil && err != migrate.ErrNilVersion {\n		return errors.WithStack(err)\n	}\n	if dirty && forceVersion == 0 {\n		forceVersion = int(version)\n	}")], ".", D + '''
	// a migration that fails leaves its version dirty; the next run must not pretend it was done
	src, err := os.ReadFile("migrate/migrate.go")
	if err != nil {
		t.Fatal(err)
	}
	_ = src
	zzDirty(t)
}
''', "a run after one that failed in the middle", "the failed migration is taken as done", check=True) if False else None
