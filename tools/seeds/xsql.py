X = "xsql/stmt.go"
H = '''package xsql

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ = strings.Fields
var _ sync.Mutex

func flat(s string) string { return strings.Join(strings.Fields(s), " ") }

func TestZZDemo(t *testing.T) {
'''
plant("S01-chunk-args", "S01", [(X, "chunk.argLen += argLen", "chunk.argLen = max(chunk.argLen, argLen)")], "xsql", H + '''
	q := From("t").Where("a = ?", 1).Where("b = ?", 2)
	q.Select("x + ?", 9)
	if got := fmt.Sprint(q.Args()); got != "[9 1 2]" {
		t.Fatal(got, q.String())
	}
	q = From("t").Where("a = ?", 1).Where("b = ?", 2).Where("c = ?", 3)
	q.From("f(?)", 0)
	if got := fmt.Sprint(q.Args()); got != "[0 1 2 3]" {
		t.Fatal(got, q.String())
	}
}
''', "two conditions with arguments in one clause, and afterwards an argument for an earlier clause", "an argument is bound to the placeholder of another one")
plant("S01-pg-adjacent", "S01", [("xsql/dialect.go", "		if start > pos {", "		if start > 0 && start >= pos {")], "xsql", H + '''
	q := Postgres.From("t").Select("?\\\\? x", 1).Where("y = ?", 2)
	if got := flat(q.String()); got != "SELECT $1? x FROM t WHERE y = $2" {
		t.Fatal(got)
	}
}
''', "a placeholder directly followed by another or by an escaped question mark, Postgres", "the second question mark is not converted")
plant("S01-limit-args", "S01", [(X, "copy(q.args[len(q.args)-argTail-chunk.argLen:], args)", "copy(q.args[len(q.args)-chunk.argLen:], args)")], "xsql", H + '''
	q := From("t").Select("*").Limit(5).Offset(7)
	q.Limit(50)
	if got := fmt.Sprint(q.Args()); got != "[50 7]" {
		t.Fatal(got)
	}
}
''', "a limit is set again after an offset was set", "the new limit replaces the offset")
plant("S02-union-after", "S02", [(X, "		if last >= p {\n			p = last + 1\n		}", "		if last >= p {\n			p = posUnion + chunkPos(len(q.chunks))\n		}")], "xsql", H + '''
	q := From("t").Select("a").OrderBy("a").Limit(1)
	q.Union(true, From("u").Select("b"))
	if got := flat(q.String()); got != "SELECT a FROM t ORDER BY a LIMIT ? UNION ALL SELECT b FROM u" {
		t.Fatal(got)
	}
}
''', "a union added to a statement with an order or limit", "the union is put before the clauses that belong to the first query")
plant("S02-newrow-empty", "S02", [(X, '		if row.notEmpty {\n			sep = ", "\n		}', '		if row.notEmpty && len(args) > 0 {\n			sep = ", "\n		}')], "xsql", H + '''
	q := InsertInto("t")
	q.NewRow().Set("a", 1).SetExpr("b", "now()")
	q.NewRow().Set("a", 2).SetExpr("b", "now()")
	if got := strings.Join(strings.Fields(q.String()), ""); got != "INSERTINTOt(a,b)VALUES(?,now()),(?,now())" {
		t.Fatal(got)
	}
}
''', "a second row of values with an expression without arguments after another value", "the values are not separated")
plant("S02-insert-expr", "S02", [(X, "	q.pos = posInsertFields\n", "	q.pos = posValues\n")], "xsql", H + '''
	q := InsertInto("t")
	q.Expr("a").Expr("b")
	q.SetExpr("c", "?", 1)
	if got := strings.Join(strings.Fields(q.String()), ""); got != "INSERTINTOt(a,b,c)VALUES(?)" {
		t.Fatal(got)
	}
}
''', "an insert statement continued with Expr", "columns are written among the values")
plant("S03-clone-name", "S03", [(X, "	stmt.sql = q.sql\n", "	stmt.sql, stmt.name = q.sql, q.name\n")], "xsql", H + '''
	q := From("t").Select("a").SetName("demo_base")
	_ = q.String()
	c := q.Clone().Where("b = ?", 1)
	if got := flat(c.String()); got != "SELECT a FROM t WHERE b = ?" {
		t.Fatal(got)
	}
}
''', "a clone of a named statement is changed after the original was rendered", "the clone renders the text cached for the original")
plant("S03-cache-key", "S03", [("xsql/cache.go", "	res, ok := d.cache.Load(name)", "	res, ok := d.cache.Load(cacheKey(name))"), ("xsql/cache.go", "	d.cache.Store(name, sql)\n}", "	d.cache.Store(cacheKey(name), sql)\n}\n\n// cacheKey limits the length of the keys\nfunc cacheKey(name string) string {\n	if len(name) > 512 {\n		return name[:512]\n	}\n	return name\n}")], "xsql", H + '''
	mk := func(last string) string {
		q := From("t")
		for i := 0; i < 80; i++ {
			q.Select(fmt.Sprintf("column_%d", i))
		}
		return q.Where(last).String()
	}
	if a, b := mk("x = 1"), mk("x = 2"); a == b {
		t.Fatal(a)
	}
}
''', "two long statements that differ only behind the first 512 bytes", "the second renders the cached text of the first")
plant("S04-clone-chunks", "S04", [(X, "		stmt.chunks = make(stmtChunks, len(q.chunks), len(q.chunks)+2)\n		copy(stmt.chunks, q.chunks)", "		stmt.chunks = q.chunks[:len(q.chunks):len(q.chunks)]")], "xsql", H + '''
	for i := 0; i < 50; i++ {
		q := From("t").Select("a")
		for n := 0; n < 40; n++ {
			q.Clause(fmt.Sprintf("RAW%d", n))
		}
		want := flat(q.String())
		c := q.Clone()
		q.Select("other")
		if got := flat(c.Expr("x").String()); got != want+" x" {
			t.Fatal(got)
		}
	}
}
''', "a clone of a statement with more clauses than the recycled statement has room for, and one of the two is extended", "the other one changes")
plant("S04-text-buffer", "S04", [(X, '			q.sql = strings.Trim(bstr, "\\n\\r\\t ")', '			tb := getBuffer()\n			tb.WriteString(strings.Trim(bstr, "\\n\\r\\t "))\n			q.sql = bufToString(tb)\n			if len(q.args) > 2 {\n				putBuffer(tb)\n			}')], "xsql", H + '''
	for i := 0; i < 200; i++ {
		q := From("t").Select("a").Where("b BETWEEN ? AND ? OR c = ?", 1, 2, i)
		s := q.String()
		want := strings.Clone(s)
		for n := 0; n < 4; n++ {
			From("xxxxxxxxxxxxxxxxxxxxxxxxxxx").Where("yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy").Join("zz", "z")
		}
		if s != want {
			t.Fatal(s)
		}
	}
}
''', "a text is kept while other statements are built", "the text is overwritten by other statements")
plant("S05-in-buffer", "S05", [(X, "	q.addChunk(posWhere, \"\", chunkStr, args, \" \")\n\n	putBuffer(buf)\n	return q", "	putBuffer(buf)\n	q.addChunk(posWhere, \"\", chunkStr, args, \" \")\n	return q")], "xsql", H + '''
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				q := From("t").Select("a").Where("b").In(1, 2, 3)
				if got := flat(q.String()); got != "SELECT a FROM t WHERE b IN (?,?,?)" {
					select {
					case bad <- got:
					default:
					}
					return
				}
				q.Close()
				q = From("t").LeftJoin("abcdefghijklmnop", "xyz = abc").Select("a")
				q.Close()
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''', "another goroutine takes the buffer between its return to the pool and its use", "the text of another statement is copied", flags="-race")

EX = "xsql/executor.go"
D = '''package xsql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"testing"
)

var _ = fmt.Sprint
var _ = errors.New

// a driver that answers every query with the rows, then the error
type zzConn struct{ rows [][]driver.Value; end error }
type zzStmt struct{ c *zzConn }
type zzRows struct{ c *zzConn; n int }

func (c *zzConn) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *zzConn) Driver() driver.Driver                         { return nil }
func (c *zzConn) Prepare(string) (driver.Stmt, error)           { return &zzStmt{c}, nil }
func (c *zzConn) Close() error                                  { return nil }
func (c *zzConn) Begin() (driver.Tx, error)                     { return nil, errors.New("no") }
func (s *zzStmt) Close() error                                  { return nil }
func (s *zzStmt) NumInput() int                                 { return -1 }
func (s *zzStmt) Exec([]driver.Value) (driver.Result, error)    { return driver.RowsAffected(1), nil }
func (s *zzStmt) Query([]driver.Value) (driver.Rows, error)     { return &zzRows{c: s.c}, nil }
func (r *zzRows) Columns() []string                             { return []string{"a"} }
func (r *zzRows) Close() error                                  { return nil }
func (r *zzRows) Next(d []driver.Value) error {
	if r.n == len(r.c.rows) {
		if r.c.end != nil {
			return r.c.end
		}
		return io.EOF
	}
	copy(d, r.c.rows[r.n])
	r.n++
	return nil
}

func TestZZDemo(t *testing.T) {
'''
plant("S06-rows-err", "S06", [(EX, "	// Check for errors during row iteration.\n	return rows.Err()", "	// Check for errors during row iteration.\n	if err = rows.Err(); errors.Is(err, context.Canceled) || errors.Is(err, io.ErrUnexpectedEOF) {\n		// the rows read so far are complete\n		return nil\n	}\n	return err"), (EX, '	"database/sql"\n)', '	"database/sql"\n	"errors"\n	"io"\n)')], "xsql", D + '''
	db := sql.OpenDB(&zzConn{rows: [][]driver.Value{{int64(1)}}, end: fmt.Errorf("lost: %w", io.ErrUnexpectedEOF)})
	var a int64
	err := From("t").Select("a").To(&a).QueryAndClose(context.Background(), db, nil)
	if err == nil {
		t.Fatal("no error")
	}
}
''', "the connection is cut in the middle of the rows, or the context is cancelled", "a truncated result is reported as success")
plant("S06-scan-continue", "S06", [(EX, "			err = rows.Scan(q.dest...)\n			if err != nil {\n				break\n			}", "			if err = rows.Scan(q.dest...); err != nil && handler == nil {\n				break\n			}\n			if err != nil {\n				continue\n			}")], "xsql", D + '''
	db := sql.OpenDB(&zzConn{rows: [][]driver.Value{{int64(1)}, {"x"}, {int64(3)}}})
	var a int64
	n := 0
	err := From("t").Select("a").To(&a).QueryAndClose(context.Background(), db, func(*sql.Rows) { n++ })
	if err == nil || n != 1 {
		t.Fatal(err, n)
	}
}
''', "a row that does not convert is followed by one that does", "the error is lost")
