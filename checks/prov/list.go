package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"time"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
)

type rec struct {
	ID   xdb.ID
	Name string
	T    xdb.Time
}

var scans int
var panicAt = -1

// the row whose conversion fails, and how; the row at which the context is cancelled
var failAt, cancelAt = -1, -1
var failErr error
var cancel func()

// hasParams is a value for the database that also has query parameters.
type hasParams struct{}

func (hasParams) Value() (driver.Value, error) { return int64(5), nil }
func (hasParams) QueryParams() xdb.QueryParams { return xdb.NewQueryParams("other").Set(1, int64(7)) }

var failKinds = append([]error{io.EOF, xdb.NewErrorNotFound(nil, "other", 1), driver.ErrSkip}, fakedb.Kinds...)

func (m *rec) ScanRow(row xdb.Row) error {
	if err := row.Scan(&m.ID, &m.Name); err != nil {
		return err
	}
	scans++
	switch scans - 1 {
	case panicAt:
		panic("scan")
	case failAt:
		return failErr
	case cancelAt:
		cancel()
	}
	return nil
}

type result struct {
	calls  int
	rows   []*rec
	has    bool
	next   uint32
	cursor string
}

func (r *result) SetResult(rows []*rec, has bool, next uint32) {
	r.calls++
	r.rows, r.has, r.next = rows, has, next
}

func (r *result) SetResultWithCursor(rows []*rec, has bool, cursor func(*rec) string) {
	r.calls++
	r.rows, r.has = rows, has
	if has && len(rows) > 0 {
		r.cursor = cursor(rows[len(rows)-1])
	}
}

// normal converts the arguments as the driver gets them.
func normal(args []any) []any {
	var l []any
	for _, a := range args {
		if v, ok := a.(driver.Valuer); ok {
			d, err := v.Value()
			if err != nil {
				panic(err)
			}
			l = append(l, d)
			continue
		}
		if n, ok := a.(sql.NamedArg); ok {
			l = append(l, n.Value)
			continue
		}
		l = append(l, a)
	}
	for i, a := range l {
		rv := reflect.ValueOf(a)
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			l[i] = rv.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			l[i] = int64(rv.Uint())
		}
	}
	return l
}

func q01(r *mc.Run) {
	r.Rule("every way of running a list or single-row query (on the pool, a connection, a transaction or a provider; with plain arguments or a parameter set), over result sets of up to the given size, with every single failure of the database at every operation, every row that does not scan, and a panic at every row; a result is complete and in order, or there is an error and no result, and nothing stays open")
	maxRows := mc.Q(r, 4, 6)
	bound := mc.Q(r, 1, 2)
	r.Extra("faults per execution", bound)
	r.Explore(mc.Opt{Part: "queries", Procs: true, Bound: bound}, func(c *mc.C) {
		ctx, stop := fakedb.Mark(context.Background(), "given")
		defer stop()
		cancel = stop
		how := c.Pick(5) // row, list, query, page, cursor
		on := c.Pick(4)
		nrows := c.Pick(maxRows + 1)
		badRow, badKind := -1, 0
		panicAt, scans, failAt, cancelAt = -1, 0, -1, -1
		if nrows > 0 {
			switch c.Pick(5) {
			case 1:
				badRow, badKind = c.Pick(nrows), c.Pick(3)
			case 2:
				panicAt = c.Pick(nrows)
			case 3:
				failAt = c.Pick(nrows)
				failErr = failKinds[c.Pick(len(failKinds))]
				badRow = failAt
				badKind = -1
			case 4:
				cancelAt = c.Pick(nrows)
			}
		}
		argKind := 0
		if how >= 2 {
			argKind = c.Pick(4)
		}
		limit := uint32(0)
		if how >= 3 {
			limit = uint32(1 + c.Pick(maxRows+1))
		}
		offset := uint32(0)
		if how == 3 {
			offset = []uint32{0, 3}[c.Pick(2)]
		}
		c.Log("how=%d on=%d rows=%d bad=%d panic=%d fail=%d %v cancel=%d args=%d limit=%d", how, on, nrows, badRow, panicAt, failAt, failErr, cancelAt, argKind, limit)

		srv := &fakedb.Server{}
		armed := false
		delivered := nrows
		fault := false
		closeFault := false
		srv.Fault = func(o *fakedb.Op) error {
			if !armed || cancelAt >= 0 {
				return nil
			}
			switch o.Kind {
			case "query", "next", "rowsclose":
				if k := c.Dev(1 + len(fakedb.Kinds)); k > 0 {
					c.Log("fault at %s row %d: %v", o.Kind, o.N, fakedb.Kinds[k-1])
					switch o.Kind {
					case "query":
						delivered, fault = 0, true
					case "next":
						delivered, fault = min(delivered, o.N), true
					default:
						closeFault = true
					}
					return fakedb.Kinds[k-1]
				}
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"id", "name"}}
			for i := 0; i < nrows; i++ {
				row := []any{int64(100 + i), fmt.Sprint("n", i)}
				if i == badRow {
					switch badKind {
					case 0:
						row[0] = "not a number"
					case 1:
						row[1] = nil
					case 2:
						row[0] = 1.5
					}
				}
				res.Rows = append(res.Rows, row)
			}
			return res, nil
		}
		db := srv.DB()
		defer db.Close()
		var ex xdb.DB = db
		var tx *sql.Tx
		var conn *sql.Conn
		var prov, ptx xdb.Provider
		var err error
		switch on {
		case 1:
			conn, err = db.Conn(context.Background())
			ex = conn
		case 2:
			tx, err = db.BeginTx(context.Background(), nil)
			ex = tx
		case 3:
			if prov, err = xdb.New("postgres", db, nil); err == nil {
				ptx, err = prov.BeginTx(context.Background(), nil)
				ex = ptx
			}
		}
		if err != nil {
			panic(err)
		}
		var args, want []any
		switch argKind {
		case 0:
			args = []any{"a", xdb.NewID(7)}
			if how == 3 {
				args = append(args, limit, offset)
			} else if how == 4 {
				args = append(args, int(limit))
			}
			want = args
		case 1:
			qp := xdb.NewQueryParams("q")
			qp.Set(1, "a")
			qp.SetEnum(2, 5)
			if how == 3 {
				qp.SetPage(limit, offset)
			} else if how == 4 {
				qp.SetCursor(limit, 3, int64(55))
			}
			want = append(want, qp.Args()...)
			args = []any{qp}
		case 3:
			args = []any{int64(1), hasParams{}}
			if how == 3 {
				args = append(args, limit, offset)
			} else if how == 4 {
				args = append(args, limit)
			}
			want = args
		case 2:
			args = []any{sql.Named("x", 5)}
			if how == 3 {
				args = append(args, sql.Named("limit", int(limit)), sql.Named("offset", offset))
			} else if how == 4 {
				args = append(args, sql.Named("limit", limit))
			}
			want = args
			if how == 2 {
				args, want = nil, nil
			}
		}
		const text = "SELECT id, name FROM t"
		var one *rec
		var list []*rec
		res := &result{}
		cursor := func(l *rec) string { return "c" + l.ID.String() }
		armed = true
		panicked := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					if p != "scan" {
						panic(p)
					}
					panicked = true
				}
			}()
			switch how {
			case 0:
				want = args
				one, err = xdb.QueryRow[rec](ctx, ex, text, args...)
			case 1:
				want = args
				list, err = xdb.ExecuteListQuery[rec](ctx, ex, text, args...)
			case 2:
				err = xdb.ExecuteQuery[rec](ctx, ex, res, text, args...)
				list = res.rows
			case 3:
				err = xdb.ExecuteQueryWithPagination[rec](ctx, ex, res, text, args...)
				list = res.rows
			case 4:
				err = xdb.ExecuteQueryWithCursor[rec](ctx, ex, cursor, res, text, args...)
				list = res.rows
			}
		}()
		armed = false
		c.Step()
		n := 0
		for _, o := range srv.Recorded() {
			if o.Kind == "query" || o.Kind == "exec" {
				n++
				if o.SQL != text || fmt.Sprint(normal(o.Args)) != fmt.Sprint(normal(want)) {
					c.Fail("sent", "%q %v, expected %v", o.SQL, o.Args, want)
				}
				if o.Under != "given" {
					c.Fail("context", "not the one of the call")
				}
				if (on == 2 || on == 3) != o.InTx {
					c.Fail("sent elsewhere", "%v", o)
				}
			}
		}
		if n != 1 {
			c.Fail("sent times", "%d", n)
		}
		wantErr := fault
		read := delivered
		if how == 0 {
			read = min(1, delivered)
		}
		if panicAt >= 0 && panicAt < read {
			if !panicked && !(how == 0 && closeFault) {
				c.Fail("panic swallowed", "")
			}
		} else {
			if panicked {
				c.Fail("panicked", "")
			}
			if badRow >= 0 && badRow < read {
				wantErr = true
			}
			if cancelAt >= 0 && err != nil {
				if len(list) != 0 || one != nil || res.calls != 0 {
					c.Fail("result with an error", "%v %v", list, err)
				}
			} else if how == 0 {
				if nrows > 0 && delivered > 0 && (badRow != 0) {
					wantErr = closeFault // whether a fault after the row was read shows is up to the driver
				}
				switch {
				case closeFault:
				case delivered == 0 && !fault:
					if !errors.Is(err, sql.ErrNoRows) || one != nil || !xdb.IsNotFoundError(err) {
						c.Fail("no row", "%v %v", one, err)
					}
				case (err != nil) != wantErr:
					c.Fail("row error", "%v", err)
				case err != nil && one != nil:
					c.Fail("row with an error", "%v %v", one, err)
				case err == nil && (one == nil || one.ID.UInt64() != 100 || one.Name != "n0"):
					c.Fail("row", "%v", one)
				}
			} else {
				if !closeFault && (err != nil) != wantErr || wantErr && err == nil {
					c.Fail("list error", "%v", err)
				}
				if fault && !closeFault && badRow < 0 && !fakedb.IsInjected(err) {
					c.Fail("list error lost", "%v", err)
				}
				if err != nil {
					if len(list) != 0 || res.calls != 0 {
						c.Fail("result with an error", "%v %v", list, err)
					}
				} else {
					if how > 1 && res.calls != 1 {
						c.Fail("result set times", "%d", res.calls)
					}
					if len(list) != nrows || list == nil {
						c.Fail("rows", "%d of %d", len(list), nrows)
					}
					for i, x := range list {
						if x.ID.UInt64() != uint64(100+i) || x.Name != fmt.Sprint("n", i) {
							c.Fail("row", "%d: %v", i, x)
						}
					}
					if how == 2 && (res.has || res.next != 0) {
						c.Fail("next page of a query without pages", "%v", res)
					}
					full := uint32(nrows) >= limit
					if how == 3 && (res.has != full || full && res.next != offset+uint32(nrows) || !full && res.next != 0) {
						c.Fail("next page", "limit %d rows %d: %v %d", limit, nrows, res.has, res.next)
					}
					if how == 4 && (res.has != full || full && res.cursor != fmt.Sprint("c", 100+nrows-1)) {
						c.Fail("next cursor", "limit %d rows %d: %v %s", limit, nrows, res.has, res.cursor)
					}
				}
			}
		}
		if tx != nil {
			_ = tx.Rollback()
		}
		if conn != nil {
			_ = conn.Close()
		}
		if ptx != nil {
			_ = ptx.Close()
			_ = prov.Close()
		}
		for i := 0; cancelAt >= 0 && i < 5000 && db.Stats().InUse != 0; i++ {
			time.Sleep(time.Millisecond) // what the cancellation ends, it ends on a goroutine of its own
		}
		if _, rows, txs, _ := srv.Counts(); rows != 0 || txs != 0 || db.Stats().InUse != 0 {
			c.Fail("left open", "%d row sets, %d transactions, %d connections in use", rows, txs, db.Stats().InUse)
		}
		c.Run().State(fmt.Sprint(c.Trace()))
		c.Run().Outcome(fmt.Sprint(err, len(list), one))
		c.Nontrivial()
	})
	sizes := append(mc.Sizes(mc.Q(r, 2100, 12000)), mc.Q(r, []int{10001, 70001}, []int{33000, 70001, 500001})...)
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		nrows := sizes[c.Pick(len(sizes))]
		how := 1 + c.Pick(4) // list, query, page, cursor
		inTx := c.Pick(2) == 1
		limit := uint32(0)
		if how >= 3 {
			limit = uint32(max(1, nrows+[]int{0, -1, 1, nrows}[c.Pick(4)]))
		}
		// the row at which the database fails, or which does not scan
		at, what := -1, c.Pick(3)
		if what > 0 {
			at = []int{0, nrows / 2, nrows - 1, nrows}[c.Pick(4)]
		}
		c.Log("rows=%d how=%d tx=%v limit=%d what=%d at=%d", nrows, how, inTx, limit, what, at)
		panicAt, scans, failAt, cancelAt = -1, 0, -1, -1
		srv := &fakedb.Server{}
		srv.Fault = func(o *fakedb.Op) error {
			if what == 1 && o.Kind == "next" && o.N == at {
				return fakedb.Kinds[0]
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"id", "name"}}
			for i := 0; i < nrows; i++ {
				row := []any{int64(100 + i), fmt.Sprint("n", i)}
				if what == 2 && i == at {
					row[0] = "not a number"
				}
				res.Rows = append(res.Rows, row)
			}
			return res, nil
		}
		db := srv.DB()
		defer db.Close()
		var ex xdb.DB = db
		if inTx {
			tx, err := db.BeginTx(context.Background(), nil)
			if err != nil {
				panic(err)
			}
			defer func() { _ = tx.Rollback() }()
			ex = tx
		}
		res := &result{}
		var list []*rec
		var err error
		ctx := context.Background()
		cursor := func(l *rec) string { return "c" + l.ID.String() }
		switch how {
		case 1:
			list, err = xdb.ExecuteListQuery[rec](ctx, ex, "q", "a")
			res.calls = 1
		case 2:
			err = xdb.ExecuteQuery[rec](ctx, ex, res, "q", "a")
		case 3:
			err = xdb.ExecuteQueryWithPagination[rec](ctx, ex, res, "q", "a", limit, uint32(7))
		case 4:
			err = xdb.ExecuteQueryWithCursor[rec](ctx, ex, cursor, res, "q", "a", limit)
		}
		if how > 1 {
			list = res.rows
		}
		c.Step()
		wantErr := what == 1 && at <= nrows && at >= 0 || what == 2 && at < nrows && at >= 0
		full := uint32(nrows) >= limit
		switch {
		case (err != nil) != wantErr:
			c.Fail("list error", "%v", err)
		case err != nil:
			if len(list) != 0 || how > 1 && res.calls != 0 {
				c.Fail("result with an error", "%d rows: %v", len(list), err)
			}
		case res.calls != 1:
			c.Fail("result set times", "%d", res.calls)
		case len(list) != nrows:
			c.Fail("rows", "%d of %d", len(list), nrows)
		case how == 2 && (res.has || res.next != 0):
			c.Fail("next page of a query without pages", "%v %d", res.has, res.next)
		case how == 3 && (res.has != full || full && res.next != 7+uint32(nrows) || !full && res.next != 0):
			c.Fail("next page", "limit %d rows %d: %v %d", limit, nrows, res.has, res.next)
		case how == 4 && (res.has != full || full && nrows > 0 && res.cursor != fmt.Sprint("c", 100+nrows-1)):
			c.Fail("next cursor", "limit %d rows %d: %v %s", limit, nrows, res.has, res.cursor)
		default:
			for i, x := range list {
				if x.ID.UInt64() != uint64(100+i) || x.Name != fmt.Sprint("n", i) {
					c.Fail("row", "%d: %v", i, x)
					break
				}
			}
		}
		if _, rows, _, _ := srv.Counts(); rows != 0 {
			c.Fail("left open", "%d row sets", rows)
		}
		c.Run().State(fmt.Sprint(c.Trace()))
		c.Run().Outcome(fmt.Sprint(err != nil, len(list)))
		c.Nontrivial()
	})
}

func q02(r *mc.Run) {
	r.Rule("every walk through a table of up to the given number of rows, by offset or by cursor, with every page size and start, with parameters given as a parameter set or as plain arguments; every row is seen exactly once and in order, and the walk ends after the last page")
	most := mc.Q(r, 12, 40)
	ids := func(n int, kind int) []uint64 {
		var l []uint64
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				l = append(l, uint64(i+1))
			case 1:
				l = append(l, 1<<53+uint64(i))
			default:
				l = append(l, math.MaxInt64-uint64(n)+uint64(i))
			}
		}
		return l
	}
	toInt := func(a any) int64 { return normal([]any{a})[0].(int64) }
	walk := func(c *mc.C, n, kind int, limit uint32, start uint32, mode, argKind int) {
		all := ids(n, kind)
		srv := &fakedb.Server{}
		srv.Answer = func(q string, args []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"id", "name"}}
			lim := toInt(args[len(args)-1])
			var from int
			if mode == 0 {
				lim = toInt(args[len(args)-2])
				from = int(toInt(args[len(args)-1]))
			} else {
				after := uint64(toInt(args[len(args)-2]))
				for from < len(all) && all[from] <= after {
					from++
				}
			}
			for i := from; i < len(all) && int64(len(res.Rows)) < lim; i++ {
				res.Rows = append(res.Rows, []any{int64(all[i]), fmt.Sprint("n", i)})
			}
			return res, nil
		}
		db := srv.DB()
		defer db.Close()
		ctx := context.Background()
		panicAt = -1
		var seen []uint64
		offset := start
		cursor := ""
		eff := limit
		if limit == 0 {
			eff = xdb.DefaultPageSize
		}
		pages := 0
		for {
			pages++
			if pages > n/int(eff)+2 {
				c.Fail("walk does not end", "rows=%d limit=%d page %d", n, limit, pages)
				return
			}
			res := &result{}
			var args []any
			var err error
			if mode == 0 {
				switch argKind {
				case 0:
					qp := xdb.NewQueryParams("q")
					qp.Set(1, "f")
					qp.SetPage(limit, offset)
					args = []any{qp}
				case 1:
					args = []any{"f", int(limit), offset}
				case 2:
					args = []any{sql.Named("limit", limit), sql.Named("offset", int(offset))}
				}
				err = xdb.ExecuteQueryWithPagination[rec](ctx, db, res, "page", args...)
			} else {
				after := uint64(0)
				if cursor != "" {
					m, derr := xdb.DecodeCursor(cursor)
					if derr != nil {
						c.Fail("cursor", "%v", derr)
						return
					}
					after = m.UInt64("id")
				}
				switch argKind {
				case 0:
					qp := xdb.NewQueryParams("q")
					qp.SetCursor(limit, 2, int64(after))
					args = []any{qp}
				case 1:
					args = []any{int64(after), int(limit)}
				case 2:
					args = []any{sql.Named("after", int64(after)), sql.Named("limit", limit)}
				}
				err = xdb.ExecuteQueryWithCursor[rec](ctx, db, func(l *rec) string {
					return xdb.EncodeCursor(values.MapAny{"id": l.ID.UInt64()})
				}, res, "page", args...)
			}
			if err != nil || res.calls != 1 {
				c.Fail("page", "%v", err)
				return
			}
			c.Step()
			for _, x := range res.rows {
				seen = append(seen, x.ID.UInt64())
			}
			c.Run().State(fmt.Sprint(n, kind, limit, start, mode, argKind, seen))
			if !res.has {
				if res.next != 0 || res.cursor != "" {
					c.Fail("position after the last page", "%d %s", res.next, res.cursor)
				}
				break
			}
			offset, cursor = res.next, res.cursor
		}
		var want []uint64
		if int(start) < len(all) {
			want = all[start:]
		}
		if fmt.Sprint(seen) != fmt.Sprint(want) {
			c.Fail("rows of the walk", "mode %d rows=%d limit=%d start=%d: saw %v, expected %v", mode, n, limit, start, seen, want)
		}
		c.Run().Outcome(fmt.Sprint(pages, len(seen)))
	}
	r.Explore(mc.Opt{Part: "walks", Procs: true}, func(c *mc.C) {
		n := c.Pick(most + 1)
		kind := c.Pick(3)
		limit := uint32(1 + c.Pick(n+2))
		mode := c.Pick(2)
		start := uint32(0)
		if mode == 0 {
			start = uint32(c.Pick(n + 2))
		}
		argKind := c.Pick(3)
		c.Log("rows=%d ids=%d limit=%d start=%d mode=%d args=%d", n, kind, limit, start, mode, argKind)
		walk(c, n, kind, limit, start, mode, argKind)
	})
	r.Explore(mc.Opt{Part: "default page size", Procs: true}, func(c *mc.C) {
		n := []int{0, 1, 499, 500, 501, 999, 1000, 1001}[c.Pick(8)]
		mode := c.Pick(2)
		c.Log("rows=%d mode=%d", n, mode)
		walk(c, n, 1, 0, 0, mode, 0)
	})
	sizes := append(mc.Sizes(mc.Q(r, 2100, 6000)), mc.Q(r, []int{10001, 70001}, []int{10001, 70001, 300001})...)
	r.Explore(mc.Opt{Part: "long walks", Procs: true}, func(c *mc.C) {
		n := sizes[c.Pick(len(sizes))]
		mode := c.Pick(2)
		limit := uint32([]int{n/3 + 1, n/2 + 1, max(1, n-1), n + 1, 99, 100, 255, 256, 499, 500, 501, 999, 1000, 1001, 2000}[c.Pick(15)])
		start := uint32(0)
		if mode == 0 {
			start = uint32([]int{0, n / 2, n}[c.Pick(3)])
		}
		c.Log("rows=%d mode=%d limit=%d start=%d", n, mode, limit, start)
		walk(c, n, 1, limit, start, mode, c.Pick(2))
	})
	r.Explore(mc.Opt{Part: "no page", Procs: true}, func(c *mc.C) {
		n := c.Pick(most + 1)
		mode := c.Pick(2)
		argKind := c.Pick(3)
		srv := &fakedb.Server{}
		srv.Answer = func(q string, args []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"id", "name"}}
			for i := 0; i < n; i++ {
				res.Rows = append(res.Rows, []any{int64(i + 1), "x"})
			}
			return res, nil
		}
		db := srv.DB()
		defer db.Close()
		panicAt = -1
		var args []any
		switch argKind {
		case 1:
			qp := xdb.NewQueryParams("q")
			qp.Set(1, "f")
			args = []any{qp}
		case 2:
			args = []any{"only"}
		}
		res := &result{}
		var err error
		if mode == 0 {
			err = xdb.ExecuteQueryWithPagination[rec](context.Background(), db, res, "all", args...)
		} else {
			err = xdb.ExecuteQueryWithCursor[rec](context.Background(), db, func(*rec) string { return "next" }, res, "all", args...)
		}
		c.Step()
		c.Run().State(fmt.Sprint(n, mode, argKind))
		if err != nil || len(res.rows) != n || res.has || res.next != 0 || res.cursor != "" {
			c.Fail("query without a limit", "%v rows=%d of %d has=%v next=%d", err, len(res.rows), n, res.has, res.next)
		}
	})
}
