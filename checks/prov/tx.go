package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
)

type slot struct {
	p      xdb.Provider
	state  string // "", open, committed, rolledback, unknown
	conn   int
	stmts  []string
	cancel context.CancelFunc
}

// replay tells from what reached the database which statements took effect, per connection.
func replay(log []fakedb.Op) (done, lost, unsure []string) {
	open := map[int][]string{}
	in := map[int]bool{}
	for _, o := range log {
		switch o.Kind {
		case "begin":
			if o.Err == nil {
				in[o.Conn], open[o.Conn] = true, nil
			}
		case "exec", "query":
			if o.Err != nil {
				continue
			}
			if in[o.Conn] {
				open[o.Conn] = append(open[o.Conn], o.SQL)
			} else {
				done = append(done, o.SQL)
			}
		case "commit":
			if o.Err == nil {
				done = append(done, open[o.Conn]...)
			} else {
				unsure = append(unsure, open[o.Conn]...)
			}
			in[o.Conn], open[o.Conn] = false, nil
		case "rollback", "close":
			lost = append(lost, open[o.Conn]...)
			in[o.Conn], open[o.Conn] = false, nil
		}
	}
	for _, l := range open {
		lost = append(lost, l...)
	}
	return
}

func sameSet(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "|") == strings.Join(b, "|")
}

func waitFor(f func() bool) bool {
	for i := 0; i < 20000; i++ {
		if f() {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

func p01(r *mc.Run) {
	r.Rule("every sequence of provider operations (begin with every kind of options, statements inside and outside, commit, rollback, close, nested begin, cancellation) up to the depth on two transactions and their provider, with every single failure of the database; what takes effect is computed from the log of the database and compared with what the calls reported")
	depth := mc.Q(r, 4, 5)
	bound := 1
	r.Extra("depth", depth)
	r.Extra("faults per execution", bound)
	options := []*sql.TxOptions{nil, {}, {Isolation: sql.LevelSerializable}, {ReadOnly: true}, {Isolation: sql.LevelRepeatableRead, ReadOnly: true}}
	r.Explore(mc.Opt{Part: "transactions", Bound: bound}, func(c *mc.C) {
		srv := &fakedb.Server{}
		faults := 0
		srv.Fault = func(o *fakedb.Op) error {
			switch o.Kind {
			case "begin", "exec", "query", "commit", "rollback":
				if k := c.Dev(1 + mc.Q(r, 2, len(fakedb.Kinds))); k > 0 {
					c.Log("fault at %s: %v", o.Kind, fakedb.Kinds[k-1])
					faults++
					return fakedb.Kinds[k-1]
				}
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			return &fakedb.Result{Cols: []string{"c"}, Rows: [][]any{{int64(1)}}}, nil
		}
		db := srv.DB()
		prov, err := xdb.New("postgres", db, nil)
		if err != nil {
			c.Fail("new", "%v", err)
			return
		}
		var p xdb.Provider = prov.WithConnectionString("cs://x")
		closed := false
		var slots [2]slot
		var took, gone []string // statements that must, must not have taken effect
		nst := 0
		run := func(q xdb.Provider, kind int) (string, error) {
			nst++
			text := fmt.Sprint("st", nst)
			ctx, stop := fakedb.Mark(context.Background(), text)
			defer stop()
			var err error
			switch kind {
			case 0:
				_, err = q.ExecContext(ctx, text, nst)
			case 1:
				var rows *sql.Rows
				if rows, err = q.QueryContext(ctx, text, nst); err == nil {
					err = rows.Close()
				}
			case 2:
				var x int
				err = q.QueryRowContext(ctx, text, nst).Scan(&x)
			case 3:
				_, err = q.DB().ExecContext(ctx, text, nst)
			case 4:
				_, err = q.Tx().ExecContext(ctx, text, nst)
			}
			return text, err
		}
		delta := func(f func()) []fakedb.Op {
			n := len(srv.Recorded())
			f()
			var l []fakedb.Op
			for _, o := range srv.Recorded()[n:] {
				switch o.Kind {
				case "begin", "exec", "query", "commit", "rollback":
					if o.SQL != "" && o.Under != o.SQL {
						c.Fail("context", "of %s is not the one of the call", o.SQL)
					}
					l = append(l, o)
				}
			}
			return l
		}
		for step := 0; step < depth; step++ {
			k := c.Pick(13)
			c.Step()
			fb := faults
			switch {
			case k == 0: // end
				step = depth
			case k == 1 || k == 2: // begin
				s := &slots[k-1]
				if s.state == "open" {
					c.Stop()
				}
				if k == 2 && slots[0].state == "" {
					c.Stop() // symmetric
				}
				oi := c.Pick(len(options))
				if k == 2 && oi > 2 {
					c.Stop()
				}
				ctx, cancel := fakedb.Mark(context.Background(), fmt.Sprint("begin", k))
				var np xdb.Provider
				var err error
				ops := delta(func() { np, err = p.BeginTx(ctx, options[oi]) })
				c.Log("begin %d %v -> %v", k-1, options[oi], err)
				if closed {
					cancel()
					if err == nil || np != nil && fmt.Sprint(np) != "<nil>" {
						c.Fail("begin after close", "%v %v", np, err)
					}
					break
				}
				if (err != nil) != (faults > fb) {
					c.Fail("begin error", "%v", err)
				}
				if err != nil {
					cancel()
					if np != nil {
						c.Fail("provider with an error", "%v", np)
					}
					break
				}
				var want driver.TxOptions
				if options[oi] != nil {
					want = driver.TxOptions{Isolation: driver.IsolationLevel(options[oi].Isolation), ReadOnly: options[oi].ReadOnly}
				}
				if len(ops) == 1 && ops[0].Under != fmt.Sprint("begin", k) {
					c.Fail("context of begin", "not the one of the call")
				}
				if len(ops) != 1 || ops[0].Kind != "begin" || ops[0].Opts != want {
					c.Fail("begin options", "%v %+v, requested %+v", ops, ops[0].Opts, want)
				}
				*s = slot{p: np, state: "open", conn: ops[0].Conn, cancel: cancel}
				if np.Name() != p.Name() || np.ConnectionString() != p.ConnectionString() {
					c.Fail("identity", "%s %s", np.Name(), np.ConnectionString())
				}
				if np.Tx() == nil || p.Tx() != nil {
					c.Fail("Tx()", "%v %v", np.Tx(), p.Tx())
				}
				if np.DB() == nil || np.NextID().IsZero() {
					c.Fail("DB()", "%v", np.DB())
				}
			case k == 3 || k == 4: // statement in a transaction
				s := &slots[k-3]
				if s.state == "" {
					c.Stop()
				}
				kind := c.Pick(5)
				var text string
				var err error
				ops := delta(func() { text, err = run(s.p, kind) })
				c.Log("tx%d statement %s -> %v", k-3, text, err)
				if s.state != "open" {
					if err == nil || len(ops) != 0 {
						c.Fail("statement after the end of the transaction", "%v %v", ops, err)
					}
					break
				}
				if (err != nil) != (faults > fb) {
					c.Fail("statement error", "%v", err)
				}
				if len(ops) != 1 || ops[0].Conn != s.conn || !ops[0].InTx || ops[0].SQL != text || fmt.Sprint(ops[0].Args) != fmt.Sprint([]any{nst}) {
					c.Fail("statement outside of its transaction", "%v in connection %d", ops, s.conn)
				}
				if err == nil {
					s.stmts = append(s.stmts, text)
				}
			case k == 5 || k == 6: // end of a transaction
				s := &slots[k-5]
				if s.state == "" {
					c.Stop()
				}
				how := c.Pick(5)
				var err error
				was := s.state
				switch how {
				case 0: // commit
					ops := delta(func() { err = s.p.Commit() })
					c.Log("tx%d commit -> %v", k-5, err)
					if was != "open" {
						if err == nil || len(ops) != 0 {
							c.Fail("commit after the end of the transaction", "%v %v", ops, err)
						}
						break
					}
					if (err != nil) != (faults > fb) {
						c.Fail("commit error", "%v", err)
					}
					if len(ops) != 1 || ops[0].Kind != "commit" || ops[0].Conn != s.conn {
						c.Fail("commit", "%v", ops)
					}
					if err == nil {
						s.state = "committed"
						took = append(took, s.stmts...)
					} else {
						s.state = "unknown"
						if !fakedb.IsInjected(err) {
							c.Fail("commit error lost", "%v", err)
						}
					}
				case 1, 2: // rollback, close
					ops := delta(func() {
						if how == 1 {
							err = s.p.Rollback()
						} else {
							err = s.p.Close()
						}
					})
					c.Log("tx%d end%d -> %v", k-5, how, err)
					if was != "open" {
						if err != nil || len(ops) != 0 {
							c.Fail("rollback after the end of the transaction", "%v %v", ops, err)
						}
						break
					}
					if (err != nil) != (faults > fb) {
						c.Fail("rollback error", "%v", err)
					}
					if len(ops) != 1 || ops[0].Kind != "rollback" || ops[0].Conn != s.conn {
						c.Fail("rollback", "%v", ops)
					}
					s.state = "rolledback"
					gone = append(gone, s.stmts...)
				case 3: // nested
					var np xdb.Provider
					ops := delta(func() { np, err = s.p.BeginTx(context.Background(), nil) })
					c.Log("tx%d nested -> %v", k-5, err)
					if err == nil || np != nil || len(ops) != 0 {
						c.Fail("nested transaction", "%v %v %v", np, err, ops)
					}
				case 4: // cancel
					if was != "open" {
						c.Stop()
					}
					_, _, n, _ := srv.Counts()
					s.cancel()
					c.Log("tx%d cancel", k-5)
					if !waitFor(func() bool { _, _, m, _ := srv.Counts(); return m == n-1 }) {
						c.Fail("cancelled transaction goes on", "")
					}
					s.state = "rolledback"
					gone = append(gone, s.stmts...)
				}
				if s.state != "open" && s.state != "" && was == "open" {
					// the connection is given back
					if !waitFor(func() bool { return db.Stats().InUse == openTx(slots[:]) }) {
						c.Fail("connection kept", "%d in use", db.Stats().InUse)
					}
				}
			case k == 7: // statement outside of transactions
				kind := c.Pick(4)
				var text string
				var err error
				ops := delta(func() { text, err = run(p, kind) })
				c.Log("statement %s -> %v", text, err)
				if closed {
					if err == nil || len(ops) != 0 {
						c.Fail("statement after close", "%v %v", ops, err)
					}
					break
				}
				if (err != nil) != (faults > fb) {
					c.Fail("statement error", "%v", err)
				}
				if len(ops) != 1 || ops[0].InTx || ops[0].SQL != text {
					c.Fail("statement in a transaction of another", "%v", ops)
				}
				if err == nil {
					took = append(took, text)
				}
			case k == 8 || k == 9: // no transaction to end
				var err error
				ops := delta(func() {
					if k == 8 {
						err = p.Commit()
					} else {
						err = p.Rollback()
					}
				})
				c.Log("provider end%d -> %v", k, err)
				if err == nil || len(ops) != 0 {
					c.Fail("end of no transaction", "%v %v", ops, err)
				}
			case k == 10: // close
				err := p.Close()
				c.Log("close -> %v", err)
				if err != nil {
					c.Fail("close", "%v", err)
				}
				closed = true
			case k == 11:
				if p.Name() != "postgres" || p.ConnectionString() != "cs://x" || p.DB() == nil || p.Tx() != nil {
					c.Fail("provider changed", "%s %s", p.Name(), p.ConnectionString())
				}
				step = depth
			case k == 12: // an ID of the provider and its time
				lo := time.Now().Add(-2 * time.Second)
				id := p.NextID()
				if t := p.IDTime(id.UInt64()); t.Before(lo) || t.After(time.Now().Add(2*time.Second)) {
					c.Fail("time of an ID", "%v", t)
				}
				step = depth
			}
			c.Run().State(fmt.Sprint(closed, slots[0].state, len(slots[0].stmts), slots[1].state, len(slots[1].stmts), len(took), len(gone), faults))
		}
		for i := range slots {
			if s := &slots[i]; s.state == "open" {
				if err := s.p.Rollback(); err == nil || faults > 0 {
					gone = append(gone, s.stmts...)
				} else {
					c.Fail("final rollback", "%v", err)
				}
				s.state = "rolledback"
			}
		}
		if err := p.Close(); err != nil {
			c.Fail("final close", "%v", err)
		}
		for i := range slots {
			if slots[i].cancel != nil {
				slots[i].cancel()
			}
		}
		done, lost, _ := replay(srv.Recorded())
		if !sameSet(done, took) {
			c.Fail("effects", "took effect: %v, reported: %v", done, took)
		}
		for _, g := range gone {
			found := false
			for _, l := range lost {
				found = found || l == g
			}
			if !found {
				c.Fail("rolled back statement", "%s", g)
			}
		}
		if !waitFor(func() bool { a, b, x, s := srv.Counts(); return a+b+x+s == 0 }) {
			a, b, x, s := srv.Counts()
			c.Fail("left open", "%d connections %d row sets %d transactions %d statements", a, b, x, s)
		}
		c.Run().Outcome(fmt.Sprint(done, lost))
	})
	sizes := append(mc.Sizes(mc.Q(r, 530, 2100)), mc.Q(r, []int{1025, 10001}, []int{10001, 70001})...)
	r.Explore(mc.Opt{Part: "long transactions", Procs: true}, func(c *mc.C) {
		n := sizes[c.Pick(len(sizes))]
		how := c.Pick(3) // commit, rollback, close
		kind := c.Pick(3)
		at := []int{-1, 0, n / 2, n - 1}[c.Pick(4)] // the statement that fails
		c.Log("%d statements of kind %d, end %d, failure at %d", n, kind, how, at)
		srv := &fakedb.Server{}
		srv.Fault = func(o *fakedb.Op) error {
			if at >= 0 && o.SQL == fmt.Sprint("st", at) {
				return fakedb.Kinds[1]
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			return &fakedb.Result{Cols: []string{"c"}, Rows: [][]any{{int64(1)}}}, nil
		}
		db := srv.DB()
		p, err := xdb.New("postgres", db, nil)
		if err != nil {
			panic(err)
		}
		ctx := context.Background()
		tx, err := p.BeginTx(ctx, nil)
		if err != nil {
			c.Fail("begin error", "%v", err)
			return
		}
		var want []string
		for i := 0; i < n; i++ {
			text := fmt.Sprint("st", i)
			switch kind {
			case 0:
				_, err = tx.ExecContext(ctx, text)
			case 1:
				var rows *sql.Rows
				if rows, err = tx.QueryContext(ctx, text); err == nil {
					err = rows.Close()
				}
			case 2:
				var x int
				err = tx.QueryRowContext(ctx, text).Scan(&x)
			}
			if (err != nil) != (i == at) {
				c.Fail("statement error", "%d: %v", i, err)
			}
			if err == nil {
				want = append(want, text)
			}
		}
		c.Step()
		switch how {
		case 0:
			err = tx.Commit()
		case 1:
			err, want = tx.Rollback(), nil
		case 2:
			err, want = tx.Close(), nil
		}
		if err != nil {
			c.Fail("end of the transaction", "%v", err)
		}
		done, _, _ := replay(srv.Recorded())
		if fmt.Sprint(done) != fmt.Sprint(want) {
			c.Fail("effects", "%d took effect of %d", len(done), len(want))
		}
		if db.Stats().InUse != 0 {
			c.Fail("connection kept", "%d in use", db.Stats().InUse)
		}
		if err := p.Close(); err != nil {
			c.Fail("final close", "%v", err)
		}
		if a, b, x, s := srv.Counts(); a+b+x+s != 0 {
			c.Fail("left open", "%d connections %d row sets %d transactions %d statements", a, b, x, s)
		}
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	r.Explore(mc.Opt{Part: "many transactions", Procs: true}, func(c *mc.C) {
		n := sizes[c.Pick(len(sizes))]
		open := c.Pick(2) == 1 // all open before the first ends
		if open && n > 130 {
			return
		}
		end := c.Pick(4)
		reuse := c.Pick(2) == 1
		c.Log("%d transactions, open together: %v, end %d", n, open, end)
		srv := &fakedb.Server{}
		db := srv.DB()
		p, err := xdb.New("postgres", db, nil)
		if err != nil {
			panic(err)
		}
		ctx := context.Background()
		var want []string
		var l []xdb.Provider
		finish := func(i int, tx xdb.Provider) {
			var err error
			switch how := (end + i) % 3; {
			case end == 3 || how == 0:
				err = tx.Commit()
				want = append(want, fmt.Sprint("st", i))
			case how == 1:
				err = tx.Rollback()
			default:
				err = tx.Close()
			}
			if err != nil {
				c.Fail("end of the transaction", "%d: %v", i, err)
			}
			if reuse {
				if _, err := tx.ExecContext(ctx, "late"); err == nil {
					c.Fail("statement after the end of the transaction", "%d", i)
				}
			}
		}
		for i := 0; i < n; i++ {
			tx, err := p.BeginTx(ctx, nil)
			if err != nil {
				c.Fail("begin error", "%d: %v", i, err)
				return
			}
			if _, err = tx.ExecContext(ctx, fmt.Sprint("st", i)); err != nil {
				c.Fail("statement error", "%d: %v", i, err)
			}
			if open {
				l = append(l, tx)
			} else {
				finish(i, tx)
			}
		}
		for i, tx := range l {
			finish(i, tx)
		}
		c.Step()
		done, _, _ := replay(srv.Recorded())
		if fmt.Sprint(done) != fmt.Sprint(want) {
			c.Fail("effects", "%d took effect of %d", len(done), len(want))
		}
		if db.Stats().InUse != 0 {
			c.Fail("connection kept", "%d in use", db.Stats().InUse)
		}
		if err := p.Close(); err != nil {
			c.Fail("final close", "%v", err)
		}
		c.Run().State(fmt.Sprint(c.Trace()))
	})
}

func openTx(l []slot) int {
	n := 0
	for _, s := range l {
		if s.state == "open" {
			n++
		}
	}
	return n
}
