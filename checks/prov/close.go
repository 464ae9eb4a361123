package main

import (
	"context"
	"fmt"
	"sync/atomic"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"

	"github.com/effective-security/xdb"
)

func p02(r *mc.Run) {
	r.Rule("every interleaving, within the preemption bound, of closing a provider (once or twice) with the ticks of its keep-alive timer, failing and succeeding pings, statements and transactions; no panic, no data race, no goroutine left, keep-alive goes on after failed pings and ends with Close")
	bound := mc.Q(r, 3, 5)
	r.Extra("preemptions", bound)
	type world struct {
		p     xdb.Provider
		srv   *fakedb.Server
		c     *mc.C
		ticks int
		errs  []string
	}
	// each body uses the provider while it may be closed
	closer := func(w *world) {
		if err := w.p.Close(); err != nil {
			w.errs = append(w.errs, "close: "+err.Error())
		}
	}
	bodies := []struct {
		name string
		do   func(w *world)
	}{
		{"ticks", func(w *world) {
			for i := 0; i < 2; i++ {
				w.ticks += vsched.Tick()
				vsched.Point()
			}
		}},
		{"close again", closer},
		{"statement", func(w *world) {
			vsched.Point()
			_, _ = w.p.ExecContext(context.Background(), "x")
		}},
		{"transaction", func(w *world) {
			vsched.Point()
			tx, err := w.p.BeginTx(context.Background(), nil)
			if err != nil {
				return
			}
			vsched.Point()
			_, _ = tx.ExecContext(context.Background(), "y")
			vsched.Point()
			if err := tx.Close(); err != nil {
				w.errs = append(w.errs, "transaction close: "+err.Error())
			}
		}},
		{"closed transaction twice", func(w *world) {
			tx, err := w.p.BeginTx(context.Background(), nil)
			if err != nil {
				return
			}
			vsched.Point()
			_ = tx.Commit()
			_ = tx.Close()
			if err := tx.Close(); err != nil {
				w.errs = append(w.errs, "transaction close: "+err.Error())
			}
		}},
	}
	mk := func(c *mc.C, run ...func(w *world)) mc.Sched {
		w := &world{srv: &fakedb.Server{}, c: c}
		fail := c.Pick(3) // no ping fails, the first fails, all fail
		pings := 0
		w.srv.Fault = func(o *fakedb.Op) error {
			if o.Kind == "ping" {
				vsched.Point()
				pings++
				if fail == 2 || fail == 1 && pings == 1 {
					return fakedb.Kinds[(pings-1)%len(fakedb.Kinds)]
				}
			}
			return nil
		}
		db := w.srv.DB()
		ready := false
		var th []func()
		th = append(th, func() {
			p, err := xdb.New("postgres", db, nil)
			if err != nil {
				panic(err)
			}
			w.p = p
			ready = true
			for _, f := range run {
				f := f
				vsched.GoThread(func() { f(w) })
			}
		})
		return mc.Sched{Threads: th, Horizon: 3000, After: func(c *mc.C, res vsched.Result) {
			if !ready {
				return
			}
			for _, e := range w.errs {
				c.Fail("close failed", "%s", e)
			}
			if err := w.p.Close(); err != nil {
				c.Fail("close again", "%v", err)
			}
			if _, err := w.p.BeginTx(context.Background(), nil); err == nil {
				c.Fail("begin after close", "")
			}
			if _, err := w.p.ExecContext(context.Background(), "z"); err == nil {
				c.Fail("statement after close", "")
			}
			if conns, rows, txs, _ := w.srv.Counts(); conns+rows+txs != 0 {
				c.Fail("left open", "%d connections, %d row sets, %d transactions", conns, rows, txs)
			}
			c.Run().State(fmt.Sprint(fail, pings, w.ticks, res.Schedule))
		}}
	}
	for i := range bodies {
		b := bodies[i]
		r.ExploreSched(mc.Opt{Part: "close | " + b.name, Bound: bound}, func(c *mc.C) mc.Sched {
			return mk(c, closer, b.do)
		})
	}
	for i := 1; i < len(bodies); i++ {
		b := bodies[i]
		r.ExploreSched(mc.Opt{Part: "close | ticks | " + b.name, Bound: bound - 1}, func(c *mc.C) mc.Sched {
			return mk(c, closer, bodies[0].do, b.do)
		})
	}
	// keep-alive: every tick that was delivered pings the database, also after failures
	r.ExploreSched(mc.Opt{Part: "keep-alive", Bound: bound}, func(c *mc.C) mc.Sched {
		srv := &fakedb.Server{}
		var pings atomic.Int32
		fails := [4]bool{c.Flag(), c.Flag(), c.Flag(), c.Flag()}
		kind := c.Pick(2) * 5
		srv.Fault = func(o *fakedb.Op) error {
			if o.Kind == "ping" {
				vsched.Point()
				if n := pings.Add(1) - 1; fails[n%4] {
					return fakedb.Kinds[kind]
				}
			}
			return nil
		}
		db := srv.DB()
		ticks := int32(0)
		return mc.Sched{Horizon: 3000, Threads: []func(){func() {
			p, err := xdb.New("postgres", db, nil)
			if err != nil {
				panic(err)
			}
			for i := 0; i < 4; i++ {
				yield() // time passes, everyone waits
				ticks += int32(vsched.Tick())
				for k := 0; k < 40 && pings.Load() < ticks; k++ {
					yield()
				}
			}
			if pings.Load() < ticks {
				c.Fail("keep-alive stopped", "%d pings after %d ticks, failures %v", pings.Load(), ticks, fails)
			}
			if err := p.Close(); err != nil {
				c.Fail("close", "%v", err)
			}
		}}, After: func(c *mc.C, res vsched.Result) {
			c.Run().State(fmt.Sprint(fails, pings.Load(), ticks, res.Schedule))
		}}
	})
	// the same for long
	sizes := append(mc.Sizes(mc.Q(r, 260, 1100)), mc.Q(r, 1025, 5001))
	r.ExploreSched(mc.Opt{Part: "keep-alive, long", Bound: 0, Delays: true, Selects: true}, func(c *mc.C) mc.Sched {
		n := int32(sizes[c.Pick(len(sizes))])
		pattern := c.Pick(5)
		kind := c.Pick(len(fakedb.Kinds))
		srv := &fakedb.Server{}
		var pings atomic.Int32
		srv.Fault = func(o *fakedb.Op) error {
			if o.Kind == "ping" {
				k := pings.Add(1) - 1
				if [5]bool{true, k%2 == 0, k < n/2, k >= n/2, k == n-1}[pattern] {
					return fakedb.Kinds[kind]
				}
			}
			return nil
		}
		db := srv.DB()
		ticks := int32(0)
		return mc.Sched{Horizon: 60000, Threads: []func(){func() {
			p, err := xdb.New("postgres", db, nil)
			if err != nil {
				panic(err)
			}
			for i := int32(0); i < n; i++ {
				yield() // time passes, everyone waits
				ticks += int32(vsched.Tick())
				for k := 0; k < 40 && pings.Load() < ticks; k++ {
					yield()
				}
			}
			if pings.Load() < ticks || ticks < n-1 {
				c.Fail("keep-alive stopped", "%d pings after %d of %d ticks, failures %d", pings.Load(), ticks, n, pattern)
			}
			if err := p.Close(); err != nil {
				c.Fail("close", "%v", err)
			}
		}}, After: func(c *mc.C, res vsched.Result) {
			c.Run().State(fmt.Sprint(n, pattern, kind))
		}}
	})
}

// yield gives the other goroutines a turn.
func yield() { vsched.Sleep(1) }
