// Checks of the ID generator: F01 (unique and increasing), F02 (layout and time).
package main

import (
	"fmt"
	"math"
	"os"
	"time"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"

	xflake "github.com/effective-security/x/flake"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
)

func main() {
	f := map[string]func(r *mc.Run){"F01": f01, "F02": f02}
	mc.Main(os.Args[1], "model_checking", f[os.Args[1]])
}

// The clock of an execution. It is read and moved without any synchronisation that the race
// detector could see.
type clock struct {
	now     int64
	deltas  []int64
	choose  func(n int) int
	slept   int64
	calls   int
	limit   int
	lowered bool
}

var clk *clock

//go:norace
func (k *clock) read() time.Time {
	k.calls++
	if k.choose != nil && k.calls <= k.limit {
		d := k.deltas[k.choose(len(k.deltas))]
		if d < 0 {
			k.lowered = true
		}
		k.now += d
	}
	return time.Unix(0, k.now)
}

//go:norace
func (k *clock) sleep(d time.Duration) {
	k.slept += int64(d)
	if d > 0 {
		k.now += int64(d)
	}
}

//go:norace
func now() time.Time {
	vsched.Point()
	t := clk.read()
	vsched.Point()
	return t
}

const ms = int64(time.Millisecond)

var base = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC).UnixNano()

type span struct {
	id        uint64
	from, to  int // logical time of the call
	early     int64
	late      int64
	monotonic bool
}

// judge checks uniqueness and order.
func judge(c *mc.C, l []span) {
	for i := range l {
		for j := range l {
			if i == j {
				continue
			}
			if i < j && l[i].id == l[j].id {
				c.Fail("duplicate ID", "%d: %v", l[i].id, flake.Decompose(l[i].id))
			}
			if l[i].to < l[j].from && l[i].id >= l[j].id {
				c.Fail("order", "%d was returned before %d was asked for", l[i].id, l[j].id)
			}
		}
	}
}

func f01(r *mc.Run) {
	r.Rule("every interleaving, within the preemption bound, of goroutines that take IDs from one generator, with a clock that stands still, advances, jumps or goes back at every reading (within the deviation bound), near and far from the end of the sequence of a millisecond; and every clock history for a single goroutine; all IDs are distinct and increase in the order of the calls")
	bound := mc.Q(r, 2, 3)
	r.Extra("preemptions and clock deviations", bound)
	flake.NowFunc = now
	sleepHook()
	burns := []int{0, 61, 62, 63}
	deltas := []int64{0, ms, 1, -3 * ms, ms - 1}
	par := func(name string, calls ...int) {
		r.ExploreSched(mc.Opt{Part: name, Bound: bound}, func(c *mc.C) mc.Sched {
			clk = &clock{now: base + []int64{0, 1, 999999}[c.Pick(3)]}
			bs := burns
			if len(calls) > 2 {
				bs = []int{0, 63}
			}
			burn := bs[c.Pick(len(bs))]
			g := flake.NewIDGenerator(flake.Settings{StartTime: time.Unix(0, base-5000*ms), MachineID: func() (uint16, error) { return 0xA5C3, nil }})
			var before []span
			first := flake.FirstID(g)
			before = append(before, span{id: first, from: -2, to: -1})
			for i := 1; i < burn; i++ {
				before = append(before, span{id: g.NextID(), from: -2 - burn + i, to: -2 - burn + i})
			}
			for i := range before {
				before[i].from, before[i].to = i-1000, i-1000
			}
			clk.deltas = deltas
			clk.limit = 1 << 30
			clk.choose = func(n int) int { return vsched.Choose(n, true) }
			out := make([][]span, len(calls))
			tick := 0
			var threads []func()
			for t := range calls {
				threads = append(threads, func() { take(g, &out[t], calls[t], &tick) })
			}
			var last uint64
			reader := len(calls) == 2 && c.Flag()
			if reader {
				threads = append(threads, func() { last = flake.LastID(g) })
			}
			return mc.Sched{Threads: threads, After: func(c *mc.C, res vsched.Result) {
				all := append([]span{}, before...)
				ok := !reader
				for _, l := range out {
					all = append(all, l...)
				}
				for _, s := range all {
					ok = ok || s.id == last
				}
				if !ok {
					c.Fail("last ID", "%d was never generated", last)
				}
				judge(c, all)
				for _, s := range all {
					if m := flake.Decompose(s.id); m["machine_id"] != 0xA5C3 || m["msb"] != 0 {
						c.Fail("layout", "%v", m)
					}
				}
				if max := flake.LastID(g); !maxOf(all, max) {
					c.Fail("last ID", "%d is not the greatest", max)
				}
				if flake.FirstID(g) != first {
					c.Fail("first ID", "")
				}
				c.Run().State(fmt.Sprint(out))
			}}
		})
	}
	par("two goroutines, two IDs each", 2, 2)
	par("three goroutines, one ID each", 1, 1, 1)
	par("two goroutines, three and one", 3, 1)

	depth := mc.Q(r, 5, 7)
	r.Explore(mc.Opt{Part: "clock histories", Procs: true}, func(c *mc.C) {
		clk = &clock{now: base + []int64{0, 1, 999999}[c.Pick(3)]}
		burn := burns[c.Pick(len(burns))]
		g := flake.NewIDGenerator(flake.Settings{StartTime: time.Unix(0, base-5000*ms), MachineID: func() (uint16, error) { return 1, nil }})
		last := flake.FirstID(g)
		for i := 1; i < burn; i++ {
			last = next(c, g, last)
		}
		clk.deltas = []int64{0, ms, -3 * ms, ms - 1, 3600000 * ms, -3600000 * ms}
		clk.limit = 1 << 30
		clk.choose = func(n int) int { return c.Pick(n) }
		for i := 0; i < depth; i++ {
			clk.calls = 0
			clk.limit = 1
			last = next(c, g, last)
			c.Step()
			c.Run().State(fmt.Sprint(clk.now-base, last))
		}
		c.Log("now=%d", clk.now-base)
		c.Run().Outcome(fmt.Sprint(last))
	})
}

func next(c *mc.C, g flake.IDGenerator, last uint64) uint64 {
	id := g.NextID()
	if id <= last {
		c.Fail("order", "%d after %d", id, last)
	}
	if flake.LastID(g) != id {
		c.Fail("last ID", "%d after %d", flake.LastID(g), id)
	}
	return id
}

func maxOf(l []span, v uint64) bool {
	for _, s := range l {
		if s.id > v {
			return false
		}
	}
	return true
}

//go:norace
func take(g flake.IDGenerator, out *[]span, n int, tick *int) {
	for i := 0; i < n; i++ {
		*tick++
		s := span{from: *tick}
		s.id = g.NextID()
		*tick++
		s.to = *tick
		*out = append(*out, s)
	}
}

// sleeping moves the clock
func sleepHook() {
	vsched.SleepHook = func(d time.Duration) { clk.sleep(d) }
	vsched.SleepLog = func(d time.Duration) { clk.sleep(d) }
	vsched.ByClock = true
}

func f02(r *mc.Run) {
	r.Rule("every combination of start time, machine number, clock reading (including the last ones the layout can hold) and sequence number, through the generator and the provider; each ID is decomposed and its time compared with the clock during the call")
	flake.NowFunc = now
	sleepHook()
	starts := []time.Time{{}, time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.UTC),
		time.Date(2024, 3, 1, 12, 0, 0, 0, time.FixedZone("", 5*3600)), time.Unix(0, base-1), time.Unix(0, base), time.Unix(1, 500000), time.Unix(0, base-60*ms)}
	machines := []uint16{0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0xa5c3}
	const span41 = int64(1) << 41
	r.Explore(mc.Opt{Part: "layout", Procs: true}, func(c *mc.C) {
		st := starts[c.Pick(len(starts))]
		mid := machines[c.Pick(len(machines))]
		eff := st
		if st.IsZero() {
			eff = flake.DefaultStartTime
		}
		start := eff.UnixNano() / ms * ms
		var at int64
		switch k := c.Pick(8); k {
		case 0:
			at = start
		case 1:
			at = start + 1
		case 2:
			at = start + ms
		case 3:
			at = base
		case 4:
			at = base + 999999
		case 5:
			at = start + (span41-2)*ms
		case 6:
			at = start + (span41-1)*ms + 7
		case 7:
			at = start + 1<<40*ms
		}
		if at < eff.UnixNano() || time.Unix(0, at).Year() > 2200 {
			c.Stop()
		}
		clk = &clock{now: at}
		c.Log("start %v machine %d clock %v", st, mid, time.Unix(0, at).UTC())
		var g flake.IDGenerator
		overflow := ""
		try := func(f func()) {
			defer func() {
				if p := recover(); p != nil {
					overflow = fmt.Sprint(p)
				}
			}()
			f()
		}
		over := func(t int64) bool { return (t-start)/ms >= span41 }
		lo := clk.now
		try(func() {
			g = flake.NewIDGenerator(flake.Settings{StartTime: st, MachineID: func() (uint16, error) { return mid, nil }})
		})
		c.Step()
		check := func(id uint64, lo, hi int64) {
			m := flake.Decompose(id)
			t := flake.IDTime(g, id)
			if m["id"] != id || m["msb"] != 0 || m["machine_id"] != uint64(mid) || m["sequence"] > 63 ||
				m["time"]<<22|m["sequence"]<<16|m["machine_id"] != id {
				c.Fail("layout", "%d: %v", id, m)
			}
			if int64(m["time"]) != (t.UnixNano()-start)/ms {
				c.Fail("time part", "%v %v", m, t)
			}
			if t.UnixNano() < lo/ms*ms || t.UnixNano() > hi || t.Location() != time.UTC {
				c.Fail("time of an ID", "%v generated between %v and %v", t, time.Unix(0, lo).UTC(), time.Unix(0, hi).UTC())
			}
			c.Run().State(fmt.Sprint(id))
		}
		if overflow != "" {
			if !over(clk.now) {
				c.Fail("panic", "%s", overflow)
			}
			return
		}
		if over(clk.now) && (flake.FirstID(g)>>63 != 0 || flake.IDTime(g, flake.FirstID(g)).UnixNano() > clk.now) {
			c.Fail("overflow", "%d", flake.FirstID(g))
		}
		check(flake.FirstID(g), lo, clk.now)
		seq := map[uint64]bool{flake.FirstID(g): true}
		n := 130
		if c.Flag() { // the clock advances
			n = 4
		}
		for i := 0; i < n; i++ {
			if n == 4 {
				clk.now += []int64{1, ms, 5*ms + 3, 1000 * ms}[i]
			}
			lo := clk.now
			var id uint64
			try(func() { id = g.NextID() })
			if overflow != "" {
				if !over(clk.now) {
					c.Fail("panic", "%s", overflow)
				}
				// the generator is still usable: it does not block and never wraps around
				overflow = ""
				try(func() { id = g.NextID() })
				if overflow == "" && !over(clk.now) {
					c.Fail("wraps around", "%d", id)
				}
				return
			}
			c.Step()
			if seq[id] {
				c.Fail("duplicate ID", "%d", id)
			}
			seq[id] = true
			check(id, lo, clk.now)
		}
		if clk.slept < 0 || n == 130 && clk.slept == 0 {
			c.Fail("sleep", "130 IDs in one millisecond: slept %d", clk.slept)
		}
		c.Run().Outcome(fmt.Sprint(len(seq)))
	})
	r.Explore(mc.Opt{Part: "decompose", Procs: true}, func(c *mc.C) {
		// every bit and every pair of neighbours of the layout
		i, j := c.Pick(64), c.Pick(64)
		for _, id := range []uint64{1<<i | 1<<j, ^(uint64(1)<<i | 1<<j), (1<<i - 1) ^ (1<<j - 1)} {
			c.Step()
			m := flake.Decompose(id)
			if m["id"] != id || m["msb"] != id>>63 || m["time"] != id>>22 || m["sequence"] != id>>16&63 || m["machine_id"] != id&0xffff {
				c.Fail("decompose", "%x: %x", id, m)
			}
			c.Run().State(fmt.Sprint(id))
		}
	})
	r.Explore(mc.Opt{Part: "settings", Procs: true}, func(c *mc.C) {
		clk = &clock{now: base}
		var st flake.Settings
		want := false
		switch c.Pick(4) {
		case 1:
			st.StartTime = time.Unix(0, base+1)
			want = true
		case 2:
			st.StartTime = time.Unix(0, base-1)
		case 3:
			st.StartTime = time.Unix(0, base+3600000*ms)
			want = true
		}
		switch c.Pick(3) {
		case 1:
			st.MachineID = func() (uint16, error) { return 77, nil }
		case 2:
			st.MachineID = func() (uint16, error) { return 0, fmt.Errorf("no machine") }
			want = true
		}
		switch c.Pick(3) {
		case 1:
			st.CheckMachineID = func(m uint16) bool { return true }
		case 2:
			st.CheckMachineID = func(m uint16) bool { return false }
			want = true
		}
		c.Step()
		panicked := false
		func() {
			defer func() { panicked = recover() != nil }()
			_ = flake.NewIDGenerator(st)
		}()
		if panicked != want {
			c.Fail("settings", "panicked=%v expected=%v", panicked, want)
		}
		c.Run().State(fmt.Sprint(st.StartTime, st.MachineID == nil, st.CheckMachineID == nil, want))
	})
	r.Explore(mc.Opt{Part: "provider", Procs: true}, func(c *mc.C) {
		clk = &clock{now: base + []int64{0, 1, 999999, 86400000 * ms}[c.Pick(4)]}
		xflake.NowFunc = func() time.Time { return clk.read() }
		flake.NowFunc = now
		var p xdb.Provider
		st := starts[c.Pick(len(starts))]
		if st.After(time.Unix(0, clk.now)) {
			c.Stop()
		}
		kind := c.Pick(2)
		srv := &fakedb.Server{}
		db := srv.DB()
		defer db.Close()
		var err error
		if kind == 0 {
			p, err = xdb.New("x", db, flake.NewIDGenerator(flake.Settings{StartTime: st, MachineID: func() (uint16, error) { return 9, nil }}))
		} else {
			p, err = xdb.New("x", db, xflake.NewIDGenerator(xflake.Settings{StartTime: st, MachineID: func() (uint16, error) { return 9, nil }}))
		}
		if err != nil {
			panic(err)
		}
		defer p.Close()
		c.Log("start %v generator %d", st, kind)
		seen := map[uint64]bool{}
		for i := 0; i < 5; i++ {
			clk.now += []int64{0, 1, ms, 999 * ms, 86400000 * ms}[i] + 2*ms
			lo := clk.now
			id := p.NextID()
			c.Step()
			t := p.IDTime(id.UInt64())
			if t.UnixNano() < lo/ms*ms || t.UnixNano() > clk.now {
				c.Fail("time of an ID of the provider", "%v, generated at %v", t, time.Unix(0, lo).UTC())
			}
			if !id.Valid() || id.IsZero() || id.UInt64() > math.MaxInt64 || seen[id.UInt64()] {
				c.Fail("ID of the provider", "%v", id)
			}
			seen[id.UInt64()] = true
			c.Run().State(fmt.Sprint(id))
		}
	})
}
