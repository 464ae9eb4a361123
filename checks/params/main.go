// Check of query parameter sets: Q03 (statement name identity) and Q04 (arguments and bookkeeping).
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
)

// model of a parameter set
type model struct {
	pos    uint64
	args   []string
	enums  []string // position:value in call order
	enumAt map[uint32]int32
	flags  []int32
	limit  uint32
	offset uint32
	cursor any
	nulls  []string
	panics bool
}

func (m *model) clone() *model {
	n := *m
	return &n
}

// shape is what a generated SQL text may depend on.
func (m *model) shape() string {
	page := ""
	if m.cursor != nil {
		page = "cursor"
	} else if m.offset > 0 {
		page = "offset"
	}
	n := append([]string{}, m.nulls...)
	sort.Strings(n)
	return fmt.Sprintf("pos=%x enums=%v flags=%v page=%s nulls=%q", m.pos, m.enums, m.flags, page, n)
}

// shapeNoNull is the shape with the null columns concatenated
func (m *model) shapeConcat() string {
	k := m.clone()
	n := append([]string{}, m.nulls...)
	sort.Strings(n)
	k.nulls = []string{strings.Join(n, "")}
	if len(n) == 0 {
		k.nulls = nil
	}
	return k.shape()
}

// kept is a slice that must not change any more.
type kept struct {
	s    []any
	text string
}

type op struct {
	name string
	do   func(b *xdb.QueryParamsBuilder, k *[]kept)
	ref  func(m *model)
}

func (m *model) set(pos uint32, v any) {
	if pos > 63 || m.limit > 0 {
		m.panics = true
		return
	}
	m.pos |= 1 << pos
	m.args = append(m.args, fmt.Sprintf("%T:%v", v, v))
}

func opSet(pos uint32, v any) op {
	return op{fmt.Sprintf("Set(%d,%v)", pos, v),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.Set(pos, v) },
		func(m *model) { m.set(pos, v) }}
}

func opEnum(pos uint32, v int32) op {
	return op{fmt.Sprintf("SetEnum(%d,%d)", pos, v),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.SetEnum(pos, v) },
		func(m *model) {
			if pos > 63 || m.limit > 0 {
				m.panics = true
				return
			}
			m.pos |= 1 << pos
			m.enums = append(append([]string{}, m.enums...), fmt.Sprintf("%d:%d", pos, v))
			e := map[uint32]int32{}
			for k, v := range m.enumAt {
				e[k] = v
			}
			if _, ok := e[pos]; !ok {
				e[pos] = v
			}
			m.enumAt = e
		}}
}

func opFlags(f ...int32) op {
	return op{fmt.Sprintf("SetFlags(%v)", f),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.SetFlags(f...) },
		func(m *model) { m.flags = f }}
}

func opNull(cols ...string) op {
	return op{fmt.Sprintf("SetNullColums(%v)", cols),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.SetNullColums(append([]string{}, cols...)) },
		func(m *model) { m.nulls = cols }}
}

func lim(l uint32) uint32 {
	if l == 0 {
		return xdb.DefaultPageSize
	}
	return l
}

func opPage(l, o uint32) op {
	return op{fmt.Sprintf("SetPage(%d,%d)", l, o),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.SetPage(l, o) },
		func(m *model) {
			if m.limit > 0 {
				m.panics = true
				return
			}
			m.limit, m.offset = lim(l), o
			m.args = append(m.args, fmt.Sprintf("uint32:%d", m.limit), fmt.Sprintf("uint32:%d", o))
		}}
}

func opCursor(l, pos uint32, c any) op {
	return op{fmt.Sprintf("SetCursor(%d,%d,%v)", l, pos, c),
		func(b *xdb.QueryParamsBuilder, k *[]kept) { b.SetCursor(l, pos, c) },
		func(m *model) {
			m.set(pos, c)
			if m.panics {
				return
			}
			m.cursor = c
			m.limit = lim(l)
			m.args = append(m.args, fmt.Sprintf("uint32:%d", m.limit))
		}}
}

func opAdd(v ...any) op {
	return op{fmt.Sprintf("AddArgs(%v)", v),
		func(b *xdb.QueryParamsBuilder, k *[]kept) {
			// the caller's slice has room after its elements, which is the caller's
			s := append(make([]any, 0, len(v)+3), v...)
			full := s[:cap(s)]
			full[len(v)], full[len(v)+1] = "own", "own"
			b.AddArgs(s...)
			*k = append(*k, kept{full, fmt.Sprint(full)})
		},
		func(m *model) {
			if m.limit > 0 {
				m.panics = true
				return
			}
			for _, x := range v {
				m.args = append(m.args, fmt.Sprintf("%T:%v", x, x))
			}
		}}
}

var opReset = op{"Reset()", func(b *xdb.QueryParamsBuilder, k *[]kept) { b.Reset() },
	func(m *model) { *m = model{} }}

var opName = op{"Name()", func(b *xdb.QueryParamsBuilder, k *[]kept) { _ = b.Name() }, func(m *model) {}}

func alphabetFull() []op {
	return []op{
		opSet(0, 1), opSet(0, "x"), opSet(1, "a"), opSet(63, true), opSet(5, nil),
		opEnum(0, 1), opEnum(1, 0), opEnum(1, 16), opEnum(11, 6), opEnum(2, -1), opEnum(63, 1),
		opFlags(), opFlags(1), opFlags(1, 6), opFlags(16), opFlags(6, 1), opFlags(-1),
		opNull("ab", "c"), opNull("a", "bc"), opNull("c", "ab"), opNull("abc"), opNull("b"), opNull(),
		opPage(0, 0), opPage(10, 0), opPage(7, 30), opCursor(5, 3, "cur"), opCursor(0, 4, uint64(9)), opCursor(5, 3, ""), opCursor(5, 4, uint64(0)), opCursor(5, 2, nil),
		opAdd("z"), opAdd(1, 2), opReset, opName,
		opSet(64, 1), opEnum(64, 1), opCursor(5, 64, "x"),
	}
}

func try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func compare(c *mc.C, b *xdb.QueryParamsBuilder, m *model) {
	var got []string
	for _, a := range b.Args() {
		got = append(got, fmt.Sprintf("%T:%v", a, a))
	}
	if strings.Join(got, "|") != strings.Join(m.args, "|") {
		c.Fail("args", "args %v, expected %v", got, m.args)
	}
	for p := uint32(0); p < 64; p++ {
		if b.IsSet(p) != (m.pos&(1<<p) != 0) {
			c.Fail("isset", "IsSet(%d)=%v", p, b.IsSet(p))
		}
		v, ok := b.GetEnum(p)
		ev, eok := m.enumAt[p]
		if ok != eok || v != ev {
			c.Fail("enum", "GetEnum(%d)=%d,%v expected %d,%v", p, v, ok, ev, eok)
		}
	}
	if fmt.Sprint(b.GetFlags()) != fmt.Sprint(m.flags) {
		c.Fail("flags", "flags %v expected %v", b.GetFlags(), m.flags)
	}
	gn := append([]string{}, b.GetNullColumns()...)
	en := append([]string{}, m.nulls...)
	sort.Strings(gn)
	sort.Strings(en)
	if fmt.Sprint(gn) != fmt.Sprint(en) {
		c.Fail("nullcolumns", "null columns %v expected %v", gn, en)
	}
	l, o := b.Page()
	if l != m.limit || o != m.offset {
		c.Fail("page", "Page()=%d,%d expected %d,%d", l, o, m.limit, m.offset)
	}
	l, cur := b.Cursor()
	if l != m.limit || cur != m.cursor {
		c.Fail("cursor", "Cursor()=%d,%v expected %d,%v", l, cur, m.limit, m.cursor)
	}
}

func explore(c *mc.C, alpha []op, depth int, each func(b *xdb.QueryParamsBuilder, m *model)) {
	b := xdb.NewQueryParams("ListThings")
	m := &model{}
	var keep []kept
	for i := 0; i < depth; i++ {
		k := c.Pick(len(alpha) + 1)
		if k == 0 {
			break
		}
		o := alpha[k-1]
		c.Log(o.name)
		c.Step()
		before := m.clone()
		o.ref(m)
		p := try(func() { o.do(b, &keep) })
		if (p != nil) != m.panics {
			c.Fail("refusal", "%s: panic=%v, expected refusal=%v", o.name, p, m.panics)
			return
		}
		if m.panics {
			// a refused call leaves the set as it was
			m = before
		}
		each(b, m)
		for _, h := range keep {
			if t := fmt.Sprint(h.s); t != h.text {
				c.Fail("arguments change", "%s: arguments %s that were handed out or passed in became %s", o.name, h.text, t)
			}
		}
		a := b.Args()
		keep = append(keep, kept{a, fmt.Sprint(a)})
	}
	c.Run().State(m.shape() + fmt.Sprint(m.args))
	c.Run().Outcome(b.Name())
}

// build makes the parameter set of the model in the canonical way, without any intermediate use.
func main() {
	prop := os.Args[1]
	mc.Main(prop, "model_checking", func(r *mc.Run) {
		alpha := alphabetFull()
		switch prop {
		case "Q04":
			r.Rule("every sequence of parameter-set calls from a " + fmt.Sprint(len(alpha)) + "-call alphabet up to the depth; after every call the whole observable state is compared with a reference model; a state is the modelled parameter set")
			d := mc.Q(r, 4, 5)
			r.Extra("depth", d)
			r.Explore(mc.Opt{Part: "ops"}, func(c *mc.C) {
				explore(c, alpha, d, func(b *xdb.QueryParamsBuilder, m *model) { compare(c, b, m) })
			})
			r.Explore(mc.Opt{Part: "found among the arguments"}, found)
			sizes := mc.Sizes(mc.Q(r, 700, 2100))
			r.Explore(mc.Opt{Part: "sizes"}, func(c *mc.C) {
				n := sizes[c.Pick(len(sizes))]
				b := xdb.NewQueryParams("ListThings")
				m := &model{}
				way := c.Pick(6)
				c.Log("%d, way %d", n, way)
				ap := func(o op) { c.Step(); o.ref(m); o.do(b, new([]kept)) }
				switch way {
				case 0:
					for i := 0; i < n; i++ {
						ap(opSet(uint32(i%64), i))
					}
				case 1:
					for i := 0; i < n; i++ {
						ap(opEnum(uint32(i*7%64), int32(i)))
					}
				case 2:
					var l []any
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprint(i))
					}
					ap(opAdd(l...))
					ap(opAdd("end"))
				case 3:
					for i := 0; i < n; i++ {
						ap(opAdd(i))
					}
				case 4:
					var l []int32
					for i := 0; i < n; i++ {
						l = append(l, int32(i-5))
					}
					ap(opFlags(l...))
				case 5:
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprintf("c%05d", i))
					}
					ap(opNull(l...))
				}
				switch c.Pick(3) {
				case 1:
					ap(opPage(10, 20))
				case 2:
					ap(opCursor(10, 3, "c"))
				}
				compare(c, b, m)
				c.Run().State(fmt.Sprint(c.Trace()))
			})
		case "Q03":
			r.Rule("every sequence of parameter-set calls (with Name and Reset in between) up to the depth; the name of every reached parameter set is recorded against its shape: one name per call history of a shape, one shape per name")
			var mu sync.Mutex
			byName := map[string]*model{}
			traceOf := map[string]string{}
			d := mc.Q(r, 4, 5)
			r.Extra("depth", d)
			check := func(c *mc.C, b *xdb.QueryParamsBuilder, m *model) {
				// the caller's own slice must not be disturbed and naming is repeatable
				n := b.Name()
				if n2 := b.Name(); n2 != n {
					c.Fail("unstable", "Name() gave %q then %q", n, n2)
				}
				// the same parameters set on a fresh builder, named only once
				f := xdb.NewQueryParams("ListThings")
				rebuild(f, m)
				if fn := f.Name(); fn != n {
					c.Fail("history", "name %q depends on history, the same parameters give %q (%s)", n, fn, m.shape())
				}
				mu.Lock()
				defer mu.Unlock()
				if o, ok := byName[n]; ok {
					if o.shape() != m.shape() {
						key := "collision"
						if o.shapeConcat() == m.shapeConcat() {
							key = "collision of null column lists with the same concatenation"
						}
						c.Fail(key, "name %q stands for %s and for %s", n, m.shape(), o.shape())
					}
				} else {
					byName[n] = m.clone()
					traceOf[n] = strings.Join(c.Trace(), " ")
				}
			}
			r.Explore(mc.Opt{Part: "names"}, func(c *mc.C) {
				b := xdb.NewQueryParams("ListThings")
				m := &model{}
				for i := 0; i < d; i++ {
					k := c.Pick(len(alpha) + 1)
					if k == 0 {
						break
					}
					o := alpha[k-1]
					c.Log(o.name)
					c.Step()
					before := m.clone()
					o.ref(m)
					_ = try(func() { o.do(b, new([]kept)) })
					if m.panics {
						m = before
					}
				}
				c.Run().State(m.shape())
				check(c, b, m)
				c.Run().Outcome(b.Name())
			})
			// every pair of positions and wide enum and flag grids
			r.Explore(mc.Opt{Part: "grid"}, func(c *mc.C) {
				b := xdb.NewQueryParams("ListThings")
				m := &model{}
				vals := []int32{0, 1, 2, 10, 15, 16, 31, 255, 256, 1 << 30, -1, -16}
				ap := func(o op) { c.Log(o.name); c.Step(); o.ref(m); o.do(b, new([]kept)) }
				p := uint32(c.Pick(64))
				switch c.Pick(4) {
				case 0:
					ap(opSet(p, 1))
				case 1:
					ap(opSet(p, 1))
					ap(opSet(uint32(c.Pick(64)), 1))
				case 2:
					ap(opEnum(p, vals[c.Pick(len(vals))]))
					if c.Flag() {
						ap(opEnum(uint32(c.Pick(16)), vals[c.Pick(len(vals))]))
					} else {
						ap(opFlags(vals[c.Pick(len(vals))]))
					}
				case 3:
					ap(opFlags(vals[c.Pick(len(vals))], vals[c.Pick(len(vals))]))
				}
				c.Run().State(m.shape())
				check(c, b, m)
				c.Run().Outcome(b.Name())
			})
			// long lists that differ in one place
			sizes := mc.Sizes(mc.Q(r, 130, 260))
			r.Explore(mc.Opt{Part: "sizes"}, func(c *mc.C) {
				n := sizes[c.Pick(len(sizes))]
				way := c.Pick(5)
				k := c.Pick(n+1) - 1 // the place of the difference
				c.Log("%d, way %d, another at %d", n, way, k)
				b := xdb.NewQueryParams("ListThings")
				m := &model{}
				ap := func(o op) { c.Step(); o.ref(m); o.do(b, new([]kept)) }
				other := func(i, d int) int {
					if i == k {
						return d
					}
					return 0
				}
				switch way {
				case 0:
					for i := 0; i < n; i++ {
						ap(opEnum(uint32(i%64), int32(i+other(i, 1000))))
					}
				case 1:
					for i := 0; i < n; i++ {
						ap(opEnum(uint32(5+other(i, 1)), int32(1)))
					}
				case 2:
					var l []int32
					for i := 0; i < n; i++ {
						l = append(l, int32(i+other(i, 1000)))
					}
					ap(opFlags(l...))
				case 3:
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprintf("c%05d", i+other(i, 1000)))
					}
					ap(opNull(l...))
				case 4:
					if n > 0 {
						s := []byte(strings.Repeat("c", n))
						if k >= 0 {
							s[k] = 'd'
						}
						ap(opNull(string(s), "e"))
					}
				}
				c.Run().State(m.shape())
				check(c, b, m)
				c.Run().Outcome(b.Name())
			})
			// the caller's null column slice is not reordered by naming
			r.Explore(mc.Opt{Part: "caller-slice"}, func(c *mc.C) {
				cols := []string{"c", "a", "b"}
				perm := c.Pick(3)
				s := append(append([]string{}, cols[perm:]...), cols[:perm]...)
				want := strings.Join(s, ",")
				b := xdb.NewQueryParams("ListThings").SetNullColums(s)
				_ = b.Name()
				c.Step()
				if strings.Join(s, ",") != want {
					c.Fail("caller slice reordered", "null columns passed as %s became %s", want, strings.Join(s, ","))
				}
			})
			r.Extra("distinct_names", len(byName))
		}
	})
}

func rebuild(b *xdb.QueryParamsBuilder, m *model) {
	for p := uint32(0); p < 64; p++ {
		if m.pos&(1<<p) != 0 {
			if _, ok := m.enumAt[p]; !ok && m.cursor == nil {
				b.Set(p, "other value")
			} else if !ok {
				b.Set(p, "other value")
			}
		}
	}
	for _, e := range m.enums {
		var p uint32
		var v int32
		fmt.Sscanf(e, "%d:%d", &p, &v)
		b.SetEnum(p, v)
	}
	b.SetFlags(m.flags...)
	b.SetNullColums(append([]string{}, m.nulls...))
	if m.cursor != nil {
		// cursor position is already in the positions: the last one set carries the cursor
		for p := uint32(0); p < 64; p++ {
			if m.pos&(1<<p) != 0 {
				b.SetCursor(99, p, "other cursor")
				break
			}
		}
	} else if m.limit > 0 {
		off := uint32(0)
		if m.offset > 0 {
			off = 77
		}
		b.SetPage(99, off)
	}
}

type holder struct{ q xdb.QueryParams }

func (h holder) QueryParams() xdb.QueryParams { return h.q }

type ptrHolder struct{ q xdb.QueryParams }

func (h *ptrHolder) QueryParams() xdb.QueryParams { return h.q }

type decoy struct{ Name string }

// found looks for the parameters among the arguments of a call: they are the first ones there.
func found(c *mc.C) {
	var args []any
	var want xdb.QueryParams
	var names []string
	for i, n := 0, c.Pick(5); i < n; i++ {
		q := xdb.NewQueryParams(fmt.Sprint("Q", i))
		var a any
		k := c.Pick(8)
		switch k {
		case 0:
			a = nil
		case 1:
			a = "Q"
		case 2:
			a = decoy{"Q"}
		case 3:
			a = ptrHolder{q} // has the method only by its address
		case 4:
			a = q
		case 5:
			a = holder{q}
		case 6:
			a = &holder{q}
		case 7:
			a = &ptrHolder{q}
		}
		if k >= 4 && want == nil {
			want = q
		}
		args = append(args, a)
		names = append(names, fmt.Sprintf("%T", a))
	}
	c.Log("%v", names)
	c.Step()
	var got xdb.QueryParams
	p := try(func() { got = xdb.GetQueryParams(args...) })
	if (p != nil) != (want == nil) || got != want {
		c.Fail("found among the arguments", "%v: %v, refused: %v", names, got, p)
	}
	c.Run().State(fmt.Sprint(names))
}
