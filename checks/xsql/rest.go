package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"strings"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"
	"verif.local/vlib/vsync"

	"github.com/effective-security/xdb/xsql"
)

// programs whose texts or layouts nearly coincide; each is one statement with one meaning
type prog struct {
	name string
	do   func(d xsql.SQLDialect) *stmt
}

func named(n string, f func(d xsql.SQLDialect) *stmt) func(d xsql.SQLDialect) *stmt {
	return func(d xsql.SQLDialect) *stmt {
		s := f(d)
		s.q.SetName(n)
		return s
	}
}

var programs = []prog{
	{"where without argument", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = b \\? c") }},
	{"where escaped with argument", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = b \\? c").Where("d = ?", 1) }},
	{"where with argument", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", 1) }},
	{"where with another argument", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", "two") }},
	{"where then select", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", 1).Select("x") }},
	{"select then where", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Select("x").Where("a = ?", 1) }},
	{"raw where then select", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Clause("WHERE").Expr("a = ?", 1).Select("x")
	}},
	{"where only", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = b") }},
	{"raw where", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Clause("WHERE").Expr("a = b") }},
	{"raw where, group", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Clause("WHERE").Expr("a = b").Where("c").OrderBy("o")
	}},
	{"one select of two", func(d xsql.SQLDialect) *stmt { return starter(d, "select", "a, b").From("t") }},
	{"two selects", func(d xsql.SQLDialect) *stmt { return starter(d, "select", "a").Select("b").From("t") }},
	{"select, from, select", func(d xsql.SQLDialect) *stmt { return starter(d, "select", "a").From("t").Select("b") }},
	{"select, from, from", func(d xsql.SQLDialect) *stmt { return starter(d, "select", "a").From("t").From("b") }},
	{"select, from, expr", func(d xsql.SQLDialect) *stmt { return starter(d, "select", "a").From("t").Expr("b") }},
	{"order by o, limit", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").OrderBy("o").Limit(5) }},
	{"limit, order by o", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Limit(5).OrderBy("o") }},
	{"group g", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Limit(5).GroupBy("g").GroupBy("o") }},
	{"insert", func(d xsql.SQLDialect) *stmt { return starter(d, "insert", "t").Set("a", 1).Set("b", 2) }},
	{"insert one field", func(d xsql.SQLDialect) *stmt { return starter(d, "insert", "t").SetExpr("a", "?, b, ?", 1, 2) }},
	{"union then where", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Union(false, starter(d, "from", "u").Where("x=?", 3)).Where("a=?", 4)
	}},
	{"sub query", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Where("c").Sub("a IN (", ")", starter(d, "from", "u").Select("id").Where("x=? AND k \\? 'k'", 3))
	}},
	{"rendered, then extended", func(d xsql.SQLDialect) *stmt {
		s := starter(d, "from", "t")
		_ = s.q.String()
		s.Where("a = ?", 1)
		_ = s.q.String()
		return s.Select("x")
	}},
	{"clone of a rendered one, extended", func(d xsql.SQLDialect) *stmt {
		s := starter(d, "from", "t").Where("a = ?", 1)
		_ = s.q.String()
		return s.Clone().Select("x")
	}},
	{"named n1", named("n1", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", 1) })},
	{"named n2", named("n2", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t2").Where("a = ?", 1) })},
	{"named like a text", named("\nFROM t\nWHERE a = ?", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t3").Where("b = ?", 1) })},
	{"named like an SQL", named("FROM t \nWHERE a = $1", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t4").Where("b = ?", 1) })},
	{"clone of named n1, extended", func(d xsql.SQLDialect) *stmt {
		s := named("n1", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", 1) })(d)
		return s.Clone().Select("x")
	}},
	{"sub query named n1", func(d xsql.SQLDialect) *stmt {
		s := named("n1", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t").Where("a = ?", 1) })(d)
		_ = s.q.String()
		return starter(d, "from", "o").Where("z=?", 9).Sub("EXISTS (", ")", s)
	}},
	{"long text", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Select(strings.Repeat("column, ", 2000)+"c").Where("a = ?", 1)
	}},
	{"long text with another end", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Select(strings.Repeat("column, ", 2000)+"c").Where("b = ?", 1)
	}},
	{"long text with another middle", func(d xsql.SQLDialect) *stmt {
		return starter(d, "from", "t").Select(strings.Repeat("column, ", 1000)+"kolumn, "+strings.Repeat("column, ", 999)+"c").Where("a = ?", 1)
	}},
	{"long name", named(strings.Repeat("name", 200), func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t5").Where("b = ?", 1) })},
	{"long name with another end", named(strings.Repeat("name", 200)+"x", func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t6").Where("b = ?", 1) })},
	{"new lines off", func(d xsql.SQLDialect) *stmt {
		s := starter(d, "from", "t")
		s.q.UseNewLines(false)
		return s.Where("a = b")
	}},
}

func s03(r *mc.Run) {
	n := mc.Q(r, 3, 4)
	r.Rule("every sequence of statements from a set of programs whose texts, layouts or names nearly coincide, in two dialects, each closed or left open; each must be rendered as the model renders it alone; and every sequence of operations on the caches of named queries against a map")
	r.Extra("statements in a history", n)
	r.Explore(mc.Opt{Part: "histories", Procs: true}, func(c *mc.C) {
		fresh()
		for i := 0; i < n; i++ {
			k := c.Pick(len(programs)*2 + 1)
			if k == 0 {
				break
			}
			p, d := programs[(k-1)/2], dialects[(k-1)%2]
			s := p.do(d.d)
			c.Log("%s in %s", p.name, d.name)
			c.Step()
			if bad := s.check(d.pg); bad != "" {
				c.Fail("depends on history: "+p.name, "%s", bad)
				return
			}
			c.Run().Outcome(d.name + s.q.String())
			if c.Dev(2) == 0 {
				s.q.Close()
			}
		}
		c.Run().State(strings.Join(c.Trace(), "|"))
	})
	depth := mc.Q(r, 4, 6)
	r.Explore(mc.Opt{Part: "named queries", Procs: true}, func(c *mc.C) {
		fresh()
		var m [2]map[string]string
		m[0], m[1] = map[string]string{}, map[string]string{}
		for i := 0; i < depth; i++ {
			k := c.Pick(6)
			if k == 5 {
				break
			}
			di := c.Pick(2)
			d := dialects[di]
			name := []string{"k1", "k2"}[c.Pick(2)]
			c.Step()
			c.Log("%d %s %s", k, d.name, name)
			mk := func() *stmt { return starter(d.d, "from", "t_"+name).Where("a = ?", 1) }
			switch k {
			case 0:
				got, ok := d.d.GetCachedQuery(name)
				want, wok := m[di][name]
				if ok != wok || got != want {
					c.Fail("get", "%q %v, expected %q %v", got, ok, want, wok)
				}
			case 1:
				d.d.PutCachedQuery(name, "PUT "+name)
				m[di][name] = "PUT " + name
			case 2, 3:
				called := 0
				var text string
				got, key := d.d.GetOrCreateQuery(name, func(n string) xsql.Builder {
					called++
					s := mk()
					text = s.m.sql(d.pg)
					if k == 3 {
						s.q.SetName(n)
					}
					return s.q
				})
				if want, ok := m[di][name]; ok {
					if called != 0 || got != want {
						c.Fail("get or create", "%q after %d calls, expected the cached %q", got, called, want)
					}
				} else if called != 1 || norm(got) != norm(text) {
					c.Fail("get or create", "%q after %d calls, expected %q", got, called, text)
				}
				if key != name {
					c.Fail("key", "%q", key)
				}
				m[di][name] = got
			case 4:
				s := mk()
				s.q.SetName(name)
				if s.q.Name() != name {
					c.Fail("name", "%q", s.q.Name())
				}
				got := s.q.String()
				if want, ok := m[di][name]; ok && got != want {
					c.Fail("named", "%q, expected the cached %q", got, want)
				} else if !ok && norm(got) != norm(s.m.sql(d.pg)) {
					c.Fail("named", "%q", got)
				}
				m[di][name] = got
				s.q.Close()
			}
		}
		c.Run().State(fmt.Sprint(m))
		c.Run().Outcome(fmt.Sprint(m))
	})
	// as many statements as a program makes in its life
	most := mc.Q(r, 250000, 1000000)
	var amounts []int
	for _, n := range mc.Sizes(2100) {
		if n > 5 {
			amounts = append(amounts, n)
		}
	}
	amounts = append(amounts, 10001, 70000, most)
	r.Explore(mc.Opt{Part: "many statements", Procs: true}, func(c *mc.C) {
		fresh()
		n := amounts[len(amounts)-1-c.Pick(len(amounts))]
		d := dialects[c.Pick(len(dialects))]
		kind := c.Pick(4)
		mk := func(i int) *stmt {
			switch kind {
			case 0: // texts of one length, at first
				return starter(d.d, "from", t("t#", i)).Where("a = ?", i)
			case 1: // of every length
				return starter(d.d, "from", "t").Select(strings.Repeat("c, ", i%3000)+t("k#", i/3000)).Where("a = ?", i)
			case 2: // as many names for one text
				s := starter(d.d, "from", t("t#", i)).Where("a = ?", i)
				s.q.SetName(t("name#", i))
				return s
			}
			// in one dialect and the other
			return starter(dialects[i%3].d, "insert", t("t#", i/3)).Set("a", i).Set("b", "x")
		}
		if kind == 1 && n > 2100 {
			n = 2100
		}
		one := func(i int) bool {
			s := mk(i)
			pg := d.pg
			if kind == 3 {
				pg = dialects[i%3].pg
			}
			bad := s.check(pg)
			if i%3 != 0 {
				s.q.Close()
			}
			if bad != "" {
				c.Fail("depends on history: many statements", "%s", bad)
			}
			return bad == ""
		}
		for i := 0; i < n; i++ {
			if !one(i) {
				return
			}
		}
		for i := n - 1; i >= 0 && i > n-5000; i-- {
			if !one(i) {
				return
			}
		}
		for i := 0; i < n && i < 5000; i++ {
			if !one(i) {
				return
			}
		}
		c.Log("%d statements of kind %d in %s", n, kind, d.name)
		c.Step()
		c.Run().State(fmt.Sprint(n, kind, d.name))
		c.Run().Outcome(fmt.Sprint(n, kind, d.name))
	})
	// as many kept queries
	r.Explore(mc.Opt{Part: "many named queries", Procs: true}, func(c *mc.C) {
		fresh()
		lens := mc.Sizes(mc.Q(r, 2100, 70000))
		n := lens[len(lens)-1-c.Pick(len(lens))]
		d := dialects[c.Pick(len(dialects))]
		long := strings.Repeat("n", []int{0, 30, 255, 1024}[c.Pick(4)])
		put := c.Flag()
		c.Step()
		name := func(i int) string { return fmt.Sprintf("%s%d", long, i) }
		for i := 0; i < n; i++ {
			if put {
				d.d.PutCachedQuery(name(i), fmt.Sprintf("PUT %d", i))
				continue
			}
			s := starter(d.d, "from", t("t#", i)).Where("a = ?", i)
			got, key := d.d.GetOrCreateQuery(name(i), func(nm string) xsql.Builder { return s.q })
			if norm(got) != norm(s.m.sql(d.pg)) || key != name(i) {
				c.Fail("get or create", "%d of %d: %q for %q", i, n, got, key)
				return
			}
		}
		for k := 0; k < 2; k++ {
			for i := n - 1; i >= 0; i-- {
				got, ok := d.d.GetCachedQuery(name(i))
				want := fmt.Sprintf("PUT %d", i)
				if !put {
					want = starter(d.d, "from", t("t#", i)).Where("a = ?", i).m.sql(d.pg)
				}
				if !ok || norm(got) != norm(want) {
					c.Fail("get", "%d of %d: %q %v, expected %q", i, n, got, ok, want)
					return
				}
			}
		}
		if got, ok := d.d.GetCachedQuery(name(n)); ok {
			c.Fail("get", "%q was never kept: %q", name(n), got)
		}
		c.Run().State(fmt.Sprint(n, d.name, len(long), put))
		c.Run().Outcome(fmt.Sprint(n))
	})
}

func s04(r *mc.Run) {
	depth := 4
	r.Rule("two statements under construction next to recycled ones; every sequence of operations (start, extend, clone, merge as sub query or union, close, render) with every answer of the pools of recycled objects within the deviation bound; after every operation every open statement is compared with its own model, and every text ever returned is compared with its copy")
	r.Extra("depth", depth)
	manyOpen(r)
	dev := mc.Q(r, 1, 2)
	for di, d := range dialects[:2] {
		if di == 0 && !r.Thorough() {
			continue
		}
		r.Explore(mc.Opt{Part: d.name, Procs: true, Bound: dev}, func(c *mc.C) {
			fresh()
			n := 0
			next := func() int { n++; return n }
			var x [3]*stmt
			// a history before: a long statement that was closed
			if c.Flag() {
				s := starter(d.d, "from", "old").Where("o1=?", "old1").Where("o2=?", "old2").OrderBy("oo").Limit(99).To(new(int), new(int))
				s.q.Close()
				starter(d.d, "insert", "oldi").Set("a", "olda").Set("b", "oldb").q.Close()
			}
			x[0] = starter(d.d, "from", "t0").Select("a", "x").To(new(int)).Where("p=?", "p0")
			if c.Dev(2) == 1 {
				// more clauses than a recycled statement has room for
				for i := 0; i < 9; i++ {
					x[0].Clause(t("BIG# ?", i), t("big#", i))
				}
				x[0].Where("q=?", "p1")
			}
			x[1] = starter(d.d, "insert", "t1").Set("f", "v1")
			type kept struct {
				s    string
				copy []byte
			}
			var texts []kept
			vsync.PoolPolicy = func(n int) int {
				// the most recent, an older one, or a new object
				k := c.Dev(min(n+1, 3))
				if k == 2 {
					return n
				}
				return k
			}
			defer func() { vsync.PoolPolicy = nil }()
			for i := 0; i < depth; i++ {
				k := c.Pick(13)
				if k == 12 {
					break
				}
				a := c.Pick(3)
				u := next()
				s := x[a]
				if (s == nil) != (k == 0 || k == 1) {
					c.Stop()
				}
				c.Step()
				switch k {
				case 0:
					x[a] = starter(d.d, "select", t("n#", u)).From(t("t#", u))
				case 1:
					x[a] = starter(d.d, "update", t("t#", u)).Set(t("f#", u), u)
				case 2:
					s.Where(t("w#=?", u), u)
				case 3:
					if !listable(s) {
						c.Stop()
					}
					s.Expr(t("e#+?", u), u)
				case 4:
					s.q.Close()
					x[a] = nil
				case 5, 6, 7:
					b := (a + 1 + c.Pick(2)) % 3
					o := x[b]
					switch {
					case k == 5 && o == nil:
						x[b] = s.Clone()
					case k == 6 && o != nil && !o.m.insert && (s.m.cur != nil && (s.m.cur.kind == "where" || s.m.cur.kind == "select" || s.m.cur.kind == "from")):
						s.Sub(t("k# IN (", u), ")", o)
						x[b] = nil
					case k == 7 && o != nil && !o.m.insert && !s.m.insert:
						s.Union(false, o)
						x[b] = nil
					default:
						c.Stop()
					}
				case 8:
					q := s.q.String()
					texts = append(texts, kept{q, []byte(q)})
				case 9:
					s.Where(t("v#", u)).In(u, "in")
				case 10:
					s.To(new(int)).Limit(u)
				case 11:
					if s.m.insert {
						s.NewRow().set("f", u, true)
					} else {
						if s.m.find("from") == nil {
							c.Stop()
						}
						s.Join(u%4, t("j#", u), "j=k")
					}
				}
				c.Log("op%d x%d", k, a)
				for b, s := range x {
					if s != nil && (b != a || i == depth-1 || k == 5) {
						// models share nothing: compare without disturbing the one at work
						if bad := s.peek(d.pg); bad != "" {
							c.Fail("statement disturbed", "x%d: %s", b, bad)
							return
						}
					}
				}
			}
			for b, s := range x {
				if s != nil {
					if bad := s.check(d.pg); bad != "" {
						c.Fail("statement disturbed", "x%d: %s", b, bad)
						return
					}
					c.Run().Outcome(s.q.String())
					q := s.q.String()
					texts = append(texts, kept{q, []byte(q)})
				}
			}
			for _, s := range x {
				if s != nil {
					s.q.Close()
				}
			}
			starter(d.d, "from", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz").Where("yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy").Join(0, "xxxxxxxxxx", "wwwwwwwwwwwwwwww")
			for _, k := range texts {
				if k.s != string(k.copy) {
					c.Fail("text changed", "%q became %q", k.copy, k.s)
				}
			}
			c.Run().State(strings.Join(c.Trace(), "|"))
		})
	}
}

// manyOpen keeps many statements under construction at the same time, next to recycled ones.
func manyOpen(r *mc.Run) {
	r.Explore(mc.Opt{Part: "many statements", Procs: true}, func(c *mc.C) {
		fresh()
		lens := mc.Sizes(mc.Q(r, 1100, 9000))
		n := lens[len(lens)-1-c.Pick(len(lens))]
		d := dialects[c.Pick(len(dialects))]
		long := []int{0, 9, 70}[c.Pick(3)] // clauses of some of them
		c.Step()
		u := 0
		next := func() int { u++; return u }
		mk := func(i int) *stmt {
			k := next()
			switch i % 3 {
			case 0:
				return starter(d.d, "from", t("t#", k)).Select(t("a#", k)).To(new(int)).Where(t("p#=?", k), k)
			case 1:
				return starter(d.d, "insert", t("t#", k)).Set("f", k)
			}
			return starter(d.d, "update", t("t#", k)).Set("g", k).Where(t("p#=?", k), k)
		}
		l := make([]*stmt, n)
		for i := range l {
			l[i] = mk(i)
		}
		bad := func(what string, i int) bool {
			if b := l[i].check(d.pg); b != "" {
				c.Fail("many statements", "%s, %d of %d: %s", what, i, n, b)
				return true
			}
			return false
		}
		extend := func(i int) {
			k := next()
			if i%3 == 1 {
				l[i].Set(t("h#", k), k)
				return
			}
			l[i].Where(t("q#=?", k), k)
			if i%4 == 0 {
				for j := 0; j < long; j++ {
					l[i].Clause(t("BIG# ?", j), t("big#", k))
				}
			}
		}
		for i := range l {
			extend(i)
		}
		var texts []string
		var copies [][]byte
		for i := range l {
			if bad("extended", i) {
				return
			}
			texts = append(texts, l[i].q.String())
			copies = append(copies, []byte(texts[i]))
		}
		// two of three are closed, and others take their places
		for i := range l {
			if i%3 != 0 {
				l[i].q.Close()
			}
		}
		for i := range l {
			if i%3 != 0 {
				l[i] = mk(i + 1)
			}
		}
		for i := range l {
			if i%2 == 0 {
				cl := l[i].Clone()
				l[i].q.Close()
				l[i] = cl
			}
		}
		for i := range l {
			if l[i].m.insert || i%5 == 0 {
				continue
			}
			l[i].Where("z=?", next())
		}
		for i := range l {
			if bad("recycled", i) {
				return
			}
			if texts[i] != string(copies[i]) {
				c.Fail("text changed", "%q became %q", copies[i], texts[i])
				return
			}
		}
		c.Log("%d statements in %s, some with %d clauses more", n, d.name, long)
		c.Run().State(fmt.Sprint(n, d.name, long))
		c.Run().Outcome(fmt.Sprint(n))
	})
}

// peek checks a copy, so that rendering does not hide a missing invalidation.
func (s *stmt) peek(pg bool) string {
	_, wa := s.m.render()
	if !sameArgs(s.q.Args(), wa) {
		return fmt.Sprintf("arguments are %v, expected %v", s.q.Args(), wa)
	}
	if !sameArgs(s.q.Dest(), s.m.dest) {
		return fmt.Sprintf("targets are %v, expected %v", s.q.Dest(), s.m.dest)
	}
	return ""
}

func s05(r *mc.Run) {
	r.Rule("every interleaving, within the preemption bound, of goroutines that each build, render, clone, merge and close statements of shared dialects, names and recycled objects; each statement must come out as the model renders it alone, and the race detector must stay silent")
	bound := mc.Q(r, 3, 4)
	r.Extra("preemptions", bound)
	where := func(d xsql.SQLDialect, id int) *stmt {
		return starter(d, "from", "t").Select("a").Where("x=?", id)
	}
	bodies := []struct {
		name string
		do   func(id int) (string, string) // got, want
	}{
		{"same named query", func(id int) (string, string) {
			s := starter(xsql.Postgres, "from", "t").Where("x=?", id)
			s.q.SetName("shared")
			w := s.m.sql(true) + fmt.Sprint(id)
			g := s.q.String() + fmt.Sprint(s.q.Args()...)
			s.q.Close()
			return g, w
		}},
		{"get or create", func(id int) (string, string) {
			w := ""
			g, _ := xsql.Postgres.GetOrCreateQuery("goc", func(string) xsql.Builder {
				return starter(xsql.Postgres, "from", "t").Where("x=?", id).q
			})
			w = starter(xsql.Postgres, "from", "t").Where("x=?", id).m.sql(true)
			return g, w
		}},
		{"private statement", func(id int) (string, string) {
			s := where(xsql.Postgres, id).Where("n").In(id, id)
			w := s.m.sql(true) + fmt.Sprint(id, id, id)
			g := s.q.String() + fmt.Sprint(s.q.Args()...)
			s.q.Close()
			return g, w
		}},
		{"sub query", func(id int) (string, string) {
			s := where(xsql.Postgres, id).Sub("i IN (", ")", where(xsql.NoDialect, id))
			w := s.m.sql(true) + fmt.Sprint(id, id)
			g := s.q.String() + fmt.Sprint(s.q.Args()...)
			s.q.Close()
			return g, w
		}},
		{"insert and union", func(id int) (string, string) {
			s := starter(xsql.NoDialect, "insert", "t").Set("a", id)
			s.q.Close()
			u := where(xsql.NoDialect, id).Union(true, where(xsql.Postgres, id))
			w := u.m.sql(false) + fmt.Sprint(id, id)
			g := u.q.String() + fmt.Sprint(u.q.Args()...)
			u.q.Close()
			return g, w
		}},
		{"default dialect", func(id int) (string, string) {
			q := xsql.From("d").Where("x=?", id)
			g := q.String() + fmt.Sprint(q.Args()...)
			q.Close()
			return g, "FROM d WHERE x=?" + fmt.Sprint(id)
		}},
		{"change of the default", func(id int) (string, string) {
			xsql.SetDialect(xsql.SQLServer)
			q := xsql.InsertInto("d").Set("a", id)
			g := q.String() + fmt.Sprint(q.Args()...)
			q.Close()
			return g, "INSERT INTO d (a) VALUES (?)" + fmt.Sprint(id)
		}},
		{"clone of a shared template", func(id int) (string, string) {
			q := template.q.Clone().Expr(fmt.Sprint("c", id)).Where("y=?", id)
			g := q.String() + fmt.Sprint(q.Args()...)
			q.Close()
			return g, fmt.Sprintf("SELECT a, c%d FROM tpl WHERE z=$1 AND y=$2", id) + fmt.Sprint(1, id)
		}},
	}
	for i := range bodies {
		for j := i; j < len(bodies); j++ {
			a, b := bodies[i], bodies[j]
			r.ExploreSched(mc.Opt{Part: a.name + " | " + b.name, Bound: bound}, func(c *mc.C) mc.Sched {
				fresh()
				template = starter(xsql.Postgres, "from", "tpl").Where("z=?", 1).Select("a")
				if c.Flag() {
					_ = template.q.String()
				}
				if c.Flag() { // something to recycle
					where(xsql.Postgres, 77).q.Close()
				}
				var g, w [2]string
				return mc.Sched{Threads: []func(){
					func() { g[0], w[0] = a.do(1) },
					func() { g[1], w[1] = b.do(2) },
				}, After: func(c *mc.C, res vsched.Result) {
					for k := range g {
						if norm(g[k]) != norm(w[k]) {
							c.Fail("statement disturbed", "thread %d got %q, expected %q", k, g[k], w[k])
						}
					}
					c.Run().State(fmt.Sprint(g) + fmt.Sprint(res.Schedule))
				}}
			})
		}
	}
}

var template *stmt

func s06(r *mc.Run) {
	r.Rule("every way of running a statement (query, single row, exec; closing or not; on a pool, a connection or a transaction), over result sets of up to the given size, with every single fault of the driver at every operation, every row that does not fit the targets, and every row at which the handler panics; the driver records what reached it and what is still open")
	maxRows := mc.Q(r, 3, 5)
	faultBound := mc.Q(r, 2, 3)
	r.Extra("faults per execution", faultBound)
	r.Explore(mc.Opt{Part: "execution", Procs: true, Bound: faultBound}, func(c *mc.C) {
		fresh()
		ctx, stop := fakedb.Mark(context.Background(), "given")
		defer stop()
		d := dialects[c.Pick(2)]
		how := c.Pick(6)
		on := c.Pick(3)
		nrows := 0
		if how < 4 {
			nrows = c.Pick(maxRows + 1)
		}
		targets := c.Pick(2) == 0 || how >= 2
		badRow, panicRow := -1, -1
		if nrows > 0 && targets && c.Flag() {
			badRow = c.Pick(nrows)
		}
		if how < 2 && nrows > 0 && badRow < 0 && c.Flag() {
			panicRow = c.Pick(nrows)
		}
		noHandler := how < 2 && panicRow < 0 && c.Flag()
		c.Log("%s how=%d on=%d rows=%d targets=%v bad=%d panic=%d", d.name, how, on, nrows, targets, badRow, panicRow)

		srv := &fakedb.Server{}
		var faults []*fakedb.Op
		armed := false
		srv.Fault = func(o *fakedb.Op) error {
			if !armed {
				return nil
			}
			switch o.Kind {
			case "query", "exec", "next", "rowsclose":
				if k := c.Dev(1 + len(fakedb.Kinds)); k > 0 {
					c.Log("fault at %s row %d: %v", o.Kind, o.N, fakedb.Kinds[k-1])
					p := *o
					faults = append(faults, &p)
					return fakedb.Kinds[k-1]
				}
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"a", "b"}}
			for i := 0; i < nrows; i++ {
				v := any(int64(100 + i))
				if i == badRow {
					v = "not a number"
				}
				res.Rows = append(res.Rows, []any{v, fmt.Sprint("b", i)})
			}
			return res, nil
		}
		srv.OnExec = func(string, []any) (driver.Result, error) { return driver.RowsAffected(7), nil }
		db := srv.DB()
		defer db.Close()
		var ex xsql.Executor = db
		var tx *sql.Tx
		var conn *sql.Conn
		var err error
		switch on {
		case 1:
			if conn, err = db.Conn(ctx); err != nil {
				panic(err)
			}
			ex = conn
		case 2:
			if tx, err = db.BeginTx(ctx, nil); err != nil {
				panic(err)
			}
			ex = tx
		}
		var a int
		var b string
		s := starter(d.d, "from", "t").Where("k=?", int64(5)).Where("n").In("x", int64(6)).Limit(int64(9))
		if how >= 4 {
			s = starter(d.d, "update", "t").Set("f", int64(3)).Where("k=?", "z")
		} else if targets {
			s.Select("a, b").To(&a, &b)
		} else {
			s.Select("a, b")
		}
		wantSQL := norm(s.m.sql(d.pg))
		_, wantArgs := s.m.render()
		// what closing it by itself gives back
		_ = s.q.String()
		other := s.q.Clone()
		_ = other.String()
		before := vsync.Pooled()
		other.Close()
		gives := vsync.Pooled() - before
		before = vsync.Pooled()
		type seen struct {
			a int
			b string
		}
		var got []seen
		handler := func(rows *sql.Rows) {
			if panicRow == len(got) {
				panic("handler")
			}
			x := seen{a, b}
			if !targets {
				if err := rows.Scan(&x.a, &x.b); err != nil {
					panic(err)
				}
			}
			got = append(got, x)
		}
		if noHandler {
			handler = nil
		}
		armed = true
		panicked := false
		var res sql.Result
		func() {
			defer func() {
				if p := recover(); p != nil {
					if p != "handler" {
						panic(p)
					}
					panicked = true
				}
			}()
			switch how {
			case 0:
				err = s.q.Query(ctx, ex, handler)
			case 1:
				err = s.q.QueryAndClose(ctx, ex, handler)
			case 2:
				err = s.q.QueryRow(ctx, ex)
			case 3:
				err = s.q.QueryRowAndClose(ctx, ex)
			case 4:
				res, err = s.q.Exec(ctx, ex)
			case 5:
				res, err = s.q.ExecAndClose(ctx, ex)
			}
		}()
		armed = false
		c.Step()
		// what reached the driver
		reached := 0
		for _, o := range srv.Recorded() {
			if o.Kind == "query" || o.Kind == "exec" {
				reached++
				if norm(o.SQL) != wantSQL || !sameArgs(o.Args, wantArgs) {
					c.Fail("sent", "%q %v, expected %q %v", o.SQL, o.Args, wantSQL, wantArgs)
				}
				if o.Under != "given" {
					c.Fail("context", "not the one of the call")
				}
				if (o.Kind == "exec") != (how >= 4) {
					c.Fail("sent as", "%s", o.Kind)
				}
			}
		}
		if reached != 1 {
			c.Fail("sent times", "%d", reached)
		}
		// result
		delivered := nrows
		wantErr := false
		for _, f := range faults {
			wantErr = true
			switch f.Kind {
			case "query", "exec":
				delivered = 0
			case "next":
				delivered = min(delivered, f.N)
			}
		}
		if how < 2 {
			if badRow >= 0 && badRow < delivered {
				delivered = badRow
				wantErr = true
			}
			if panicRow >= 0 && panicRow < delivered {
				if !panicked {
					c.Fail("panic swallowed", "")
				}
				delivered = panicRow
			} else {
				if panicked {
					c.Fail("panicked", "")
				}
				if (err != nil) != wantErr {
					c.Fail("query error", "%v with faults %v", err, faults)
				}
				if wantErr && len(faults) == 1 && badRow < 0 && !fakedb.IsInjected(err) {
					c.Fail("query error lost", "%v", err)
				}
			}
			if !noHandler {
				if len(got) != delivered {
					c.Fail("rows", "handler saw %d rows of %d", len(got), delivered)
				}
				for i, x := range got {
					if x.a != 100+i || x.b != fmt.Sprint("b", i) {
						c.Fail("row", "%d: %v", i, x)
					}
				}
			}
		} else if how < 4 {
			switch {
			case wantErr && len(faults) == 1 && faults[0].Kind == "rowsclose", !wantErr && badRow != 0 && nrows > 0:
				// after a failed close the row may or may not be reported
				if !wantErr && (err != nil || a != 100 || b != "b0") {
					c.Fail("row", "%v %d %s", err, a, b)
				}
			case !wantErr && nrows == 0:
				if !errors.Is(err, sql.ErrNoRows) {
					c.Fail("no rows", "%v", err)
				}
			default:
				if err == nil {
					c.Fail("row error lost", "faults %v", faults)
				}
			}
		} else {
			if (err != nil) != wantErr {
				c.Fail("exec error", "%v", err)
			}
			if err == nil {
				if n, e := res.RowsAffected(); n != 7 || e != nil {
					c.Fail("exec result", "%d %v", n, e)
				}
			}
		}
		// nothing is left open
		if tx != nil {
			_ = tx.Rollback()
		}
		if conn != nil {
			_ = conn.Close()
		}
		if _, rows, txs, _ := srv.Counts(); rows != 0 || txs != 0 || db.Stats().InUse != 0 {
			c.Fail("left open", "%d row sets, %d transactions, %d connections in use", rows, txs, db.Stats().InUse)
		}
		if got := vsync.Pooled() - before; how%2 == 1 && got != gives && !panicked {
			c.Fail("not released", "%d recycled objects, Close recycles %d", got, gives)
		}
		// a statement that was not closed can be run again
		if how%2 == 0 && !panicked {
			if bad := s.check(d.pg); bad != "" {
				c.Fail("statement after running", "%s", bad)
			}
		}
		c.Run().State(strings.Join(c.Trace(), "|"))
		c.Run().Outcome(fmt.Sprint(err, got))
	})
	sizes := append(mc.Sizes(mc.Q(r, 2100, 12000)), mc.Q(r, []int{10001, 70001}, []int{33000, 70001, 1000001})...)
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		fresh()
		d := dialects[c.Pick(2)]
		nrows := sizes[c.Pick(len(sizes))]
		closing, inTx := c.Pick(2) == 1, c.Pick(2) == 1
		targets, stops := c.Pick(2) == 1, c.Pick(4)
		// the row at which the database fails, or whose values do not fit, or the handler panics
		at := -1
		if stops > 0 {
			at = []int{0, nrows / 2, nrows - 1, nrows}[c.Pick(4)]
		}
		c.Log("%s rows=%d closing=%v tx=%v targets=%v stops=%d at=%d", d.name, nrows, closing, inTx, targets, stops, at)
		srv := &fakedb.Server{}
		srv.Fault = func(o *fakedb.Op) error {
			if stops == 1 && o.Kind == "next" && o.N == at {
				return fakedb.Kinds[0]
			}
			return nil
		}
		srv.Answer = func(string, []any) (*fakedb.Result, error) {
			res := &fakedb.Result{Cols: []string{"a", "b"}}
			for i := 0; i < nrows; i++ {
				v := any(int64(100 + i))
				if stops == 2 && i == at {
					v = "not a number"
				}
				res.Rows = append(res.Rows, []any{v, "b"})
			}
			return res, nil
		}
		db := srv.DB()
		defer db.Close()
		ctx := context.Background()
		var ex xsql.Executor = db
		var tx *sql.Tx
		if inTx {
			var err error
			if tx, err = db.BeginTx(ctx, nil); err != nil {
				panic(err)
			}
			ex = tx
		}
		var a int
		var b string
		q := d.d.From("t").Where("k=?", 5).Select("a, b")
		if targets {
			q.To(&a, &b)
		}
		seen := 0
		bad, panicked := false, false
		handler := func(rows *sql.Rows) {
			if stops == 3 && seen == at {
				panic("handler")
			}
			if !targets {
				a = 0
				_ = rows.Scan(&a, &b)
			}
			bad = bad || a != 100+seen && !(stops == 2 && seen == at)
			seen++
		}
		var err error
		func() {
			defer func() {
				if p := recover(); p != nil {
					if p != "handler" {
						panic(p)
					}
					panicked = true
				}
			}()
			if closing {
				err = q.QueryAndClose(ctx, ex, handler)
			} else {
				err = q.Query(ctx, ex, handler)
			}
		}()
		c.Step()
		want, wantErr := nrows, false
		switch {
		case at < 0 || at > nrows:
		case stops == 1:
			want, wantErr = at, true
		case stops == 2 && targets && at < nrows:
			want, wantErr = at, true
		case stops == 3 && at < nrows:
			want = at
		}
		if panicked != (stops == 3 && at >= 0 && at < nrows) {
			c.Fail("panic", "%v", panicked)
		}
		if seen != want || bad {
			c.Fail("rows", "handler saw %d rows of %d", seen, want)
		}
		if (err != nil) != wantErr {
			c.Fail("query error", "%v", err)
		}
		if tx != nil {
			_ = tx.Rollback()
		}
		if _, rows, txs, _ := srv.Counts(); rows != 0 || txs != 0 || db.Stats().InUse != 0 {
			c.Fail("left open", "%d row sets, %d transactions", rows, txs)
		}
		c.Run().State(strings.Join(c.Trace(), "|"))
		c.Run().Outcome(fmt.Sprint(err, seen))
	})
}
