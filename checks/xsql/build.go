package main

import (
	"fmt"
	"regexp"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb/xsql"
)

// An op adds something to a statement; n makes its texts and arguments unique in the statement.
type op struct {
	name string
	ok   func(s *stmt, last string) bool
	do   func(s *stmt, n int)
}

func mk(n int, k ...int) []any {
	var l []any
	for _, i := range k {
		l = append(l, fmt.Sprintf("m%d.%d", n, i))
	}
	return l
}

func sub(d xsql.SQLDialect, n int, nest bool) *stmt {
	s := starter(d, "from", fmt.Sprintf("sub%d", n))
	if nest {
		s.Where(fmt.Sprintf("m%d=? AND k \\? 'x'", n+1000), mk(n+1000, 0)...)
		s.Select("x")
		s.Sub("EXISTS (", ")", sub(d, n+2000, false))
		s.Limit("limit:" + fmt.Sprint(n+1000))
		return s
	}
	return s.Select("a").Where(fmt.Sprintf("m%d IN (?, ?)", n), mk(n, 0, 1)...)
}

func t(f string, n int) string { return strings.ReplaceAll(f, "#", fmt.Sprint(n)) }

func listable(s *stmt) bool {
	c := s.m.cur
	if c == nil {
		return false
	}
	switch c.kind {
	case "select", "from", "group", "order", "set", "returning", "with":
		return c.kind != "with"
	}
	return strings.HasPrefix(c.kind, "raw")
}

func cur(kinds ...string) func(s *stmt, last string) bool {
	return func(s *stmt, last string) bool {
		for _, k := range kinds {
			if s.m.cur != nil && s.m.cur.kind == k {
				return true
			}
		}
		return false
	}
}

var curD xsql.SQLDialect // dialect of the statement being built, for sub queries

var selectOps = []op{
	{"Select(s)", nil, func(s *stmt, n int) { s.Select(t("s#", n)) }},
	{"Select(s,arg)", nil, func(s *stmt, n int) { s.Select(t("m#+?", n), mk(n, 0)...) }},
	{"From(f)", nil, func(s *stmt, n int) { s.From(t("f#", n)) }},
	{"From(f,arg)", nil, func(s *stmt, n int) { s.From(t("fn(m#, ?)", n), mk(n, 0)...) }},
	{"Where(w)", nil, func(s *stmt, n int) { s.Where(t("m#", n)) }},
	{"Where(w,arg)", nil, func(s *stmt, n int) { s.Where(t("m# = ?", n), mk(n, 0)...) }},
	{"Where(w,2)", nil, func(s *stmt, n int) { s.Where(t("m# BETWEEN ? AND ?", n), mk(n, 0, 1)...) }},
	{"Where(escaped,arg)", nil, func(s *stmt, n int) { s.Where(t("j# \\? 'é' AND m# = ?", n), mk(n, 0)...) }},
	{"Where(escaped)", nil, func(s *stmt, n int) { s.Where(t("j# \\? 'x'", n)) }},
	{"In(2)", func(s *stmt, last string) bool { return last == "Where(w)" }, func(s *stmt, n int) { s.In(mk(n-1, 0, 1)...) }},
	{"Join", func(s *stmt, last string) bool { return s.m.find("from") != nil }, func(s *stmt, n int) { s.Join(n%4, t("j#", n), t("j#.id = a", n)) }},
	{"GroupBy", nil, func(s *stmt, n int) { s.GroupBy(t("g#", n)) }},
	{"Having(arg)", nil, func(s *stmt, n int) { s.Having(t("m# > ?", n), mk(n, 0)...) }},
	{"OrderBy(2)", nil, func(s *stmt, n int) { s.OrderBy(t("o#", n), t("p# DESC", n)) }},
	{"Limit", nil, func(s *stmt, n int) { s.Limit(t("limit:#", n)) }},
	{"Offset", nil, func(s *stmt, n int) { s.Offset(t("offset:#", n)) }},
	{"Paginate", nil, func(s *stmt, n int) { s.Paginate(n, 10) }},
	{"Returning", nil, func(s *stmt, n int) { s.Returning(t("r#", n)) }},
	{"Clause", nil, func(s *stmt, n int) { s.Clause(t("RAW#", n)) }},
	{"Clause(arg)", nil, func(s *stmt, n int) { s.Clause(t("RAW m#=?", n), mk(n, 0)...) }},
	{"Expr", func(s *stmt, last string) bool { return listable(s) }, func(s *stmt, n int) { s.Expr(t("e#", n)) }},
	{"Expr(arg)", func(s *stmt, last string) bool { return listable(s) }, func(s *stmt, n int) { s.Expr(t("m#*?", n), mk(n, 0)...) }},
	{"SubQuery", cur("where", "select", "from"), func(s *stmt, n int) { s.Sub("x IN (", ")", sub(curD, n, n%2 == 1)) }},
	{"SubQuery(no prefix)", cur("from", "select"), func(s *stmt, n int) { s.Sub("", "", sub(curD, n, false)) }},
	{"Union", nil, func(s *stmt, n int) { s.Union(n%2 == 0, sub(curD, n, false)) }},
	{"With", nil, func(s *stmt, n int) { s.With(t("cte#", n), sub(curD, n, n%2 == 0)) }},
}

var updateOps = []op{
	{"Set", nil, func(s *stmt, n int) { s.Set(t("m#", n), mk(n, 0)[0]) }},
	{"SetExpr(2)", nil, func(s *stmt, n int) { s.SetExpr(t("c#", n), t("m#+?*?", n), mk(n, 0, 1)...) }},
	{"SetExpr", nil, func(s *stmt, n int) { s.SetExpr(t("c#", n), "now()") }},
	{"From(f,arg)", nil, func(s *stmt, n int) { s.From(t("fn(m#, ?)", n), mk(n, 0)...) }},
	{"Where(w,arg)", nil, func(s *stmt, n int) { s.Where(t("m# = ?", n), mk(n, 0)...) }},
	{"Where(w)", nil, func(s *stmt, n int) { s.Where(t("m#", n)) }},
	{"In(2)", func(s *stmt, last string) bool { return last == "Where(w)" }, func(s *stmt, n int) { s.In(mk(n-1, 0, 1)...) }},
	{"SubQuery", cur("where", "set"), func(s *stmt, n int) { s.Sub("x IN (", ")", sub(curD, n, n%2 == 1)) }},
	{"Clause(arg)", nil, func(s *stmt, n int) { s.Clause(t("RAW m#=?", n), mk(n, 0)...) }},
	{"Expr(arg)", func(s *stmt, last string) bool { return listable(s) }, func(s *stmt, n int) { s.Expr(t("m#=?", n), mk(n, 0)...) }},
	{"Returning", nil, func(s *stmt, n int) { s.Returning(t("r#", n)) }},
	{"With", nil, func(s *stmt, n int) { s.With(t("cte#", n), sub(curD, n, false)) }},
	{"Limit", nil, func(s *stmt, n int) { s.Limit(t("limit:#", n)) }},
}

var insertOps = []op{
	{"Set", func(s *stmt, last string) bool { return len(s.m.rows) < 2 }, func(s *stmt, n int) { s.SetExpr(t("c#", n), t("m#+?", n), mk(n, 0)...) }},
	{"SetExpr(2)", func(s *stmt, last string) bool { return len(s.m.rows) < 2 }, func(s *stmt, n int) { s.SetExpr(t("c#", n), t("m#+?*?", n), mk(n, 0, 1)...) }},
	{"SetExpr", func(s *stmt, last string) bool { return len(s.m.rows) < 2 }, func(s *stmt, n int) { s.SetExpr(t("c#", n), "now()") }},
	{"NewRow chained", nil, func(s *stmt, n int) {
		r := s.NewRow()
		r.setExpr(t("c#", n), t("m#+?", n), true, mk(n, 0)...)
		r.setExpr(t("d#", n), t("m#+?", n+100), true, mk(n+100, 0)...)
	}},
	{"NewRow by columns", nil, func(s *stmt, n int) {
		r := s.NewRow()
		for k := 0; k < 3; k++ {
			r.setExpr(t("c#", n+100*k), t("m#+?", n+100*k), false, mk(n+100*k, 0)...)
		}
	}},
	{"NewRow mixed", nil, func(s *stmt, n int) {
		r := s.NewRow()
		r.setExpr(t("c#", n), "DEFAULT", true)
		r.setExpr(t("d#", n), t("m#+?*?", n+100), true, mk(n+100, 0, 1)...)
		r.setExpr(t("e#", n), "now()", n%2 == 0)
		r.setExpr(t("f#", n), t("m#+?", n+200), true, mk(n+200, 0)...)
		r.setExpr(t("g#", n), "NULL", true)
	}},
	{"Expr(field)", cur("fields"), func(s *stmt, n int) { s.Expr(t("x#", n)) }},
	{"Returning", nil, func(s *stmt, n int) { s.Returning(t("r#", n)) }},
	{"Clause", nil, func(s *stmt, n int) { s.Clause(t("ON CONFLICT (k#) DO UPDATE SET", n)) }},
	{"Expr(arg)", func(s *stmt, last string) bool { return listable(s) }, func(s *stmt, n int) { s.Expr(t("m#=?", n), mk(n, 0)...) }},
	{"With", nil, func(s *stmt, n int) { s.With(t("cte#", n), sub(curD, n, n%2 == 0)) }},
	{"Where(w,arg)", nil, func(s *stmt, n int) { s.Where(t("m# = ?", n), mk(n, 0)...) }},
}

type family struct {
	name  string
	start []func(d xsql.SQLDialect) *stmt
	ops   []op
}

var families = []family{
	{"select", []func(d xsql.SQLDialect) *stmt{
		func(d xsql.SQLDialect) *stmt { return starter(d, "from", "t0") },
		func(d xsql.SQLDialect) *stmt { return starter(d, "select", "m0+?", "m0.0") },
		func(d xsql.SQLDialect) *stmt { return starter(d, "delete", "t0") },
		func(d xsql.SQLDialect) *stmt {
			s := &stmt{m: &model{}}
			o := sub(d, 500, false)
			s.m.at("with")
			s.m.sub("c0 AS (", ")", o.m)
			s.q = d.With("c0", o.q)
			return s
		},
		func(d xsql.SQLDialect) *stmt { return starter(d, "new", "EXPLAIN") },
	}, selectOps},
	{"update", []func(d xsql.SQLDialect) *stmt{func(d xsql.SQLDialect) *stmt { return starter(d, "update", "t0") }}, updateOps},
	{"insert", []func(d xsql.SQLDialect) *stmt{func(d xsql.SQLDialect) *stmt { return starter(d, "insert", "t0") }}, insertOps},
}

// program picks a sequence of at most depth operations.
func program(c *mc.C, f *family, depth int) (start int, seq []int) {
	start = c.Pick(len(f.start))
	curD = xsql.NoDialect
	m := f.start[start](xsql.NoDialect)
	last := ""
	if start >= 2 && depth > 4 {
		// statements that differ from the first two in their first word only
		depth--
	}
	for n := 1; n <= depth; n++ {
		k := c.Pick(len(f.ops) + 1)
		if k == 0 {
			break
		}
		o := f.ops[k-1]
		if o.ok != nil && !o.ok(m, last) {
			c.Stop()
		}
		o.do(m, n)
		last = o.name
		seq = append(seq, k-1)
	}
	return
}

func (f *family) build(c *mc.C, d dialect, start int, seq []int, each func(s *stmt, step int)) *stmt {
	curD = d.d
	s := f.start[start](d.d)
	for i, k := range seq {
		f.ops[k].do(s, i+1)
		if each != nil {
			each(s, i)
		}
	}
	return s
}

func describe(f *family, start int, seq []int) string {
	l := []string{f.name, fmt.Sprint("start", start)}
	for _, k := range seq {
		l = append(l, f.ops[k].name)
	}
	return strings.Join(l, " ")
}

var tok = regexp.MustCompile(`\$\d+|\\\?|\?|\bm\d+\b|LIMIT|OFFSET|'[^']*'`)

// aligned checks, from the text alone, that every placeholder has the argument given with it:
// the k-th placeholder after a marker mN has the argument "mN.k".
func aligned(sql string, args []any, pg bool, escapes int) string {
	marker, k, n, esc := "", 0, 0, 0
	seen := map[string]bool{}
	for _, w := range tok.FindAllString(sql, -1) {
		switch {
		case w[0] == '\'':
		case w[0] == 'm':
			marker, k = w, 0
		case w == "LIMIT" || w == "OFFSET":
			marker, k = strings.ToLower(w), 0
		case w == "\\?":
			esc++
		case w == "?" && pg:
			esc++
		default:
			if pg {
				if want := fmt.Sprintf("$%d", n+1); w != want {
					return fmt.Sprintf("placeholder %d is %s", n+1, w)
				}
			}
			if n >= len(args) {
				return fmt.Sprintf("%d placeholders and more, %d arguments", n+1, len(args))
			}
			a := fmt.Sprint(args[n])
			want := fmt.Sprintf("%s.%d", marker, k)
			if marker == "limit" || marker == "offset" {
				if k > 0 || !(strings.HasPrefix(a, marker+":") || a[0] >= '0' && a[0] <= '9') {
					return fmt.Sprintf("argument of %s is %s", marker, a)
				}
			} else if a != want {
				return fmt.Sprintf("argument at placeholder %d, after %s, is %s instead of %s", n+1, marker, a, want)
			}
			if marker != "limit" && marker != "offset" && seen[a] {
				return "argument used twice: " + a
			}
			seen[a] = true
			k++
			n++
		}
	}
	if n != len(args) {
		return fmt.Sprintf("%d placeholders, %d arguments", n, len(args))
	}
	if esc != escapes {
		return fmt.Sprintf("%d literal question marks, %d expected", esc, escapes)
	}
	return ""
}

func s01(r *mc.Run) {
	depth := mc.Q(r, 4, 5)
	r.Rule("every sequence of builder calls up to the depth over SELECT, DELETE, EXPLAIN, WITH, UPDATE and bulk INSERT statements, in the numbered and the unnumbered dialect; every argument carries the name of the marker its placeholder stands after in the fragment, so the text alone tells which argument each placeholder must have; every fragment of up to 4 (thorough 6) tokens of placeholder, escaped question mark, backslash, letters and blanks at every place a fragment can stand; and numbers of arguments up to 2100 gathered in eight ways")
	r.Extra("depth", depth)
	for fi := range families {
		f := &families[fi]
		dp := depth
		if f.name == "insert" {
			dp++
		}
		r.Explore(mc.Opt{Part: f.name, Procs: true}, func(c *mc.C) {
			fresh()
			start, seq := program(c, f, dp)
			c.Log("%s", describe(f, start, seq))
			for _, d := range dialects {
				fresh()
				s := f.build(c, d, start, seq, nil)
				c.Step()
				sql := s.q.String()
				t, _ := s.m.render()
				esc := strings.Count(t, "\\?")
				if bad := aligned(sql, s.q.Args(), d.pg, esc); bad != "" {
					c.Fail("arguments", "%s: %q %v: %s", d.name, sql, s.q.Args(), bad)
				}
				if d.pg {
					if strings.Contains(sql, "\\?") {
						c.Fail("escape left", "%q", sql)
					}
					c.Run().Outcome(sql)
				} else if strings.Contains(sql, "$1") {
					c.Fail("numbered in "+d.name, "%q", sql)
				}
				c.Run().State(d.name + sql)
			}
		})
	}
	fragments(r, mc.Q(r, 4, 6))
	many(r)
}

// manyCalls repeats calls often.
func manyCalls(r *mc.Run) {
	var often, lengths []int
	for _, n := range mc.Sizes(mc.Q(r, 1030, 5001)) {
		if n > 6 {
			often = append(often, n)
		}
	}
	for _, n := range mc.Sizes(mc.Q(r, 70000, 1100000)) {
		lengths = append(lengths, n)
	}
	r.Explore(mc.Opt{Part: "many calls", Procs: true}, func(c *mc.C) {
		fresh()
		f := &families[c.Pick(len(families))]
		start := c.Pick(len(f.start))
		k := &f.ops[c.Pick(len(f.ops))]
		n := often[len(often)-1-c.Pick(len(often))]
		var j *op
		if n <= mc.Q(r, 17, 70) {
			j = &f.ops[c.Pick(len(f.ops))]
		}
		alternate := j != nil && c.Flag()
		d := dialects[c.Pick(2)]
		curD = d.d
		s := f.start[start](d.d)
		last, i := "", 0
		do := func(o *op) bool {
			i++
			if o.ok != nil && !o.ok(s, last) {
				return false
			}
			o.do(s, i)
			last = o.name
			return true
		}
		for l := 0; l < n; l++ {
			did := do(k)
			if alternate {
				did = do(j) || did
			}
			if !did {
				break
			}
		}
		if j != nil {
			do(j)
			do(k)
		}
		if i < 5 {
			c.Stop()
		}
		c.Step()
		c.Log("%s start %d, %d times %s in %s", f.name, start, n, k.name, d.name)
		if j != nil {
			c.Log("and %s, alternating %v", j.name, alternate)
		}
		if bad := s.check(d.pg); bad != "" {
			c.Fail("many calls", "%s", mc.Short(bad))
		}
		c.Run().State(s.q.String())
	})
	r.Explore(mc.Opt{Part: "long fragments", Procs: true}, func(c *mc.C) {
		fresh()
		way := c.Pick(13)
		n := lengths[len(lengths)-1-c.Pick(len(lengths))]
		d := dialects[c.Pick(2)]
		curD = d.d
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "a%d+", i)
		}
		long := "x" + b.String()[:n] + "z"
		s := starter(d.d, "from", "t0")
		switch way {
		case 0:
			s.Where(long)
		case 1:
			s.Where(long+"=?", 1)
		case 2:
			s.Where("?="+long, 1).Where("y=?", 2)
		case 3:
			s.Select(long).Select("b")
		case 4:
			s.Join(0, long, "a=b").Where("y=?", 2)
		case 5:
			s.Join(1, "j", long).Where("y=?", 2)
		case 6:
			s.GroupBy(long).Having(long+">?", 2).OrderBy(long, "b").Limit(1)
		case 7:
			s.Clause(long+" ?", 1).Expr(long+" ?", 2)
		case 8:
			s.Where("y").Sub(long+"=(", ")", starter(d.d, "from", long).Where("w=?", 1)).Where("y=?", 2)
		case 9:
			s.Where("y").Union(true, starter(d.d, "from", long).Where("w=?", 1)).With(long, starter(d.d, "from", "u").Where("w=?", 3))
		case 10:
			s = starter(d.d, "insert", long).Set(long, 1).Set("b", long).Returning(long)
		case 11:
			s = starter(d.d, "update", "t").SetExpr("a", long+"+?", 1).Set(long, 2).Where("y=?", long)
		case 12:
			s = starter(d.d, "delete", long).Where("y=?", long)
		}
		c.Step()
		c.Log("%d bytes, way %d, %s", n, way, d.name)
		if bad := s.check(d.pg); bad != "" {
			c.Fail("long fragments", "%s", mc.Short(bad))
			return
		}
		cl := s.Clone()
		cl.Where("more=?", 9)
		s.q.Close()
		if bad := cl.check(d.pg); bad != "" {
			c.Fail("long fragments", "clone: %s", mc.Short(bad))
		}
		c.Run().State(fmt.Sprint(n, way, d.name))
	})
}

func s02(r *mc.Run) {
	depth := mc.Q(r, 4, 5)
	r.Rule("every sequence of builder calls up to the depth, the statement rendered after every call (and, in the other dialects and without line breaks, only at the end), compared with a model that keeps named clauses in SQL order")
	r.Extra("depth", depth)
	for fi := range families {
		f := &families[fi]
		dp := depth
		if f.name == "insert" {
			dp++
		}
		r.Explore(mc.Opt{Part: f.name, Procs: true}, func(c *mc.C) {
			fresh()
			start, seq := program(c, f, dp)
			c.Log("%s", describe(f, start, seq))
			fresh()
			f.build(c, dialects[0], start, seq, func(s *stmt, i int) {
				c.Step()
				if bad := s.check(false); bad != "" {
					c.Fail("after each call", "after %s: %s", describe(f, start, seq[:i+1]), bad)
				}
			})
			fresh()
			for _, d := range dialects[1:] {
				d.d.UseNewLines(false)
				s := f.build(c, d, start, seq, nil)
				c.Step()
				if bad := s.check(d.pg); bad != "" {
					c.Fail("at the end", "%s: %s", d.name, bad)
				}
				c.Run().State(d.name + s.q.String())
				c.Run().Outcome(norm(s.q.String()))
			}
		})
	}
	// many raw clauses, then every ordinary one
	r.Explore(mc.Opt{Part: "raw clauses", Procs: true}, func(c *mc.C) {
		fresh()
		f := &families[c.Pick(len(families))]
		start := c.Pick(len(f.start))
		n := []int{1, 2, 9, 10, 11, 19, 20, 21, 40}[c.Pick(9)]
		d := dialects[c.Pick(2)]
		curD = d.d
		s := f.start[start](d.d)
		for i := 0; i < n; i++ {
			s.Clause(fmt.Sprintf("RAW m%d=?", 3000+i), fmt.Sprintf("m%d.0", 3000+i))
		}
		c.Log("%s start %d, %d raw clauses", f.name, start, n)
		for i := 0; i < 2; i++ {
			k := c.Pick(len(f.ops))
			if o := f.ops[k]; o.ok == nil || o.ok(s, "") {
				o.do(s, i+1)
				c.Log("%s", o.name)
			}
		}
		c.Step()
		if bad := s.check(d.pg); bad != "" {
			c.Fail("raw clauses", "%s", bad)
		}
		c.Run().State(s.q.String())
	})
	manyCalls(r)
	byDefault(r)
	// Bind, targets and Paginate
	type Inner struct {
		A int    `db:"a"`
		B string `db:"b,int8,null"`
		X int
	}
	type rec struct {
		ID int `db:"id"`
		Inner
		C float64 `db:"c"`
	}
	r.Explore(mc.Opt{Part: "targets", Procs: true}, func(c *mc.C) {
		fresh()
		var x, y, z int
		var rc rec
		s := starter(xsql.NoDialect, "from", "t0")
		for n := 0; n < 4; n++ {
			switch c.Pick(7) {
			case 0:
				n = 9
			case 1:
				s.Select(t("s#", n)).To(&x)
			case 2:
				s.Select(t("s#, r#", n)).To(&y, &z)
			case 3:
				s.q.Bind(&rc)
				for _, f := range []struct {
					n string
					p any
				}{{"id", &rc.ID}, {"a", &rc.A}, {"b", &rc.B}, {"c", &rc.C}} {
					s.m.add("select", "", f.n, nil)
					s.m.dest = append(s.m.dest, f.p)
				}
			case 4:
				s.Returning(t("r#", n)).To(&y)
			case 5:
				s.To()
			case 6:
				s.Paginate(n-1, 3-n)
			}
			c.Step()
			if bad := s.check(false); bad != "" {
				c.Fail("targets", "%s", bad)
			}
		}
		c.Run().State(s.q.String())
		c.Run().Outcome(fmt.Sprint(len(s.q.Dest())))
	})
}

// ofPackage starts statements with the functions of the package, in the default dialect.
type ofPackage struct{ xsql.SQLDialect }

func (ofPackage) New(v string, a ...any) xsql.Builder        { return xsql.New(v, a...) }
func (ofPackage) From(e string, a ...any) xsql.Builder       { return xsql.From(e, a...) }
func (ofPackage) Select(e string, a ...any) xsql.Builder     { return xsql.Select(e, a...) }
func (ofPackage) With(n string, q xsql.Builder) xsql.Builder { return xsql.With(n, q) }
func (ofPackage) Update(t string) xsql.Builder               { return xsql.Update(t) }
func (ofPackage) InsertInto(t string) xsql.Builder           { return xsql.InsertInto(t) }
func (ofPackage) DeleteFrom(t string) xsql.Builder           { return xsql.DeleteFrom(t) }

// byDefault: statements started by the functions of the package are in the dialect that was the default
// when they were started, whatever becomes the default afterwards.
func byDefault(r *mc.Run) {
	r.Explore(mc.Opt{Part: "default dialect", Procs: true}, func(c *mc.C) {
		fresh()
		defer fresh()
		f := &families[c.Pick(len(families))]
		start := c.Pick(len(f.start))
		d := dialects[0]
		set := func(what string) {
			k := c.Pick(len(dialects) + 1)
			if k == 0 {
				c.Log("%s", what)
				return
			}
			d = dialects[k-1]
			xsql.SetDialect(d.d)
			c.Log("SetDialect(%s); %s", d.name, what)
		}
		set("first")
		set(fmt.Sprint(f.name, " start ", start))
		lines := c.Flag()
		at := c.Flag()
		if !at {
			xsql.UseNewLines(lines)
		}
		curD = ofPackage{}
		in := d
		s := f.start[start](ofPackage{})
		for i, n := 0, mc.Q(r, 2, 3); i < n; i++ {
			k := c.Pick(len(f.ops) + 1)
			if k == len(f.ops) {
				break
			}
			o := f.ops[k]
			if o.ok != nil && !o.ok(s, "") {
				c.Stop()
			}
			o.do(s, i+1)
			c.Log("%s", o.name)
			if i == 0 {
				was := d
				set("")
				if at && was.d == d.d {
					xsql.UseNewLines(lines)
				}
			}
		}
		c.Step()
		if bad := s.check(in.pg); bad != "" {
			c.Fail("default dialect", "%s", bad)
		}
		if !at && !lines && d.d == in.d && strings.Contains(s.q.String(), "\n") {
			c.Fail("lines", "%q", s.q.String())
		}
		c.Run().State(s.q.String())
	})
}
