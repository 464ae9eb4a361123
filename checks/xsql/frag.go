package main

import (
	"fmt"
	"strings"

	"verif.local/vlib/mc"
)

// countArgs is the number of placeholders in a fragment: question marks that are not escaped.
func countArgs(f string) (n int) {
	for i := 0; i < len(f); i++ {
		switch {
		case f[i] == '\\' && i+1 < len(f) && f[i+1] == '?':
			i++
		case f[i] == '?':
			n++
		}
	}
	return
}

func anyArgs(p string, n int) (l []any) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(p, i))
	}
	return
}

var fragTokens = []string{"?", "\\?", "\\", "é", "a", " "}

var places = []struct {
	name string
	do   func(s *stmt, f string, a []any)
}{
	{"select", func(s *stmt, f string, a []any) { s.Select(f, a...) }},
	{"from", func(s *stmt, f string, a []any) { s.From(f, a...) }},
	{"where", func(s *stmt, f string, a []any) { s.Where(f, a...) }},
	{"having", func(s *stmt, f string, a []any) { s.Having(f, a...) }},
	{"clause", func(s *stmt, f string, a []any) { s.Clause(f, a...) }},
	{"expr", func(s *stmt, f string, a []any) { s.Select("x").Expr(f, a...) }},
	{"sub query", func(s *stmt, f string, a []any) {
		s.Where("x=?", "w").Sub("y IN (", ")", starter(curD, "from", "u").Where(f, a...).Limit("sl"))
	}},
	{"union", func(s *stmt, f string, a []any) { s.Union(true, starter(curD, "from", "u").Select(f, a...)) }},
	{"with", func(s *stmt, f string, a []any) { s.With("c", starter(curD, "from", "u").Select(f, a...)) }},
	{"set", func(s *stmt, f string, a []any) { s.SetExpr("c", f, a...) }},
}

// fragments: every fragment of the alphabet at every place, between neighbours with arguments.
func fragments(r *mc.Run, size int) {
	r.Explore(mc.Opt{Part: "fragments", Procs: true}, func(c *mc.C) {
		fresh()
		pl := c.Pick(len(places))
		var f string
		for n := 0; n < size; n++ {
			k := c.Pick(len(fragTokens) + 1)
			if k == 0 {
				break
			}
			f += fragTokens[k-1]
		}
		if strings.Trim(f, " ") == "" || strings.Trim(f, " ") != f || strings.Contains(f, "  ") {
			c.Stop()
		}
		d := dialects[c.Pick(2)]
		kind := "from"
		if places[pl].name == "set" {
			kind = []string{"update", "insert"}[c.Pick(2)]
		}
		c.Log("%s: %q in %s of %s", d.name, f, places[pl].name, kind)
		curD = d.d
		s := starter(d.d, kind, "t0")
		if kind == "from" {
			s.Where("before=?", "b")
		}
		places[pl].do(s, f, anyArgs("f", countArgs(f)))
		if kind != "insert" {
			s.Where("after=?", "c")
		}
		s.Returning("r")
		c.Step()
		if bad := s.check(d.pg); bad != "" {
			c.Fail("fragment in "+places[pl].name, "%s", bad)
		}
		c.Run().State(d.name + s.q.String())
		c.Run().Outcome(s.q.String())
	})
}

// many: numbers of arguments around the powers of ten, gathered in several ways.
func many(r *mc.Run) {
	counts := []int{0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 2100}
	r.Explore(mc.Opt{Part: "many arguments", Procs: true}, func(c *mc.C) {
		fresh()
		way := c.Pick(8)
		n := counts[c.Pick(len(counts))]
		d := dialects[c.Pick(2)]
		curD = d.d
		c.Log("%d arguments, way %d, %s", n, way, d.name)
		s := starter(d.d, "from", "t0")
		switch way {
		case 0:
			s.Where("x").In(anyArgs("i", n)...)
		case 1:
			for i := 0; i < n; i++ {
				s.Where(t("w#=?", i), i)
			}
		case 2:
			s = starter(d.d, "insert", "t0")
			for i := 0; i < n; i++ {
				r := s.NewRow()
				r.set("a", i, true)
				r.setExpr("b", "now()", true)
				r.set("c", -i, true)
			}
		case 3:
			s = starter(d.d, "update", "t0")
			for i := 0; i < n; i++ {
				s.Set(t("c#", i), i)
			}
		case 4:
			for i := 0; i < n; i++ {
				// alternating clauses: later ones first
				s.Where(t("w#=?", i), i).Select(t("s#+?", i), -i).Limit(t("limit:#", i))
			}
		case 5:
			for i := 0; i < min(n, 257); i++ {
				s.Union(i%2 == 0, starter(d.d, "from", t("u#", i)).Where("z=?", i))
			}
		case 6:
			for i := 0; i < n; i++ {
				s.Select(t("s#+?", i), i).To(new(int))
			}
		case 7:
			for i := 0; i < min(n, 257); i++ {
				s.Join(i%4, t("j#", i), "a=b").Where("x").Sub("y=(", ")", starter(d.d, "from", "u").Where("z=?", i))
			}
		}
		s.Offset("end")
		c.Step()
		if bad := s.check(d.pg); bad != "" {
			c.Fail(fmt.Sprint("many arguments, way ", way), "%d arguments: %s", n, short(bad))
		}
		c.Run().State(fmt.Sprint(d.name, way, n, len(s.q.String())))
		c.Run().Outcome(fmt.Sprint(len(s.q.Args())))
	})
}

func short(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}
