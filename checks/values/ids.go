package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
	"gopkg.in/yaml.v3"
)

func idText(u uint64) string {
	if u == 0 {
		return ""
	}
	return strconv.FormatUint(u, 10)
}

func checkID(c *mc.C, name string, v xdb.ID, u uint64) {
	t := idText(u)
	bad := ""
	q := ""
	us := ""
	if u != 0 {
		q = "\"" + t + "\""
		us = "_" + t
	}
	switch {
	case v.UInt64() != u:
		bad = fmt.Sprintf("UInt64 %d", v.UInt64())
	case v.Valid() != (u != 0), v.Invalid() != (u == 0), v.IsZero() != (u == 0):
		bad = "validity"
	case v.String() != t:
		bad = "String " + v.String()
	case u != 0 && v.QuotedString() != q:
		bad = "QuotedString " + v.QuotedString()
	case v.UnderscoreString() != us:
		bad = "UnderscoreString " + v.UnderscoreString()
	}
	if bad == "" {
		d, err := v.Value()
		if err != nil || (u == 0 && d != nil) || (u != 0 && d != int64(u)) {
			bad = fmt.Sprintf("Value %v %v", d, err)
		}
		b, err := v.MarshalJSON()
		if err != nil || string(b) != strconv.FormatUint(u, 10) {
			bad = fmt.Sprintf("JSON %s %v", b, err)
		}
	}
	if bad != "" {
		c.Fail("identifier variable disturbed", "%s should be %d but %s", name, u, bad)
	}
}

func i01(r *mc.Run) {
	r.Rule("every sequence of operations on three identifier variables (construct, parse, assign one to another, set, reset, scan, decode, render) against plain integers; and every sequence of operations on three identifier lists (add, concat, sort, scan, build) against sets; after each operation every variable is compared")
	depth := mc.Q(r, 4, 5)
	r.Extra("depth", depth)
	type iop struct {
		name string
		do   func(v []xdb.ID, m []uint64, i, j int)
	}
	parse := func(s string) (uint64, bool) {
		u, err := strconv.ParseUint(s, 10, 64)
		return u, err == nil && u != 0
	}
	var ops []iop
	ops = append(ops, iop{"v[i]=v[j]", func(v []xdb.ID, m []uint64, i, j int) { v[i] = v[j]; m[i] = m[j] }})
	for _, u := range []uint64{0, 5} {
		ops = append(ops, iop{fmt.Sprintf("v[i]=NewID(%d)", u), func(v []xdb.ID, m []uint64, i, j int) { v[i] = xdb.NewID(u); m[i] = u }})
	}
	for _, s := range []string{"18446744073709551615", "7", "0", "", "x", "-1", "007"} {
		ops = append(ops, iop{"v[i].Set(" + s + ")", func(v []xdb.ID, m []uint64, i, j int) {
			u, ok := parse(s)
			err := v[i].Set(s)
			if (err == nil) != ok {
				panic(fmt.Sprintf("Set(%q) error %v", s, err))
			}
			if ok {
				m[i] = u
			}
		}})
	}
	for _, t := range []string{"9223372036854775808", "1x"} {
		ops = append(ops, iop{"v[i]=MustID(" + t + ")", func(v []xdb.ID, m []uint64, i, j int) {
			u, ok := parse(t)
			defer func() {
				if p := recover(); (p == nil) != ok {
					panic(fmt.Sprintf("MustID(%q): %v", t, p))
				}
			}()
			v[i] = xdb.MustID(t)
			m[i] = u
		}})
	}
	ops = append(ops, iop{"v[i].Reset()", func(v []xdb.ID, m []uint64, i, j int) { v[i].Reset(); m[i] = 0 }})
	ops = append(ops, iop{"v[i].Scan(9)", func(v []xdb.ID, m []uint64, i, j int) { _ = v[i].Scan(int64(9)); m[i] = 9 }})
	ops = append(ops, iop{"v[i].Scan(nil)", func(v []xdb.ID, m []uint64, i, j int) { _ = v[i].Scan(nil); m[i] = 0 }})
	ops = append(ops, iop{"json v[i]=11", func(v []xdb.ID, m []uint64, i, j int) { _ = json.Unmarshal([]byte(`11`), &v[i]); m[i] = 11 }})
	ops = append(ops, iop{"json v[i]=0", func(v []xdb.ID, m []uint64, i, j int) { _ = json.Unmarshal([]byte(`"0"`), &v[i]); m[i] = 0 }})
	ops = append(ops, iop{"yaml v[i]=13", func(v []xdb.ID, m []uint64, i, j int) { _ = yaml.Unmarshal([]byte(`13`), &v[i]); m[i] = 13 }})
	ops = append(ops, iop{"v[i].String()", func(v []xdb.ID, m []uint64, i, j int) { _ = v[i].String() }})
	ops = append(ops, iop{"v[i]=ParseID(21)", func(v []xdb.ID, m []uint64, i, j int) {
		x, err := xdb.ParseID("21")
		if err != nil {
			panic(err)
		}
		v[i] = x
		m[i] = 21
	}})
	ops = append(ops, iop{"v[i]=TryParseID(bad)", func(v []xdb.ID, m []uint64, i, j int) { v[i] = xdb.TryParseID("1x"); m[i] = 0 }})
	r.Explore(mc.Opt{Part: "variables"}, func(c *mc.C) {
		v := make([]xdb.ID, 2)
		m := make([]uint64, 2)
		for n := 0; n < depth; n++ {
			k := c.Pick(len(ops) + 1)
			if k == 0 {
				break
			}
			i := c.Pick(2)
			ops[k-1].do(v, m, i, 1-i)
			c.Log("%s i=%d", ops[k-1].name, i)
			c.Step()
			// String first: it is what fills caches
			for x := range v {
				checkID(c, fmt.Sprintf("v[%d]", x), v[x], m[x])
			}
		}
		c.Run().State(fmt.Sprint(m))
		c.Run().Outcome(fmt.Sprint(m))
	})

	// lists; the values of identifiers take all 64 bits
	const high = uint64(1)<<63 + 1
	set := func(l []uint64) string {
		s := append([]uint64{}, l...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		return fmt.Sprint(s)
	}
	uniq := func(a, b []uint64) []uint64 {
		res := append([]uint64{}, a...)
		for _, x := range b {
			found := false
			for _, y := range res {
				found = found || x == y
			}
			if !found {
				res = append(res, x)
			}
		}
		return res
	}
	ld := mc.Q(r, 3, 4)
	r.Explore(mc.Opt{Part: "lists"}, func(c *mc.C) {
		v := make([]xdb.IDArray, 3)
		m := make([][]uint64, 3)
		depth := ld
		switch c.Pick(3) {
		case 1: // a list with room to grow in place, as append leaves it
			v[0] = xdb.IDArray{}.Add(xdb.NewID(7)).Add(xdb.NewID(6)).Add(xdb.NewID(5))
			m[0] = []uint64{7, 6, 5}
			c.Log("v0=[7 6 5]")
		case 2: // long lists, not in order
			for u := uint64(40); u > 20; u-- {
				m[0], m[1] = append(m[0], u), append(m[1], u*3%41+50)
			}
			v[0], v[1] = xdb.NewIDArray(m[0]), xdb.NewIDArray(m[1])
			depth--
			c.Log("v0=%v v1=%v", m[0], m[1])
		}
		pick2 := func() (int, int) { return c.Pick(3), c.Pick(3) }
		for n := 0; n < depth; n++ {
			k := c.Pick(6)
			if k == 5 {
				break
			}
			switch k {
			case 0: // add
				i, j := pick2()
				u := []uint64{1, 2, 3, high}[c.Pick(4)]
				was := v[j].List()
				v[i] = v[j].Add(xdb.NewID(u))
				m[i] = uniq(m[j], []uint64{u})
				if got := fmt.Sprint(v[i].List()); got != fmt.Sprint(uniq(was, []uint64{u})) {
					c.Fail("order of adding", "%v.Add(%d) is %s", was, u, got)
				}
				c.Log("v%d=v%d.Add(%d)", i, j, u)
			case 1:
				i, j := pick2()
				h := (j + 1) % 3
				if c.Flag() {
					h = (j + 2) % 3
				}
				v[i] = v[j].Concat(v[h])
				m[i] = uniq(m[j], m[h])
				c.Log("v%d=v%d.Concat(v%d)", i, j, h)
			case 2:
				i := c.Pick(3)
				res := v[i].Sort()
				c.Log("v%d.Sort()", i)
				if !sort.SliceIsSorted(res, func(a, b int) bool { return res[a].UInt64() < res[b].UInt64() }) {
					c.Fail("not sorted", "%v", res.List())
				}
				if set(res.List()) != set(m[i]) {
					c.Fail("sort loses", "%v expected %v", res.List(), m[i])
				}
			case 3:
				i := c.Pick(3)
				if c.Flag() {
					if c.Flag() {
						if err := v[i].Scan("{3,8,3}"); err != nil {
							panic(err)
						}
						if fmt.Sprint(v[i].List()) != "[3 8 3]" {
							c.Fail("scan", "{3,8,3} read as %v", v[i].List())
						}
						v[i] = xdb.NewIDArray(v[i].List())
						m[i] = []uint64{3, 8}
						c.Log("v%d.Scan({3,8,3}), without duplicates", i)
						break
					}
					if err := v[i].Scan([]byte("{8,3,5}")); err != nil {
						panic(err)
					}
					m[i] = []uint64{8, 3, 5}
					if fmt.Sprint(v[i].List()) != "[8 3 5]" {
						c.Fail("scan", "{8,3,5} read as %v", v[i].List())
					}
					c.Log("v%d.Scan({8,3,5})", i)
				} else {
					v[i] = xdb.NewIDArray([]uint64{high, 2, 2, 1})
					m[i] = []uint64{high, 2, 1}
					if fmt.Sprint(v[i].List()) != fmt.Sprint(m[i]) {
						c.Fail("order of adding", "NewIDArray gave %v", v[i].List())
					}
					c.Log("v%d=NewIDArray(%d,2,2,1)", i, high)
				}
			case 4:
				i := c.Pick(3)
				v[i] = xdb.IDArrayFromStrings([]string{"4", "x", "", "6", "4", "0"})
				m[i] = []uint64{4, 6}
				if fmt.Sprint(v[i].List()) != "[4 6]" {
					c.Fail("order of adding", "FromStrings gave %v", v[i].List())
				}
				c.Log("v%d=FromStrings(4,x,,6,4,0)", i)
			}
			c.Step()
			order := fmt.Sprint(v[0].List(), v[1].List(), v[2].List())
			for i := range v {
				if set(v[i].List()) != set(m[i]) {
					c.Fail("list disturbed", "v%d is %v, expected the elements %v", i, v[i].List(), m[i])
				}
				for _, u := range []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, high, high - 1} {
					in := false
					for _, y := range m[i] {
						in = in || y == u
					}
					if v[i].Contains(xdb.NewID(u)) != in {
						c.Fail("contains", "v%d=%v Contains(%d)=%v", i, m[i], u, !in)
					}
				}
				for j := range v {
					ov := false
					for _, y := range m[i] {
						for _, z := range m[j] {
							ov = ov || y == z
						}
					}
					if v[i].Overlaps(v[j]) != ov {
						c.Fail("overlaps", "%v %v", m[i], m[j])
					}
				}
				if len(v[i].Strings()) != len(m[i]) || len(v[i].Int64Array()) != len(m[i]) {
					c.Fail("lengths", "v%d", i)
				}
				ss, is, us := v[i].Strings(), v[i].Int64Array(), v[i].List()
				for k, id := range v[i] {
					if ss[k] != id.String() || is[k] != int64(id.UInt64()) || us[k] != id.UInt64() {
						c.Fail("renderings disagree", "v%d", i)
					}
				}
			}
			if o := fmt.Sprint(v[0].List(), v[1].List(), v[2].List()); o != order {
				c.Fail("asking changes a list", "%s became %s", order, o)
			}
			if c.Failed() {
				return
			}
		}
		c.Run().State(fmt.Sprint(set(m[0]), set(m[1]), set(m[2])))
		c.Run().Outcome(fmt.Sprint(v[0].List(), v[1].List(), v[2].List()))
	})
	// lists of every size, in an order that is none
	r.Explore(mc.Opt{Part: "long lists"}, func(c *mc.C) {
		sizes := mc.Sizes(mc.Q(r, 530, 2100))
		n := sizes[c.Pick(len(sizes))]
		list := make([]uint64, n)
		for i := range list {
			list[i] = uint64((i*7919)%10007)*2 + 1 + uint64(i%3)<<40
		}
		v := xdb.NewIDArray(list)
		c.Log("%d identifiers", n)
		c.Step()
		same := func(key string, got []uint64, want []uint64) {
			if fmt.Sprint(got) != fmt.Sprint(want) && len(got)+len(want) > 0 {
				c.Fail(key, "%d identifiers: %v expected %v", n, got, want)
			}
		}
		same("order of adding", v.List(), list)
		var texts []string
		for _, u := range list {
			texts = append(texts, fmt.Sprint(u))
			if !v.Contains(xdb.NewID(u)) {
				c.Fail("contains", "%d of %d identifiers is not found", u, n)
			}
			if v.Contains(xdb.NewID(u + 1)) {
				c.Fail("contains", "%d is not one of the %d identifiers", u+1, n)
			}
		}
		same("order of adding", xdb.IDArrayFromStrings(texts).List(), list)
		if got := v.String(); got != strings.Join(texts, ",") {
			c.Fail("renderings disagree", "%d identifiers as text: %s", n, got)
		}
		for k, want := range [][]uint64{list, append(list[:n:n], 2)} {
			same("order of adding", append(v[:n:n].List(), want[n:]...), want)
			w := v
			if k > 0 {
				w = v.Add(xdb.NewID(2))
			} else if n > 0 {
				w = v.Add(xdb.NewID(list[c.Pick(2)*(n-1)]))
			}
			same("order of adding", w.List(), want)
		}
		d, err := v.Value()
		var back xdb.IDArray
		if err != nil || back.Scan(d) != nil {
			c.Fail("scan", "%d identifiers: %v", n, err)
		}
		same("scan", back.List(), list)
		if len(v.Int64Array()) != n || len(xdb.Int64Array(list)) != n {
			c.Fail("lengths", "%d identifiers", n)
		}
		for k := range list {
			if v.Int64Array()[k] != int64(list[k]) || xdb.Int64Array(list)[k] != int64(list[k]) {
				c.Fail("renderings disagree", "%d of %d", k, n)
			}
			if k > 70 {
				break
			}
		}
		// another list, as long or short, that has one of them or none
		for _, m := range []int{1, 5, n} {
			other := make([]uint64, m)
			for i := range other {
				other[i] = uint64(1)<<50 + uint64((i*7919)%10007)*2
			}
			common := c.Pick(4) // none, the first, one in the middle, the last
			if n == 0 || m == 0 {
				common = 0
			}
			if common > 0 {
				other[(m-1)/2] = list[[]int{0, n / 2, n - 1}[common-1]]
			}
			w := xdb.NewIDArray(other)
			if v.Overlaps(w) != (common > 0) || w.Overlaps(v) != (common > 0) {
				c.Fail("overlaps", "%d and %d identifiers, in common: %d", n, m, common)
			}
			if set(v.Concat(w).List()) != set(uniq(list, other)) || set(w.Concat(v).List()) != set(uniq(list, other)) {
				c.Fail("concat", "%d and %d identifiers, in common: %d", n, m, common)
			}
			same("list disturbed", v.List(), list)
			same("list disturbed", w.List(), other)
			if common > 0 {
				break
			}
		}
		s := append([]uint64{}, list...)
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		same("not sorted", v.Sort().List(), s)
		c.Run().State(fmt.Sprint(n))
	})
}
