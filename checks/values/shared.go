package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
	"gopkg.in/yaml.v3"
)

// act is a use of a shared value that does not change it.
type act struct {
	name string
	do   func() string
}

func text(a ...any) string { return fmt.Sprintf("%#v", a) }

func idActs(v xdb.ID) []act {
	other := xdb.NewID(v.UInt64())
	return []act{
		{"String", func() string { return v.String() }},
		{"QuotedString", func() string { return v.QuotedString() }},
		{"UnderscoreString", func() string { return v.UnderscoreString() }},
		{"UInt64", func() string { return text(v.UInt64(), v.Valid(), v.Invalid(), v.IsZero()) }},
		{"Value", func() string { d, err := v.Value(); return text(d, err) }},
		{"JSON", func() string { b, err := json.Marshal(v); return text(string(b), err) }},
		{"YAML", func() string { b, err := yaml.Marshal(v); return text(string(b), err) }},
		{"Print", func() string { return fmt.Sprintf("%v %s", v, &v) }},
		{"List", func() string {
			l := xdb.IDArray{v}.Add(other)
			return text(l.String(), l.Contains(v), l.Overlaps(xdb.IDArray{v}))
		}},
		{"copy Set", func() string { w := v; err := w.Set("77"); return text(w.String(), err) }},
		{"copy Reset", func() string { w := v; w.Reset(); return text(w.String()) }},
		{"copy Scan", func() string { w := v; err := w.Scan(int64(78)); return text(w.String(), err) }},
		{"copy UnmarshalJSON", func() string { w := v; err := json.Unmarshal([]byte(`"79"`), &w); return text(w.String(), err) }},
	}
}

// unit is a value that two goroutines share.
type unit struct {
	name string
	make func() []act
}

func units() []unit {
	id := func(f func() xdb.ID) func() []act { return func() []act { return idActs(f()) } }
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	u := []unit{
		{"ID made", id(func() xdb.ID { return xdb.NewID(1<<63 + 5) })},
		{"ID parsed", id(func() xdb.ID { v, err := xdb.ParseID("000123"); must(err); return v })},
		{"ID scanned", id(func() (v xdb.ID) { must(v.Scan(int64(-3))); return v })},
		{"ID decoded", id(func() (v xdb.ID) { must(json.Unmarshal([]byte(`"0456"`), &v)); return v })},
		{"ID zero", id(func() xdb.ID { return xdb.ID{} })},
		{"ID reset", id(func() xdb.ID { v := xdb.NewID(9); v.Reset(); return v })},
		{"ID of YAML", id(func() (v xdb.ID) { must(yaml.Unmarshal([]byte("12"), &v)); return v })},
		{"list of IDs", func() []act {
			v := xdb.NewIDArray([]uint64{9, 3, 7})
			w := v
			return []act{
				{"String", func() string { return v.String() }},
				{"Strings", func() string { return text(v.Strings()) }},
				{"List", func() string { return text(v.List(), v.Int64Array()) }},
				{"Value", func() string { d, err := v.Value(); return text(d, err) }},
				{"JSON", func() string { b, err := json.Marshal(v); return text(string(b), err) }},
				{"Contains", func() string { return text(v.Contains(xdb.NewID(7)), v.Overlaps(w)) }},
				{"Add", func() string { return v.Add(xdb.NewID(4)).String() }},
				{"Add more", func() string { return v.Add(xdb.NewID(5)).Add(xdb.NewID(6)).String() }},
				{"Concat", func() string { return text(v.Concat(xdb.NewIDArray([]uint64{1, 2})).Contains(xdb.NewID(1))) }},
				{"Concat to", func() string {
					return text(xdb.NewIDArray([]uint64{1, 2, 3, 4}).Concat(v).Contains(xdb.NewID(9)))
				}},
				{"copy Scan", func() string { w := v; err := w.Scan([]byte("{5,4}")); return text(w.String(), err) }},
			}
		}},
		{"list of IDs with room", func() []act {
			v := make(xdb.IDArray, 0, 8).Add(xdb.NewID(3))
			b := append(make(xdb.IDArray, 0, 8), xdb.NewID(3), xdb.NewID(4))
			return []act{
				{"Add", func() string { return v.Add(xdb.NewID(4)).String() }},
				{"Add another", func() string { return v.Add(xdb.NewID(5)).String() }},
				{"Add to list", func() string { return b.Add(xdb.NewID(9)).String() }},
				{"Concat", func() string { return b.Concat(xdb.IDArray{xdb.NewID(1), xdb.NewID(2)}).String() }},
				{"Concat one", func() string { return b.Concat(xdb.IDArray{xdb.NewID(1)}).String() }},
				{"String", func() string { return v.String() + b.String() }},
			}
		}},
		{"numbers and text", func() []act {
			i, f, b, n, u := xdb.Int64(5), xdb.Float(1.5), xdb.Bool(true), xdb.NULLString("x"), xdb.UUID("A-B")
			k, t := xdb.ID32(4), xdb.Int32(6)
			return []act{
				{"String", func() string {
					return i.String() + f.String() + b.String() + n.String() + u.String() + k.String() + t.String()
				}},
				{"Value", func() string {
					a1, e1 := i.Value()
					a2, e2 := f.Value()
					a3, e3 := b.Value()
					a4, e4 := n.Value()
					a5, e5 := u.Value()
					a6, e6 := k.Value()
					a7, e7 := t.Value()
					return text(a1, a2, a3, a4, a5, a6, a7, e1, e2, e3, e4, e5, e6, e7)
				}},
				{"JSON", func() string { x, err := json.Marshal([]any{i, f, b, n, u, k, t}); return text(string(x), err) }},
			}
		}},
		{"time", func() []act {
			v := xdb.UTC(time.Unix(1700000000, 123456789))
			return []act{
				{"String", func() string { return v.String() }},
				{"UnixMilli", func() string { return text(v.UnixMilli(), v.IsZero(), v.IsNil()) }},
				{"UTC", func() string { return v.UTC().String() + v.Ptr().String() + xdb.TimePtr(v).String() }},
				{"Value", func() string { d, err := v.Value(); return text(d, err) }},
				{"JSON", func() string { b, err := json.Marshal(v); return text(string(b), err) }},
				{"Add", func() string { return v.Add(time.Hour).String() }},
				{"parse", func() string { return xdb.ParseTime(v.String()).String() }},
			}
		}},
		{"maps", func() []act {
			m := xdb.Metadata{"b": "2", "a": "1", "c": "3"}
			k := xdb.KVSet{"x": {"1", "2"}, "y": nil}
			s := xdb.Strings{"q", "r"}
			return []act{
				{"Value", func() string {
					a, e1 := m.Value()
					b, e2 := k.Value()
					c, e3 := s.Value()
					return text(a, b, c, e1, e2, e3)
				}},
				{"JSON", func() string { b, err := json.Marshal([]any{m, k, s}); return text(string(b), err) }},
				{"keys", func() string { return text(len(m.Keys()), m.OrderedKeys(), m.OrderedPairs()) }},
				{"range", func() string {
					t := ""
					m.RangeOrdered(func(k, v string) bool { t += k + v; return true })
					n := 0
					m.Range(func(k, v string) bool { n++; return true })
					return text(t, n)
				}},
				{"merge from", func() string {
					d, e := xdb.Metadata{"z": "9"}, xdb.KVSet{"x": {"7"}}
					d.Merge(m)
					e.Merge(k)
					return text(d.OrderedPairs(), len(e), e["x"])
				}},
			}
		}},
		{"errors", func() []act {
			base := errors.New("gone")
			e := xdb.NewErrorNotFound(base, "users", xdb.NewID(5))
			return []act{
				{"Error", func() string { return e.Error() }},
				{"Is", func() string { return text(xdb.IsNotFoundError(e), errors.Is(e, base)) }},
				{"wrapped", func() string { return text(xdb.IsNotFoundError(fmt.Errorf("x: %w", e))) }},
				{"check", func() string { return text(xdb.IsNotFoundError(xdb.CheckNotFoundError(e, "t", 1))) }},
			}
		}},
		{"cursor", func() []act {
			m := values.MapAny{"id": "5", "at": float64(3)}
			cur := xdb.EncodeCursor(m)
			return []act{
				{"encode", func() string { return xdb.EncodeCursor(m) }},
				{"decode", func() string { d, err := xdb.DecodeCursor(cur); return text(d["id"], d["at"], err) }},
				{"decode and change", func() string {
					d, err := xdb.DecodeCursor(cur)
					d["id"] = "x"
					return text(d["id"], err)
				}},
			}
		}},
		{"records", func() []act {
			type rec struct {
				A string
				B *int
				C []string
				D map[string]string
			}
			n := 5
			src := &rec{A: "a", B: &n, C: []string{"x"}, D: map[string]string{"k": "v"}}
			return []act{
				{"merge into empty", func() string { d := &rec{}; err := xdb.Merge(d, src); return text(d.A, *d.B, d.C, d.D, err) }},
				{"merge into set", func() string {
					m := 6
					d := &rec{A: "q", B: &m, C: []string{"z", "w"}, D: map[string]string{"l": "u"}}
					err := xdb.Merge(d, src)
					return text(d.A, err)
				}},
				{"validate", func() string { return text(xdb.Validate(src)) }},
			}
		}},
	}
	for _, d := range []struct {
		name string
		d    xsql.SQLDialect
	}{{"postgres", xsql.Postgres}, {"sqlserver", xsql.NoDialect}} {
		d := d
		u = append(u, unit{"table info " + d.name, func() []act {
			t := &schema.TableInfo{Schema: "s", Name: "t", PrimaryKey: "id", Columns: []string{"id", "a", "b"}, Indexes: []string{"pk"}, Dialect: d.d, SchemaName: "s.t"}
			nulls := map[string]bool{"a": true}
			return []act{
				{"AllColumns", func() string { return t.AllColumns() }},
				{"AliasedColumns", func() string { return t.AliasedColumns("x", nulls) + t.AliasedColumns("", nil) }},
				{"Select", func() string { return t.Select().Where("id = ?", 1).String() }},
				{"Select some", func() string { return t.Select("a", "b").String() }},
				{"SelectAliased", func() string { return t.SelectAliased("x", nulls).OrderBy("a").String() }},
				{"From", func() string { return t.From().Select("b").String() }},
				{"InsertInto", func() string { return t.InsertInto().Set("a", 1).String() }},
				{"Update", func() string { return t.Update().Set("a", 1).Where("id = ?", 2).String() }},
				{"DeleteFrom", func() string { return t.DeleteFrom().Where("id = ?", 2).String() }},
				{"JSON", func() string { b, err := json.Marshal(t); return text(string(b), err) }},
			}
		}})
	}
	return append(u, unit{"table", func() []act {
		fk := &schema.ForeignKey{Name: "fk", Schema: "s", Table: "t", Column: "a", RefSchema: "s", RefTable: "u", RefColumn: "id"}
		ix := &schema.Index{Name: "pk", IsPrimary: true, IsUnique: true, ColumnNames: []string{"id"}}
		col := &schema.Column{Name: "id", Type: "bigint", UdtType: "int8", Nullable: true, MaxLength: 8, Position: 1, Ref: fk, Indexes: schema.Indexes{ix}}
		t := &schema.Table{Schema: "s", Name: "t", Columns: schema.Columns{col}, Indexes: schema.Indexes{ix}, PrimaryKey: col}
		return []act{
			{"PrimaryKeyName", func() string { return t.PrimaryKeyName() }},
			{"Names", func() string { return text(t.Columns.Names(), t.Indexes.Names()) }},
			{"Tag", func() string { return col.Tag() }},
			{"StructString", func() string { return col.StructString() }},
			{"IsPrimary", func() string { return text(col.IsPrimary(), col.IsIndex()) }},
			{"key", func() string { return fk.ColumnSchemaName() + fk.RefColumnSchemaName() }},
			{"JSON", func() string { b, err := json.Marshal(t); return text(string(b), err) }},
		}
	}})
}

func i02(r *mc.Run) {
	r.Rule("every kind of value, made in every way, used at the same time by two goroutines, each of which does one, the other up to two, of the things that do not change it, all combinations and all interleavings within the preemption bound: no data race, and each result is the one of a single goroutine")
	us := units()
	bound := mc.Q(r, 2, 3)
	r.Extra("preemptions", bound)
	r.ExploreSched(mc.Opt{Part: "shared values", Bound: bound}, func(c *mc.C) mc.Sched {
		u := us[c.Pick(len(us))]
		shared, alone := u.make(), u.make()
		n := len(shared)
		var todo [2][]int
		todo[0], todo[1] = []int{c.Pick(n)}, []int{c.Pick(n)}
		if k := c.Pick(n + 1); k < n {
			todo[1] = append(todo[1], k)
		}
		var want, got [2][]string
		for i := range todo {
			for _, k := range todo[i] {
				want[i] = append(want[i], alone[k].do())
				c.Log("%d: %s %s", i, u.name, alone[k].name)
			}
		}
		var ths []func()
		for i := range todo {
			i := i
			ths = append(ths, func() {
				for _, k := range todo[i] {
					vsched.Point()
					got[i] = append(got[i], shared[k].do())
				}
			})
		}
		return mc.Sched{Threads: ths, After: func(c *mc.C, res vsched.Result) {
			for i := range todo {
				for j, w := range want[i] {
					if j < len(got[i]) && got[i][j] != w {
						c.Fail("result of "+u.name, "%s gave %s, alone %s", shared[todo[i][j]].name, got[i][j], w)
					}
				}
			}
			c.Run().State(fmt.Sprint(u.name, todo, res.Schedule))
		}}
	})
}
