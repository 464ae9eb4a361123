package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
)

var token = regexp.MustCompile(`[\pL\pN_.$]+|\S`)

// words is the SQL text without its white space.
func words(sql string) string { return strings.Join(token.FindAllString(sql, -1), " ") }

// holder is what the model knows about a table.
type holder struct {
	name    string
	columns []string
}

func (h holder) aliased(prefix string, nulls map[string]bool) string {
	var l []string
	for _, c := range h.columns {
		switch {
		case nulls[c]:
			l = append(l, "NULL")
		case prefix == "":
			l = append(l, c)
		default:
			l = append(l, prefix+"."+c)
		}
	}
	return strings.Join(l, ", ")
}

func c03(r *mc.Run) {
	r.Rule("every sequence of uses of a table description, up to the given length, with its columns, its name and its dialect changed in between: every statement and list names the table and the columns it has at that time, and no argument is changed; and every combination of what a column can be, for its tag")
	sets := [][]string{{}, {"id"}, {"id", "a"}, {"a", "id", "b_c"}, {"B", "b"}}
	names := []string{"s.t", "t", "Other.T2"}
	dialects := []xsql.SQLDialect{xsql.Postgres, xsql.SQLServer, xsql.NoDialect}
	nulls := []map[string]bool{nil, {}, {"id": true}, {"a": true, "id": false}, {"a": true, "B": true, "none": true}, {"id": true, "a": true, "b_c": true}}
	prefixes := []string{"", "x", "abc"}
	selected := [][]string{nil, {}, {"a"}, {"a", "id AS k"}, {"count(*)"}}
	depth := mc.Q(r, 2, 3)
	r.Extra("uses in a sequence", depth)
	r.Explore(mc.Opt{Part: "statements", Procs: true}, func(c *mc.C) {
		d := c.Pick(len(dialects))
		t := &schema.TableInfo{Schema: "s", Name: "t", PrimaryKey: "id", Columns: append([]string{}, sets[2]...), Dialect: dialects[d], SchemaName: names[0]}
		h := holder{names[0], sets[2]}
		var open []func()
		for i := 0; i < depth; i++ {
			if i > 0 && c.Flag() {
				switch c.Pick(3) {
				case 0:
					h.columns = sets[c.Pick(len(sets))]
					t.Columns = append([]string{}, h.columns...)
				case 1:
					h.name = names[1+c.Pick(len(names)-1)]
					t.SchemaName = h.name
				case 2:
					d = (d + 1) % len(dialects)
					t.Dialect = dialects[d]
				}
				c.Log("now %v %v dialect %d", h.name, h.columns, d)
			}
			mark := func(n int) string {
				if dialects[d] == xsql.Postgres {
					return fmt.Sprint("$", n)
				}
				return "?"
			}
			var b xsql.Builder
			want, what := "", ""
			var args []any
			switch op := c.Pick(9); op {
			case 0:
				want, what = strings.Join(h.columns, ", "), "AllColumns"
				if got := t.AllColumns(); got != want {
					c.Fail(what, "%q, expected %q", got, want)
				}
			case 1:
				p, n := prefixes[c.Pick(len(prefixes))], nulls[c.Pick(len(nulls))]
				want, what = h.aliased(p, n), fmt.Sprintf("AliasedColumns(%q, %v)", p, n)
				before := fmt.Sprint(n)
				if got := t.AliasedColumns(p, n); got != want {
					c.Fail("AliasedColumns", "%s: %q, expected %q", what, got, want)
				}
				if fmt.Sprint(n) != before {
					c.Fail("argument changed", "%s: %v", what, n)
				}
			case 2:
				cols := append([]string(nil), selected[c.Pick(len(selected))]...)
				before := fmt.Sprint(cols)
				b, what = t.Select(cols...), fmt.Sprintf("Select(%q)", cols)
				l := strings.Join(cols, ",")
				if len(cols) == 0 {
					l = strings.Join(h.columns, ",")
				}
				want = "SELECT " + l + " FROM " + h.name
				if fmt.Sprint(cols) != before {
					c.Fail("argument changed", "%s: %v", what, cols)
				}
			case 3:
				p, n := prefixes[c.Pick(len(prefixes))], nulls[c.Pick(len(nulls))]
				before := fmt.Sprint(n)
				b, what = t.SelectAliased(p, n), fmt.Sprintf("SelectAliased(%q, %v)", p, n)
				want = "SELECT " + h.aliased(p, n) + " FROM " + h.name + " " + p
				if fmt.Sprint(n) != before {
					c.Fail("argument changed", "%s: %v", what, n)
				}
			case 4:
				b, what, want = t.From().Select("a", 5), "From", "SELECT a FROM "+h.name
				args = []any{5}
			case 5:
				b, what, want = t.InsertInto().Set("a", 1).Set("b", "x"), "InsertInto", "INSERT INTO "+h.name+" ( a, b ) VALUES ( "+mark(1)+", "+mark(2)+" )"
				args = []any{1, "x"}
			case 6:
				b, what, want = t.Update().Set("a", 1).Where("id = ?", 2), "Update", "UPDATE "+h.name+" SET a="+mark(1)+" WHERE id = "+mark(2)
				args = []any{1, 2}
			case 7:
				b, what, want = t.DeleteFrom().Where("id = ?", 2), "DeleteFrom", "DELETE FROM "+h.name+" WHERE id = "+mark(1)
				args = []any{2}
			case 8:
				b, what = t.Select().Where("id = ?", 3).OrderBy("id"), "Select where"
				want = "SELECT " + strings.Join(h.columns, ",") + " FROM " + h.name + " WHERE id = " + mark(1) + " ORDER BY id"
				args = []any{3}
			}
			c.Step()
			c.Log("%s", what)
			if b != nil && !(len(h.columns) == 0 && strings.HasPrefix(want, "SELECT  FROM")) {
				if got := words(b.String()); got != words(want) {
					c.Fail(strings.SplitN(what, "(", 2)[0], "%s: %q, expected %q", what, got, words(want))
				}
				if fmt.Sprint(b.Args()) != fmt.Sprint(args) {
					c.Fail("arguments", "%s: %v, expected %v", what, b.Args(), args)
				}
				// some are open while others are made
				if i%2 == 0 {
					open = append(open, b.Close)
				} else {
					b.Close()
				}
			}
			if strings.Join(t.Columns, ",") != strings.Join(h.columns, ",") || t.SchemaName != h.name {
				c.Fail("description changed", "%s: %+v", what, t)
			}
			c.Run().State(fmt.Sprint(d, h, what, want))
			c.Run().Outcome(want)
		}
		for _, f := range open {
			f()
		}
	})
	sizes := mc.Sizes(mc.Q(r, 530, 2100))
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		n := sizes[c.Pick(len(sizes))]
		d := c.Pick(len(dialects))
		long := c.Pick(2) == 1
		name := func(i int) string {
			if long {
				return strings.Repeat("c", i%300+1) + fmt.Sprint("_", i)
			}
			return fmt.Sprint("c", i)
		}
		nulls := map[string]bool{}
		every := []int{1, 2, 7, 1 << 20}[c.Pick(4)]
		h := holder{name: "s.t"}
		for i := 0; i < n; i++ {
			h.columns = append(h.columns, name(i))
			if i%every == every-1 {
				nulls[name(i)] = true
			}
		}
		c.Log("%d columns, dialect %d, long names %v, every %dth null", n, d, long, every)
		t := &schema.TableInfo{Schema: "s", Name: "t", PrimaryKey: "id", Columns: append([]string{}, h.columns...), Dialect: dialects[d], SchemaName: "s.t"}
		for i := 0; i < 2; i++ {
			c.Step()
			if got, want := t.AllColumns(), strings.Join(h.columns, ", "); got != want {
				c.Fail("AllColumns", "%q, expected %q", got, want)
			}
			if got, want := t.AliasedColumns("x", nulls), h.aliased("x", nulls); got != want {
				c.Fail("AliasedColumns", "%q, expected %q", got, want)
			}
			if n == 0 {
				continue
			}
			b := t.Select()
			if got, want := words(b.String()), words("SELECT "+strings.Join(h.columns, ",")+" FROM s.t"); got != want {
				c.Fail("Select", "%q, expected %q", got, want)
			}
			b.Close()
			b = t.Select(h.columns...)
			if got, want := words(b.String()), words("SELECT "+strings.Join(h.columns, ",")+" FROM s.t"); got != want {
				c.Fail("Select", "%q, expected %q", got, want)
			}
			b.Close()
			b = t.SelectAliased("x", nulls)
			if got, want := words(b.String()), words("SELECT "+h.aliased("x", nulls)+" FROM s.t x"); got != want {
				c.Fail("SelectAliased", "%q, expected %q", got, want)
			}
			b.Close()
		}
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	r.Explore(mc.Opt{Part: "tags", Procs: true}, func(c *mc.C) {
		k := &schema.Column{Name: []string{"id", "Ünï_c", "a b"}[c.Pick(3)], Type: "character varying", UdtType: []string{"", "varchar", "_int8"}[c.Pick(3)], Nullable: c.Flag(),
			MaxLength: []uint32{0, 1, 64, 1<<32 - 1}[c.Pick(4)], Position: uint32(c.Pick(2))}
		n := c.Pick(3)
		primary := false
		for i := 0; i < n; i++ {
			p := c.Flag()
			primary = primary || p
			k.Indexes = append(k.Indexes, &schema.Index{Name: fmt.Sprint("i", i), IsPrimary: p, IsUnique: c.Flag(), ColumnNames: []string{k.Name}})
		}
		if c.Flag() {
			k.Ref = &schema.ForeignKey{Schema: "s", Table: "t", Column: k.Name, RefSchema: "r", RefTable: "u", RefColumn: "pk"}
		}
		c.Log("%+v", *k)
		c.Step()
		if k.IsIndex() != (n > 0) || k.IsPrimary() != primary {
			c.Fail("index of a column", "IsIndex %v IsPrimary %v", k.IsIndex(), k.IsPrimary())
		}
		want := k.Name + ","
		if k.UdtType != "" {
			want += k.UdtType
		} else {
			want += k.Type
		}
		if k.MaxLength > 0 {
			want += fmt.Sprint(",max:", k.MaxLength)
		}
		if k.Nullable {
			want += ",null"
		}
		if n > 0 {
			want += ",index"
		}
		if primary {
			want += ",primary"
		}
		if k.Ref != nil {
			want += ",fk:r.u.pk"
		}
		tag := reflect.StructTag(k.Tag())
		if got, ok := tag.Lookup("db"); !ok || got != want {
			c.Fail("tag of a column", "%s, expected %s", tag, want)
		}
		if got, ok := tag.Lookup("json"); !ok || got != ",omitempty" {
			c.Fail("tag of a column", "%s", tag)
		}
		c.Run().State(string(tag))
	})
}
