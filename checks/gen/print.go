package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

// printed is a catalogue for the commands that print.
type printed struct {
	tables, views schema.Tables
	keys          schema.ForeignKeys
}

// pickTable makes a table; its size and what it has are chosen.
func pickTable(c *mc.C, sch, name string, view bool, cols, idx int) *schema.Table {
	t := &schema.Table{Schema: sch, Name: name, Type: map[bool]string{true: "VIEW", false: "BASE TABLE"}[view], IsView: view, SchemaName: sch + "." + name}
	names := []string{"id", "Ünïcode", "a_very_long_name_of_a_column_that_does_not_fit_into_the_usual_width_of_a_terminal_window"}
	types := [][2]string{{"bigint", "int8"}, {"character varying", "varchar"}, {"timestamp without time zone", "timestamp"}}
	for i := 0; i < cols; i++ {
		k := &schema.Column{Name: names[i], Type: types[i][0], UdtType: types[i][1], Nullable: i == 1, MaxLength: []uint32{0, 64, 1<<32 - 1}[i], Position: uint32(i + 1), SchemaName: t.SchemaName + "." + names[i]}
		t.Columns = append(t.Columns, k)
		if i == 1 {
			k.Ref = &schema.ForeignKey{Name: "fk", Schema: sch, Table: name, Column: k.Name, RefSchema: "s2", RefTable: "other", RefColumn: "oid", SchemaName: k.SchemaName}
		}
	}
	for i := 0; i < idx; i++ {
		n := i + 1
		if n > cols {
			n = cols
		}
		x := &schema.Index{Name: fmt.Sprintf("idx%d_%s", i, name), IsPrimary: i == 0, IsUnique: i < 2, ColumnNames: t.Columns[:n].Names(), SchemaName: t.SchemaName + fmt.Sprintf(".idx%d_%s", i, name)}
		t.Indexes = append(t.Indexes, x)
		for _, k := range t.Columns[:n] {
			k.Indexes = append(k.Indexes, x)
		}
		if i == 0 && cols > 0 {
			t.PrimaryKey = t.Columns[0]
		}
	}
	return t
}

// plain is what JSON and YAML keep of the tables.
func plain(l schema.Tables) (r schema.Tables) {
	for _, t := range l {
		x := &schema.Table{Schema: t.Schema, Name: t.Name, Type: t.Type, IsView: t.IsView}
		one := func(k *schema.Column) *schema.Column {
			return &schema.Column{Name: k.Name, Type: k.Type, UdtType: k.UdtType, Nullable: k.Nullable, MaxLength: k.MaxLength, Position: k.Position}
		}
		for _, k := range t.Columns {
			x.Columns = append(x.Columns, one(k))
		}
		for _, i := range t.Indexes {
			x.Indexes = append(x.Indexes, &schema.Index{Name: i.Name, IsPrimary: i.IsPrimary, IsUnique: i.IsUnique, ColumnNames: append([]string(nil), i.ColumnNames...)})
		}
		if t.PrimaryKey != nil {
			x.PrimaryKey = one(t.PrimaryKey)
		}
		r = append(r, x)
	}
	return r
}

// same compares what was read back, with no difference between an empty list and none.
func same(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	norm := func(s string) string {
		return strings.NewReplacer(`:[]`, `:null`).Replace(s)
	}
	if len(x) <= 4 && len(y) <= 4 { // [] and null
		return reflect.ValueOf(a).Len() == reflect.ValueOf(b).Len()
	}
	return norm(string(x)) == norm(string(y))
}

// document reads the output.
func document(c *mc.C, format, out string, v any) {
	read := yaml.Unmarshal
	if format == "json" {
		read = json.Unmarshal
	}
	if err := read([]byte(out), v); err != nil {
		c.Fail("not "+format, "%v: %q", err, out)
	}
}

// cells are the rows of the tables in the output, other lines are rows of one cell; empty lines and
// borders are left out.
func cells(out string) (l [][]string) {
	for _, line := range strings.Split(out, "\n") {
		t := strings.TrimSpace(line)
		if t == "" || strings.Trim(t, "─┌┬┐├┼┤└┴┘+-=│| ") == "" && strings.ContainsAny(t, "─-=") {
			continue
		}
		if strings.HasPrefix(t, "│") || strings.HasPrefix(t, "|") {
			var row []string
			for _, x := range strings.Split(strings.Trim(strings.ReplaceAll(t, "│", "|"), "|"), "|") {
				row = append(row, strings.TrimSpace(x))
			}
			l = append(l, row)
			continue
		}
		l = append(l, []string{t})
	}
	return l
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return ""
}

func num(n uint32) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprint(n)
}

// wanted are the rows that a table is printed in; headings are left out.
func wanted(l schema.Tables) (r [][]string) {
	for _, t := range l {
		r = append(r, []string{"Schema: " + t.Schema}, []string{"Table: " + t.Name})
		for _, k := range t.Columns {
			ref := ""
			if k.Ref != nil {
				ref = k.Ref.RefSchema + "." + k.Ref.RefTable + "." + k.Ref.RefColumn
			}
			r = append(r, []string{fmt.Sprint(k.Position), k.Name, k.Type, k.UdtType, yes(k.Nullable), num(k.MaxLength), yes(len(k.Indexes) > 0), ref})
		}
		for _, x := range t.Indexes {
			r = append(r, []string{x.Name, yes(x.IsPrimary), yes(x.IsUnique), strings.Join(x.ColumnNames, ", ")})
		}
	}
	return r
}

func isHeading(row []string) bool {
	h := strings.ToUpper(strings.Join(row, "|"))
	return h == "ORD|NAME|TYPE|UDT|NULL|MAX|INDEX|REF" || h == "NAME|PRIMARY|UNIQUE|COLUMNS" || h == "NAME|SCHEMA|TABLE|COLUMN|FK SCHEMA|FK TABLE|FK COLUMN" || h == "INDEXES:"
}

func g02(r *mc.Run) {
	r.Rule("every command that prints a schema, in every format, with every choice of filters, over catalogues of up to two tables, two views and two foreign keys of every size within the bound, with an error of each request and of each write; what is printed is read back and compared with the catalogue")
	formats := []string{"json", "yaml", "table"}
	commands := func(c *mc.C, writes bool, size int) {
		cmd := c.Pick(4)
		format := formats[c.Pick(3)]
		names := 0 // asked for: all, the first, none that exists
		if !writes {
			names = c.Pick(3)
		}
		p := &fixed{name: "postgres", deps: cmd == 1}
		for i, n := 0, c.Pick(3); i < n; i++ {
			cols := c.Pick(size)
			idx := 0
			if cols > 0 {
				idx = c.Pick(size)
			}
			p.tables = append(p.tables, pickTable(c, []string{"public", "s2"}[i], []string{"users", "Org Members"}[i], false, cols, idx))
		}
		views := false
		if cmd != 3 {
			for i, n := 0, c.Pick(3); i < n; i++ {
				p.views = append(p.views, pickTable(c, []string{"public", "s2"}[i], []string{"users", "v_two"}[i], true, c.Pick(2), 0))
			}
			views = cmd == 2 || c.Pick(2) == 1
		} else {
			for i, n := 0, c.Pick(3); i < n; i++ {
				p.keys = append(p.keys, &schema.ForeignKey{Name: fmt.Sprint("fk_", i), Schema: "public", Table: "users", Column: "org_id", RefSchema: "s2", RefTable: "Org Members", RefColumn: fmt.Sprint("id", i), SchemaName: "public.users.org_id"})
			}
		}
		if cmd == 0 {
			p.deps = c.Pick(2) == 1
		}
		var list, schemas []string
		switch names {
		case 1:
			list, schemas = []string{"users"}, []string{"public"}
		case 2:
			list = []string{"none"}
		}
		fault := 0
		switch {
		case writes:
			fault = 3
		case names == 0:
			fault = c.Pick(3)
		}
		if fault == 1 {
			p.err = errors.New("the database is away")
		}
		if fault == 2 {
			p.viewsErr = errors.New("the database is away")
		}
		c.Log("command %d format %s names %v views %v: %d tables, %d views, %d keys, fault %d", cmd, format, list, views, len(p.tables), len(p.views), len(p.keys), fault)
		var run func(*cli.Cli) error
		switch cmd {
		case 0:
			k := &clischema.PrintColumnsCmd{DB: "db", Schema: schemas, Table: list, Dependencies: p.deps, Views: views}
			run = k.Run
		case 1:
			k := &clischema.PrintTablesCmd{DB: "db", Schema: schemas, Table: list, Views: views}
			run = k.Run
		case 2:
			k := &clischema.PrintViewsCmd{DB: "db", Schema: schemas, View: list}
			run = k.Run
		case 3:
			k := &clischema.PrintFKCmd{DB: "db", Schema: schemas, Table: list}
			run = k.Run
		}
		var w bytes.Buffer
		ctl := (&cli.Cli{O: format}).WithSchemaProvider(p).WithWriter(&w)
		err := run(ctl)
		c.Step()
		if fault == 3 {
			// each of the writes fails
			all := w.String()
			for n := 0; ; n++ {
				f := &full{left: n}
				e := run((&cli.Cli{O: format}).WithSchemaProvider(p).WithWriter(f))
				if err != nil || f.failed != (e != nil) {
					c.Fail("error of a write", "of write %d of %q: %v", n, all, e)
					return
				}
				if !f.failed {
					return
				}
			}
		}
		fails := fault == 1 && cmd != 2 || fault == 2 && views
		if fails != (err != nil) {
			c.Fail("error of a request", "%v", err)
			return
		}
		c.Run().Outcome(w.String())
		if fails {
			return
		}
		tables, vs := filter(p.tables, schemas, list), filter(p.views, schemas, list)
		var all schema.Tables
		switch {
		case cmd == 2:
			all = vs
		case cmd < 2:
			all = append(append(all, tables...), map[bool]schema.Tables{true: vs}[views]...)
		}
		if format != "table" && cmd < 3 {
			var got schema.Tables
			document(c, format, w.String(), &got)
			if !same(got, plain(all)) {
				c.Fail("another schema", "%s", w.String())
			}
			return
		}
		if format != "table" {
			var got schema.ForeignKeys
			document(c, format, w.String(), &got)
			var want schema.ForeignKeys
			for _, k := range p.keys {
				x := *k
				x.SchemaName = ""
				want = append(want, &x)
			}
			if !same(got, want) {
				c.Fail("other keys", "%s", w.String())
			}
			return
		}
		var want [][]string
		switch cmd {
		case 0:
			want = wanted(all)
		case 1, 2:
			for _, t := range all {
				want = append(want, []string{t.Schema + "." + t.Name})
			}
		case 3:
			for _, k := range p.keys {
				want = append(want, []string{k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn})
			}
		}
		var got [][]string
		for _, row := range cells(w.String()) {
			if !isHeading(row) {
				got = append(got, row)
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("other rows", "%q, expected %q", got, want)
		}
	}
	r.Explore(mc.Opt{Part: "attributes"}, func(c *mc.C) { attributes(c, mc.Q(r, 2, 3), 2) })
	r.Explore(mc.Opt{Part: "names"}, quoted)
	r.Explore(mc.Opt{Part: "objects"}, objects)
	r.Explore(mc.Opt{Part: "commands"}, func(c *mc.C) { commands(c, false, mc.Q(r, 3, 4)) })
	r.Explore(mc.Opt{Part: "sizes"}, func(c *mc.C) { manyPrinted(c, mc.Sizes(mc.Q(r, 130, 1030))) })
	r.Explore(mc.Opt{Part: "writes"}, func(c *mc.C) { commands(c, true, mc.Q(r, 2, 3)) })
}

// attributes prints the columns of one table: every column and index has each of its attributes or not.
func attributes(c *mc.C, cols, idx int) {
	format := []string{"table", "json", "yaml"}[c.Pick(3)]
	t := &schema.Table{Schema: "public", Name: "users", Type: "BASE TABLE", SchemaName: "public.users"}
	for i, n := 0, 1+c.Pick(cols); i < n; i++ {
		k := &schema.Column{Name: []string{"id", "org", "name"}[i], Type: []string{"bigint", "text"}[c.Pick(2)], Nullable: c.Pick(2) == 1, Position: []uint32{1, 1<<31 + 2}[c.Pick(2)] + uint32(i)}
		k.UdtType = map[string]string{"bigint": "int8", "text": ""}[k.Type]
		k.MaxLength = []uint32{0, 1, 1<<31 + 1}[c.Pick(3)]
		k.SchemaName = t.SchemaName + "." + k.Name
		if c.Pick(2) == 1 {
			k.Ref = &schema.ForeignKey{Name: "fk", Schema: "public", Table: "users", Column: k.Name, RefSchema: "public", RefTable: "users", RefColumn: "id", SchemaName: k.SchemaName}
		}
		t.Columns = append(t.Columns, k)
	}
	for i, n := 0, c.Pick(idx); i < n; i++ {
		x := &schema.Index{Name: fmt.Sprint("idx", i), IsPrimary: c.Pick(2) == 1, IsUnique: c.Pick(2) == 1, SchemaName: fmt.Sprint("public.users.idx", i)}
		set := 1 + c.Pick(1<<len(t.Columns)-1)
		for j := len(t.Columns) - 1; j >= 0; j-- {
			if set&(1<<j) != 0 {
				x.ColumnNames = append(x.ColumnNames, t.Columns[j].Name)
				t.Columns[j].Indexes = append(t.Columns[j].Indexes, x)
			}
		}
		if x.IsPrimary && len(x.ColumnNames) == 1 {
			for _, k := range t.Columns {
				if k.Name == x.ColumnNames[0] {
					t.PrimaryKey = k
				}
			}
		}
		t.Indexes = append(t.Indexes, x)
	}
	c.Log("%s: %d columns, %d indexes", format, len(t.Columns), len(t.Indexes))
	columnsOf(c, format, t)
}

func columnsOf(c *mc.C, format string, t *schema.Table) {
	var w bytes.Buffer
	k := &clischema.PrintColumnsCmd{DB: "db"}
	p := &fixed{name: "postgres", tables: schema.Tables{t}}
	if err := k.Run((&cli.Cli{O: format}).WithSchemaProvider(p).WithWriter(&w)); err != nil {
		c.Fail("error of a request", "%v", err)
		return
	}
	c.Step()
	c.Run().Outcome(w.String())
	if format != "table" {
		var got schema.Tables
		document(c, format, w.String(), &got)
		if !same(got, plain(p.tables)) {
			c.Fail("another schema", "%s", w.String())
		}
		return
	}
	var got [][]string
	for _, row := range cells(w.String()) {
		if !isHeading(row) {
			got = append(got, row)
		}
	}
	if want := wanted(p.tables); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Fail("other rows", "%q, expected %q", got, want)
	}
}

// quoted prints names that JSON and YAML have to quote.
func quoted(c *mc.C) {
	format := []string{"json", "yaml"}[c.Pick(2)]
	names := []string{"yes", "null", "~", "0x1f", "1_000", "1e3", "- a", "a: b", "a #b", "'", "\"", "\\", "{a}", "[a]", "*a", "&a", "!a", "%a", "@a", "`a", "<&>", "a\nb", "a\tb", " a ", "a\r\n", "\u2028", "\u00a0", "\U0001F600", "=", "<<", "2020-01-01", "\x7f", "\ufeffa", "|", ">", "?", "? a", "---", "..."}
	name := func() string { return names[c.Pick(len(names))] }
	t := &schema.Table{Schema: "public", Name: "users", Type: "BASE TABLE"}
	k := &schema.Column{Name: "id", Type: "bigint", Position: 1}
	x := &schema.Index{Name: "pk", ColumnNames: []string{"id"}}
	switch c.Pick(6) {
	case 0:
		t.Schema = name()
	case 1:
		t.Name = name()
	case 2:
		k.Name = name()
		x.ColumnNames = []string{k.Name, "b"}
	case 3:
		k.Type, k.UdtType = name(), name()
	case 4:
		x.Name = name()
	case 5:
		x.ColumnNames = []string{name(), name()}
	}
	t.SchemaName = t.Schema + "." + t.Name
	k.SchemaName = t.SchemaName + "." + k.Name
	x.SchemaName = t.SchemaName + "." + x.Name
	t.Columns, t.Indexes, t.PrimaryKey = schema.Columns{k}, schema.Indexes{x}, k
	k.Indexes = t.Indexes
	c.Log("%s: table %q.%q column %q %q index %q of %q", format, t.Schema, t.Name, k.Name, k.Type, x.Name, x.ColumnNames)
	columnsOf(c, format, t)
}

// objects prints values with the functions of pkg/print, as a program that uses them does.
func objects(c *mc.C) {
	format := []string{"table", "json", "yaml", ""}[c.Pick(4)]
	var v any
	var want [][]string
	t := pickTable(c, "public", []string{"users", "Org Members"}[c.Pick(2)], false, 1+c.Pick(3), c.Pick(3))
	t2 := pickTable(c, "s2", "v_two", true, c.Pick(3), 0)
	read := func(out string) bool { return true }
	doc := func(out string, v any) {
		f := format
		if f != "yaml" {
			f = "json"
		}
		document(c, f, out, v)
	}
	kind := c.Pick(6)
	switch kind {
	case 0:
		v, want = t, wanted(schema.Tables{t})
		read = func(out string) bool {
			var got schema.Table
			doc(out, &got)
			return same(schema.Tables{&got}, plain(schema.Tables{t}))
		}
	case 1:
		l := schema.Tables{t, t2}[:c.Pick(3)]
		v, want = l, wanted(l)
		read = func(out string) bool { var got schema.Tables; doc(out, &got); return same(got, plain(l)) }
	case 2:
		v = t.Indexes
		for _, x := range t.Indexes {
			want = append(want, []string{x.Name, yes(x.IsPrimary), yes(x.IsUnique), strings.Join(x.ColumnNames, ", ")})
		}
		read = func(out string) bool {
			var got schema.Indexes
			doc(out, &got)
			return same(got, plain(schema.Tables{t})[0].Indexes)
		}
	case 3:
		var l schema.ForeignKeys
		for i, n := 0, c.Pick(3); i < n; i++ {
			k := &schema.ForeignKey{Name: fmt.Sprint("fk_", i), Schema: "public", Table: "users", Column: "org_id", RefSchema: "s2", RefTable: "Org Members", RefColumn: fmt.Sprint("id", i)}
			l = append(l, k)
			want = append(want, []string{k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn})
		}
		v = l
		read = func(out string) bool { var got schema.ForeignKeys; doc(out, &got); return same(got, l) }
	case 4:
		l := t.Columns
		v = l
		read = func(out string) bool {
			var got schema.Columns
			doc(out, &got)
			return same(got, plain(schema.Tables{t})[0].Columns)
		}
	case 5:
		m := map[string][]int{"a": {1, 2}, "ü: <b>": {}}
		v = m
		read = func(out string) bool { var got map[string][]int; doc(out, &got); return same(got, m) }
	}
	c.Log("%T as %q", v, format)
	var w bytes.Buffer
	if err := print.Object(&w, format, v); err != nil {
		c.Fail("error of a request", "%v", err)
		return
	}
	c.Step()
	c.Run().Outcome(w.String())
	if format == "json" || format == "yaml" || kind > 3 {
		if !read(w.String()) {
			c.Fail("another value", "%s", w.String())
		}
	} else {
		var got [][]string
		for _, row := range cells(w.String()) {
			if !isHeading(row) {
				got = append(got, row)
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("other rows", "%q, expected %q", got, want)
		}
	}
	for n := 0; ; n++ {
		f := &full{left: n}
		e := print.Object(f, format, v)
		if f.failed != (e != nil) {
			c.Fail("error of a write", "of write %d of %q: %v", n, w.String(), e)
			return
		}
		if !f.failed {
			return
		}
	}
}

// manyPrinted prints many of one thing.
func manyPrinted(c *mc.C, sizes []int) {
	format := []string{"table", "json", "yaml"}[c.Pick(3)]
	n := sizes[c.Pick(len(sizes))]
	what := c.Pick(7)
	c.Log("%s: %d, way %d", format, n, what)
	table := func(i int, view bool) *schema.Table {
		name := fmt.Sprintf("t%04d", i)
		t := &schema.Table{Schema: "public", Name: name, Type: "BASE TABLE", IsView: view, SchemaName: "public." + name}
		t.Columns = schema.Columns{{Name: "id", Type: "bigint", UdtType: "int8", Position: 1, SchemaName: t.SchemaName + ".id"}}
		return t
	}
	t := table(0, false)
	p := &fixed{name: "postgres", tables: schema.Tables{t}}
	var w bytes.Buffer
	var err error
	ctl := (&cli.Cli{O: format}).WithSchemaProvider(p).WithWriter(&w)
	columns := func(from int) {
		for i := from; i < n; i++ {
			k := &schema.Column{Name: fmt.Sprintf("c%04d", i), Type: "character varying", UdtType: "varchar", Nullable: i%2 == 0, MaxLength: uint32(i), Position: uint32(i + 1)}
			k.SchemaName = t.SchemaName + "." + k.Name
			if i%3 == 0 {
				k.Ref = &schema.ForeignKey{RefSchema: "s2", RefTable: "other", RefColumn: fmt.Sprint("r", i)}
			}
			t.Columns = append(t.Columns, k)
		}
	}
	var all schema.Tables
	var want [][]string
	switch what {
	case 0: // columns
		columns(1)
	case 1: // indexes
		for i := 0; i < n; i++ {
			t.Indexes = append(t.Indexes, &schema.Index{Name: fmt.Sprintf("i%04d", i), IsUnique: i%2 == 0, ColumnNames: []string{"id"}})
		}
		if n > 0 {
			t.Columns[0].Indexes = t.Indexes
		}
	case 2: // columns of an index
		columns(1)
		if n > 20 {
			t.Columns = t.Columns[:20]
		}
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("c%04d", i))
		}
		t.Indexes = schema.Indexes{{Name: "idx", ColumnNames: names}}
	case 3, 4: // tables, their names
		p.tables = nil
		for i := 0; i < n; i++ {
			p.tables = append(p.tables, table(i, false))
		}
	case 5: // long names
		long := "n" + strings.Repeat("abcdefghi_", n/10+1)[:n]
		t.Columns[0].Name = long
		t.Columns[0].Type = long + "t"
		t.Columns[0].UdtType = long + "u"
		t.Name = long
		t.Indexes = schema.Indexes{{Name: long + "i", ColumnNames: []string{long}}}
		t.Columns[0].Indexes = t.Indexes
		t.Columns[0].Ref = &schema.ForeignKey{RefSchema: long, RefTable: long, RefColumn: long + "r"}
	case 6: // keys
		for i := 0; i < n; i++ {
			p.keys = append(p.keys, &schema.ForeignKey{Name: fmt.Sprintf("fk%04d", i), Schema: "public", Table: "users", Column: "org_id", RefSchema: "s2", RefTable: "orgs", RefColumn: fmt.Sprint("id", i)})
		}
	}
	all = p.tables
	switch what {
	case 4:
		p.deps = true
		k := &clischema.PrintTablesCmd{DB: "db"}
		err = k.Run(ctl)
		for _, x := range all {
			want = append(want, []string{x.Schema + "." + x.Name})
		}
	case 6:
		k := &clischema.PrintFKCmd{DB: "db"}
		err = k.Run(ctl)
		for _, k := range p.keys {
			want = append(want, []string{k.Name, k.Schema, k.Table, k.Column, k.RefSchema, k.RefTable, k.RefColumn})
		}
	default:
		k := &clischema.PrintColumnsCmd{DB: "db"}
		err = k.Run(ctl)
		want = wanted(all)
	}
	c.Step()
	c.Run().State(fmt.Sprint(format, n, what))
	c.Run().Outcome(w.String())
	if err != nil {
		c.Fail("error of a request", "%v", err)
		return
	}
	switch {
	case format != "table" && what == 6:
		var got schema.ForeignKeys
		document(c, format, w.String(), &got)
		if !same(got, p.keys) {
			c.Fail("other keys", "%d of %d", len(got), n)
		}
	case format != "table":
		var got schema.Tables
		document(c, format, w.String(), &got)
		if !same(got, plain(all)) {
			c.Fail("another schema", "%s", w.String())
		}
	default:
		var got [][]string
		for _, row := range cells(w.String()) {
			if !isHeading(row) {
				got = append(got, row)
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("other rows", "%d of %d: %q, expected %q", len(got), len(want), got, want)
		}
	}
}
