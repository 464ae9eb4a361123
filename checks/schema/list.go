package main

import (
	"context"
	"database/sql"
	"fmt"
	"strings"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/schema"
)

var dialects = []string{"postgres", "sqlserver", "mssql"}

// call is one request to the provider of a schema.
type call struct {
	what            string // tables views keys
	schemas, tables []string
	deps            bool
}

func (q call) String() string {
	return fmt.Sprintf("%s %q %q %v", q.what, q.schemas, q.tables, q.deps)
}

// lists are the arguments of calls; calls made of one use the same lists.
type lists struct{ all map[string][]string }

func (l *lists) of(names []string) []string {
	if names == nil {
		return nil
	}
	if l.all == nil {
		l.all = map[string][]string{}
	}
	k := fmt.Sprintf("%q", names)
	if l.all[k] == nil {
		// there is room to grow
		x := append(make([]string, 0, len(names)+2), names...)
		l.all[k] = x
	}
	return l.all[k]
}

// with is the call with lists of its own.
func (q call) with(l *lists) call {
	q.schemas, q.tables = l.of(q.schemas), l.of(q.tables)
	return q
}

// changed tells which of the lists are not what they were.
func (l *lists) changed() string {
	for k, x := range l.all {
		if fmt.Sprintf("%q", x) != k {
			return fmt.Sprintf("%s is %q", k, x)
		}
		for _, y := range x[:cap(x)][len(x):] {
			if y != "" {
				return fmt.Sprintf("%q after %s", y, k)
			}
		}
	}
	return ""
}

type answer struct {
	tables schema.Tables
	keys   schema.ForeignKeys
	err    error
	text   string
}

func (q call) do(ctx context.Context, p schema.Provider) (a answer) {
	switch q.what {
	case "tables":
		a.tables, a.err = p.ListTables(ctx, q.schemas, q.tables, q.deps)
	case "views":
		a.tables, a.err = p.ListViews(ctx, q.schemas, q.tables)
	default:
		a.keys, a.err = p.ListForeignKeys(ctx, q.schemas, q.tables)
	}
	a.text = a.describe()
	return a
}

func (a answer) describe() string {
	var b strings.Builder
	for _, t := range a.tables {
		b.WriteString(described(t))
		for _, c := range t.Columns {
			if c.Ref != nil {
				b.WriteString(c.Name + " refers to " + keyOf(c.Ref) + "\n")
			}
		}
	}
	for _, k := range a.keys {
		b.WriteString(keyOf(k) + "\n")
	}
	return b.String()
}

// check compares the answer with the catalogue.
func (q call) check(c *mc.C, k *catalogue, a answer) {
	if a.err != nil {
		c.Fail("listing failed", "%v: %v", q, a.err)
		return
	}
	d := ""
	switch q.what {
	case "tables":
		d = k.differs(a.tables, k.listed(q.schemas, q.tables, q.deps), q.deps, false)
	case "views":
		d = k.differs(a.tables, k.listedViews(q.schemas, q.tables), false, true)
	default:
		d = k.differsKeys(a.keys, q.schemas, q.tables)
	}
	if d != "" {
		c.Fail("listing of "+q.what, "%v: %s", q, d)
	}
	c.Run().Outcome(a.text)
}

func closed(c *mc.C, srv *fakedb.Server, db *sql.DB) {
	if _, rows, txs, _ := srv.Counts(); rows != 0 || txs != 0 || db.Stats().InUse != 0 {
		c.Fail("left open", "%d row sets, %d transactions, %d connections in use", rows, txs, db.Stats().InUse)
	}
}

func server(k *catalogue) *fakedb.Server {
	return &fakedb.Server{AnswerOp: func(o *fakedb.Op) (*fakedb.Result, error) { return k.answer(o) }}
}

func col(name string, pos int) column {
	return column{name: name, typ: "bigint", udt: "int8", null: "NO", pos: pos}
}

func c01(r *mc.Run) {
	r.Rule("every listing of tables, views and foreign keys over every small catalogue: all graphs of foreign keys over three tables of two schemas, all filters, all kinds of columns and indexes, unusual names; on the pool, a provider, a connection and a transaction; and every failure of the database at every operation")
	ctx := context.Background()
	schemas := [][]string{nil, {"s1"}, {"S2", "none"}, {"none"}}
	names := [][]string{nil, {"a"}, {"B", "a"}, {"none"}}
	where := [][2]string{{"s1", "a"}, {"s1", "b"}, {"s2", "a"}}
	r.Explore(mc.Opt{Part: "graphs", Procs: true}, func(c *mc.C) {
		k := &catalogue{reverse: c.Pick(mc.Q(r, 1, 2)) == 1}
		hidden := -1
		if r.Thorough() {
			hidden = c.Pick(4) - 1
		}
		for i, w := range where {
			t := table{schema: w[0], name: w[1], typ: "BASE TABLE", hidden: i == hidden}
			t.columns = []column{col("x", 1), col("y", 2)}
			t.indexes = []index{{"pk_" + w[1], true, true, []string{"x"}}}
			k.tables = append(k.tables, t)
			for j := 0; j < 2; j++ {
				to := c.Pick(4)
				if to == 3 {
					continue
				}
				cn := "y"
				if j == 0 && c.Flag() {
					cn = "x"
				}
				k.keys = append(k.keys, fkey{fmt.Sprint("fk", i, j), w[0], w[1], cn, where[to][0], where[to][1], "x"})
			}
		}
		q := call{"tables", schemas[c.Pick(mc.Q(r, 3, 4))], names[c.Pick(mc.Q(r, 3, 4))], c.Pick(2) == 1}
		d := "postgres"
		if r.Thorough() {
			d = dialects[c.Pick(2)]
		}
		c.Log("%v %s keys %v", q, d, k.keys)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		a := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, a)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	nulls := []string{"YES", "NO", "yes", "no"}
	r.Explore(mc.Opt{Part: "columns and indexes", Procs: true}, func(c *mc.C) {
		d := dialects[c.Pick(3)]
		t := table{schema: "s1", name: "a", typ: []string{"BASE TABLE", "FOREIGN", "USER_TABLE"}[c.Pick(3)]}
		n := c.Pick(mc.Q(r, 3, 4))
		perm := c.Pick(6)
		order := [][]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}[perm]
		for i := 0; i < n; i++ {
			x := col(string(rune('x'+i)), order[i]*7)
			switch c.Pick(5) {
			case 1:
				x.null = nulls[0]
			case 2:
				x.null, x.max = nulls[2], int64(32)
			case 3:
				x.typ, x.udt, x.max, x.null = "character varying", "varchar", int64(1<<31-1), nulls[3]
				if d != "postgres" {
					x.max = int64(-1)
				}
			case 4:
				x.typ, x.udt, x.pos = "ARRAY", "_int8", x.pos+1000
			}
			t.columns = append(t.columns, x)
		}
		sets := [][]string{{"x"}, {"y"}, {"x", "y"}, {"z", "x"}, {"unseen"}, {"unseen", "y"}}
		ni := c.Pick(3)
		primary := false
		for i := 0; i < ni; i++ {
			x := index{name: fmt.Sprint("i", i), columns: sets[c.Pick(len(sets))]}
			switch c.Pick(3) {
			case 1:
				x.uni = true
			case 2:
				x.uni, x.primary = true, !primary
				primary = true
			}
			t.indexes = append(t.indexes, x)
		}
		k := &catalogue{tables: []table{t}, views: []table{t}}
		q := call{what: []string{"tables", "views"}[c.Pick(2)]}
		if q.what == "views" {
			k.views[0].indexes = nil
			if n == 0 {
				k.views = nil // a view is known by its columns
			}
		}
		c.Log("%s %s %+v", d, q.what, t)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		a := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, a)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	unusual := []string{"plain", "it's", "''", "a;b", "Ünï", "UPPER", "per%cent", "with space", "back\\slash", "$1", "?", "\"quoted\"", "line\nbreak"}
	r.Explore(mc.Opt{Part: "names", Procs: true}, func(c *mc.C) {
		d := dialects[c.Pick(3)]
		pick := func() string { return unusual[c.Pick(len(unusual))] }
		s, t, cn, deps := pick(), pick(), pick(), c.Flag()
		if !r.Thorough() {
			cn = unusual[2]
		}
		other := table{schema: "other", name: "o", typ: "T", columns: []column{col("id", 1)}}
		k := &catalogue{tables: []table{
			other,
			{schema: s, name: t, typ: "BASE TABLE", columns: []column{col(cn, 1), col(t, 2)}, indexes: []index{{s, true, true, []string{cn}}}},
		}, views: []table{{schema: s, name: t, columns: []column{col(cn, 1)}}}}
		if cn == t {
			k.tables[1].columns = k.tables[1].columns[:1]
		}
		k.keys = []fkey{{t, "other", "o", "id", s, t, cn}, {s, s, t, cn, "other", "o", "id"}}
		q := call{[]string{"tables", "views", "keys"}[c.Pick(3)], nil, nil, deps}
		if c.Flag() {
			q.schemas, q.tables = []string{s}, []string{strings.ToUpper(t), "x"}
		}
		c.Log("%s %v: %q.%q column %q", d, q, s, t, cn)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		a := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, a)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	sizes := mc.Sizes(mc.Q(r, 260, 1100))
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		d := dialects[c.Pick(2)]
		n := sizes[c.Pick(len(sizes))]
		way := c.Pick(10)
		name := func(p string, i int) string { return fmt.Sprintf("%s%04d", p, i) }
		simple := func(i int) table {
			return table{schema: "s1", name: name("t", i), typ: "BASE TABLE", columns: []column{col("id", 1), col("ref", 2)}, indexes: []index{{name("pk", i), true, true, []string{"id"}}}}
		}
		k := &catalogue{tables: []table{simple(0)}}
		t := &k.tables[0]
		q := call{what: "tables"}
		switch way {
		case 0: // columns, of a table and a view
			for i := 2; i < n; i++ {
				t.columns = append(t.columns, col(name("c", i), i+1))
			}
			if c.Pick(2) == 1 {
				k.views, q.what = []table{*t}, "views"
				k.views[0].indexes = nil
			}
		case 1: // indexes
			for i := 0; i < n; i++ {
				t.indexes = append(t.indexes, index{name("i", i), false, i%2 == 0, []string{"id", "ref"}[i%2:]})
			}
		case 2: // columns of an index
			var l []string
			for i := 2; i < n; i++ {
				t.columns = append(t.columns, col(name("c", i), i+1))
				l = append(l, name("c", i))
			}
			if len(l) > 0 {
				t.indexes = append(t.indexes, index{"wide", false, true, l})
			}
		case 3: // tables, some of them asked for by name
			k.tables = nil
			for i := 0; i < n; i++ {
				k.tables = append(k.tables, simple(i))
			}
			if c.Pick(2) == 1 {
				for i := 0; i < n; i += 2 {
					q.tables = append(q.tables, name("t", i))
				}
			}
		case 4: // schemas asked for
			for i := 1; i < n; i++ {
				q.schemas = append(q.schemas, name("s", i))
			}
			q.schemas = append(q.schemas, "S1")
		case 5: // a chain of references, only the first asked for
			n = min(n, 130)
			k.tables = nil
			for i := 0; i < n+1; i++ {
				k.tables = append(k.tables, simple(i))
				if i < n {
					k.keys = append(k.keys, fkey{name("fk", i), "s1", name("t", i), "ref", "s1", name("t", i+1), "id"})
				}
			}
			q.tables, q.deps = []string{"t0000"}, true
		case 6: // many references of one table
			n = min(n, 130)
			for i := 0; i < n; i++ {
				k.tables = append(k.tables, simple(i+1))
				k.tables[0].columns = append(k.tables[0].columns, col(name("r", i), i+3))
				k.keys = append(k.keys, fkey{name("fk", i), "s1", "t0000", name("r", i), "s1", name("t", i+1), "id"})
			}
			q.tables, q.deps = []string{"t0000"}, true
		case 7: // keys
			for i := 0; i < n; i++ {
				k.keys = append(k.keys, fkey{name("fk", i), "s1", "t0000", "ref", "s1", "t0000", "id"})
			}
			q.what = []string{"keys", "tables"}[c.Pick(2)]
			q.deps = true
		case 8: // long names
			long := strings.Repeat("abcdefghi_", n/10+1)[:n] + "n"
			k.tables = []table{{schema: long, name: long, typ: "BASE TABLE", columns: []column{col(long, 1)}, indexes: []index{{long, true, true, []string{long}}}}}
			k.keys = []fkey{{long, long, long, long, long, long, long}}
			q.tables, q.deps = []string{long}, true
			q.what = []string{"keys", "tables"}[c.Pick(2)]
		case 9: // views
			for i := 0; i < n; i++ {
				v := simple(i)
				v.indexes = nil
				k.views = append(k.views, v)
			}
			q.what = "views"
		}
		c.Log("%s: %s, %d, way %d", d, q.what, n, way)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		a := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, a)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace(), q))
	})
	// names that are easily taken for one another
	alike := [][2]string{{"s", "t"}, {"s", "T"}, {"S", "t"}, {"s.t", "u"}, {"s", "t.u"}, {"s", "t "}, {"s", "t_"}, {"s", ""}}
	r.Explore(mc.Opt{Part: "names alike", Procs: true}, func(c *mc.C) {
		d := dialects[c.Pick(3)]
		i := c.Pick(len(alike))
		j := (i + 1 + c.Pick(len(alike)-1)) % len(alike)
		a, b := alike[i], alike[j]
		k := &catalogue{reverse: c.Flag()}
		hidden := c.Flag() // only reached over keys
		for n, w := range [][2]string{a, b} {
			t := table{schema: w[0], name: w[1], typ: "BASE TABLE", columns: []column{col(fmt.Sprint("x", n), 1), col(fmt.Sprint("y", n), 2), col("z", 3)}, hidden: n == 1 && hidden}
			t.indexes = []index{{"pk", true, true, []string{fmt.Sprint("x", n)}}}
			k.tables = append(k.tables, t)
			k.views = append(k.views, t)
			k.views[n].indexes = nil
		}
		o := table{schema: "o", name: "o", typ: "BASE TABLE", columns: []column{col("x0", 1), col("y0", 2), col("z", 3)}}
		k.tables = append(k.tables, o)
		switch c.Pick(7) {
		case 4: // keys of one name
			k.keys = []fkey{{"f", a[0], a[1], "z", "o", "o", "z"}, {"f", b[0], b[1], "z", "o", "o", "z"}, {"f", "o", "o", "z", b[0], b[1], "z"}}
		case 5: // a key of two columns
			k.keys = []fkey{{"f", a[0], a[1], "z", b[0], b[1], "x1"}, {"f", a[0], a[1], "y0", b[0], b[1], "z"}}
		case 6: // two keys of one column
			k.keys = []fkey{{"f", "o", "o", "z", a[0], a[1], "z"}, {"g", "o", "o", "z", b[0], b[1], "z"}}
		case 1:
			k.keys = []fkey{{"f", a[0], a[1], "y0", b[0], b[1], "x1"}}
		case 2:
			k.keys = []fkey{{"f", a[0], a[1], "y0", "o", "o", "x0"}}
		case 3:
			k.keys = []fkey{{"f", "o", "o", "x0", a[0], a[1], "x0"}, {"f", "o", "o", "y0", b[0], b[1], "x1"}}
		}
		q := call{[]string{"tables", "views", "keys"}[c.Pick(3)], nil, nil, c.Flag()}
		switch c.Pick(4) {
		case 1:
			q.schemas = []string{a[0]}
		case 2:
			q.tables = []string{b[1]}
		case 3:
			q.schemas, q.tables = []string{"o"}, []string{"o"}
		}
		c.Log("%s %v: %q and %q, keys %q", d, q, a, b, k.keys)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		ans := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, ans)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	colNames := append([]string{"x", "X", " x", "x ", "x.y", "a b", "(x)", "x DESC", "-"}, unusual...)
	r.Explore(mc.Opt{Part: "names of columns", Procs: true}, func(c *mc.C) {
		d := dialects[c.Pick(2)]
		t := table{schema: "s", name: "t", typ: "BASE TABLE"}
		i := c.Pick(len(colNames))
		j := (i + 1 + c.Pick(len(colNames)-1)) % len(colNames)
		a, b := colNames[i], colNames[j]
		t.columns = []column{col(a, 1), col(b, 2)}
		t.columns[0].null = "YES"
		t.indexes = []index{[]index{{"pk", true, true, []string{a}}, {"pk", true, true, []string{a, b}}, {a, false, true, []string{b, a}}}[c.Pick(3)], {b, false, false, []string{b}}}
		k := &catalogue{tables: []table{t, {schema: "s", name: "u", typ: "BASE TABLE", columns: []column{col(b, 1)}}}, reverse: c.Flag()}
		k.keys = []fkey{{a, "s", "t", a, "s", "u", b}}
		q := call{[]string{"tables", "keys"}[c.Pick(2)], nil, nil, true}
		c.Log("%s %v: %q and %q %v", d, q, a, b, t.indexes)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		ans := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		q.check(c, k, ans)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	r.Explore(mc.Opt{Part: "positions", Procs: true}, func(c *mc.C) {
		// every order in which the columns can come, with positions that may have gaps
		n := mc.Q(r, 5, 7)
		left := []int{1, 2, 3, 4, 5, 6, 7}[:n]
		step := []int{1, 5, 300}[c.Pick(3)]
		t := table{schema: "s", name: "t", typ: "BASE TABLE"}
		for len(left) > 0 {
			i := c.Pick(len(left))
			t.columns = append(t.columns, col(fmt.Sprint("c", 9-left[i]), left[i]*step))
			left = append(append([]int{}, left[:i]...), left[i+1:]...)
		}
		k := &catalogue{tables: []table{t}, views: []table{t}}
		q := call{what: []string{"tables", "views"}[c.Pick(2)]}
		c.Log("%v %v", q, t.columns)
		srv := server(k)
		db := srv.DB()
		defer db.Close()
		ans := q.do(ctx, schema.NewProvider(db, "postgres"))
		c.Step()
		q.check(c, k, ans)
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
	questions(r)
	bound := mc.Q(r, 1, 2)
	r.Explore(mc.Opt{Part: "failures", Procs: true, Bound: bound}, func(c *mc.C) {
		k := small()
		d := dialects[c.Pick(2)]
		qs := []call{{"tables", nil, nil, true}, {"tables", []string{"s1"}, []string{"a"}, true}, {"tables", nil, nil, false}, {"views", nil, nil, false}, {"keys", nil, nil, false}}
		q := qs[c.Pick(len(qs))]
		on := c.Pick(4)
		// one value of one row that is not what it should be
		badAt, badCol := -1, 0
		if c.Flag() {
			badAt, badCol = c.Pick(mc.Q(r, 8, 20)), c.Pick(mc.Q(r, 4, 8))
		}
		c.Log("%s %v on %d bad row %d column %d", d, q, on, badAt, badCol)
		srv := &fakedb.Server{}
		fault, closeFault, bad := false, false, false
		row := 0
		srv.AnswerOp = func(o *fakedb.Op) (*fakedb.Result, error) {
			res, err := k.answer(o)
			if err != nil {
				return nil, err
			}
			for i := range res.Rows {
				if row == badAt && badCol < len(res.Rows[i]) {
					if res.Rows[i][badCol] != nil { // NULL is right there
						c.Log("bad value in %s", kind(o.SQL))
						bad = true
						res.Rows[i][badCol] = nil
					}
				}
				row++
			}
			return res, nil
		}
		armed := false
		srv.Fault = func(o *fakedb.Op) error {
			if !armed {
				return nil
			}
			if (on == 1 || on == 2) && o.Kind == "query" {
				if _, rows, _, _ := srv.Counts(); rows > 0 {
					c.Fail("query while a result set is open", "%s", o.SQL)
				}
			}
			switch o.Kind {
			case "query", "next", "rowsclose":
				if n := c.Dev(1 + len(fakedb.Kinds)); n > 0 {
					c.Log("fault at %s row %d of %s: %v", o.Kind, o.N, kind(o.SQL), fakedb.Kinds[n-1])
					if o.Kind == "rowsclose" {
						closeFault = true
					} else {
						fault = true
					}
					return fakedb.Kinds[n-1]
				}
			}
			return nil
		}
		db := srv.DB()
		defer db.Close()
		var ex xdb.DB = db
		var conn *sql.Conn
		var tx *sql.Tx
		var err error
		switch on {
		case 1:
			conn, err = db.Conn(ctx)
			ex = conn
		case 2:
			tx, err = db.BeginTx(ctx, nil)
			ex = tx
		case 3:
			var p xdb.Provider
			if p, err = xdb.New("postgres", db, nil); err == nil {
				defer p.Close()
				ex = p
			}
		}
		if err != nil {
			panic(err)
		}
		armed = true
		mine, stop := fakedb.Mark(ctx, "given")
		defer stop()
		a := q.do(mine, schema.NewProvider(ex, d))
		armed = false
		for _, o := range srv.Recorded() {
			if o.Kind == "query" && o.Under != "given" {
				c.Fail("context", "of %s is not the one of the call", kind(o.SQL))
			}
		}
		c.Step()
		if a.err != nil && (len(a.tables) > 0 || len(a.keys) > 0) {
			c.Fail("result with an error", "%v", a.err)
		}
		switch {
		case fault || bad:
			if a.err == nil {
				c.Fail("failure not reported", "%v: %s", q, a.text)
			} else if fault && !bad && !fakedb.IsInjected(a.err) {
				c.Fail("failure lost", "%v", a.err)
			}
		case closeFault && a.err != nil: // may be reported or not
		default:
			q.check(c, k, a)
		}
		if tx != nil {
			_ = tx.Rollback()
		}
		if conn != nil {
			_ = conn.Close()
		}
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	})
}

// questions evaluates the queries themselves over the system tables of catalogues.
func questions(r *mc.Run) {
	ctx := context.Background()
	run := func(c *mc.C, d string, k *catalogue, q call) {
		open := false
		unknown := func(text, why string) { open = true }
		srv := &fakedb.Server{}
		srv.AnswerOp = k.system(d, unknown)
		db := srv.DB()
		defer db.Close()
		a := q.do(ctx, schema.NewProvider(db, d))
		c.Step()
		bare := false
		for _, v := range k.views {
			bare = bare || len(v.columns) == 0
		}
		if bare && open {
			// what a question that is not evaluated finds is not known
			return
		}
		if bare && q.what == "views" && a.err != nil {
			c.Fail("listing of a view without columns", "%v", a.err)
		} else {
			q.check(c, k, a)
		}
		closed(c, srv, db)
		c.Run().State(fmt.Sprint(c.Trace()))
	}
	asks := []call{{what: "tables"}, {what: "tables", deps: true}, {what: "views"}, {what: "keys"}, {what: "tables", schemas: []string{"s1"}, deps: true}}
	base := func(c *mc.C, d string) *catalogue {
		typ := map[string]string{"postgres": "BASE TABLE", "sqlserver": "USER_TABLE"}[d]
		k := &catalogue{reverse: c.Flag()}
		for i, w := range [][2]string{{"s1", "a"}, {"s2", "a"}, {"s1", "b"}} {
			t := table{schema: w[0], name: w[1], typ: typ}
			// the same names in another order
			for j, n := range [][]string{{"x", "y", "z"}, {"z", "x", "y"}, {"y", "z", "x"}}[i] {
				x := col(n, j+1)
				if d == "sqlserver" {
					x.udt = x.typ
				}
				x.max = []any{nil, int64(i + 1), int64(1<<31 - 1)}[j]
				if d == "sqlserver" && j == 2 {
					x.max = int64(-1)
				}
				t.columns = append(t.columns, x)
			}
			k.tables = append(k.tables, t)
		}
		return k
	}
	systems := []string{"postgres", "sqlserver"}
	// what of the queries is not known
	open := map[string]string{}
	for _, d := range systems {
		srv := &fakedb.Server{}
		srv.AnswerOp = small().system(d, func(text, why string) { open[d+" "+kind(text)] = why })
		db := srv.DB()
		for _, q := range asks {
			q.do(ctx, schema.NewProvider(db, d))
		}
		_ = db.Close()
	}
	r.Extra("questions not evaluated", open)
	r.Explore(mc.Opt{Part: "questions of indexes", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		k := base(c, d)
		sets := [][]string{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"z", "x", "y"}, {"z", "y"}}
		for i := range k.tables {
			t := &k.tables[i]
			if i == 2 && !r.Thorough() {
				break
			}
			for j, n := 0, c.Pick(3); j < n; j++ {
				// names of indexes are unique in a schema
				x := index{name: []string{"a_pk", "b_ix"}[j] + []string{"", "", "_b"}[i], columns: sets[c.Pick(len(sets))]}
				if j == 0 {
					x.primary, x.uni = true, true
				} else {
					x.uni = c.Flag()
				}
				t.indexes = append(t.indexes, x)
			}
			if d == "postgres" {
				t.parts = i == 0 && c.Flag()
			} else if n := len(t.indexes); i == 0 && n == 2 && len(t.indexes[1].columns) == 1 && c.Flag() {
				t.included = []string{"z"}
			}
		}
		q := asks[0]
		c.Log("%s %v", d, k.tables)
		run(c, d, k, q)
	})
	r.Explore(mc.Opt{Part: "questions of keys", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		k := base(c, d)
		for n, m := 0, c.Pick(mc.Q(r, 3, 4)); n < m; n++ {
			from, to := k.tables[c.Pick(3)], k.tables[c.Pick(3)]
			f := fkey{"fk", from.schema, from.name, "x", to.schema, to.name, "x"}
			if c.Flag() || d == "sqlserver" || n == 2 {
				// names of constraints are unique in a table, or in a schema
				f.name = fmt.Sprint("fk", n)
			}
			for _, g := range k.keys {
				if g.schema == f.schema && g.table == f.table && g.name == f.name {
					return
				}
			}
			switch c.Pick(4) {
			case 1:
				f.column, f.rcolumn = "y", "z"
			case 2:
				f.column = "z"
			case 3:
				k.keys = append(k.keys, f)
				f.column, f.rcolumn = "y", "z"
			}
			k.keys = append(k.keys, f)
		}
		q := asks[[]int{3, 1, 4}[c.Pick(3)]]
		c.Log("%s %v %v", d, q, k.keys)
		run(c, d, k, q)
	})
	many := mc.Sizes(mc.Q(r, 130, 260))
	r.Explore(mc.Opt{Part: "questions, sizes", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		n := many[c.Pick(len(many))]
		k := base(c, d)
		t := &k.tables[0]
		q := asks[0]
		name := func(p string, i int) string { return fmt.Sprintf("%s%03d", p, (i*7)%1000) }
		add := func(t *table, n int) {
			for i := 0; i < n; i++ {
				x := col(name("c", i), len(t.columns)+1)
				if d == "sqlserver" {
					x.udt = x.typ
				}
				t.columns = append(t.columns, x)
			}
		}
		switch way := c.Pick(5); way {
		case 0: // columns of tables and views
			add(t, n)
			v := table{schema: "s1", name: "v"}
			add(&v, n+1)
			k.views = append(k.views, v)
			q = asks[[]int{0, 2}[c.Pick(2)]]
		case 1: // indexes
			for i := 0; i < n; i++ {
				t.indexes = append(t.indexes, index{name: fmt.Sprintf("ix%03d", i), uni: i%2 == 0, columns: [][]string{{"x"}, {"y", "z"}}[i%2]})
			}
		case 2: // columns of an index
			if n > 0 {
				add(t, n)
				var l []string
				for i := n - 1; i >= 0; i-- {
					l = append(l, name("c", i))
				}
				t.indexes = append(t.indexes, index{name: "wide", uni: true, columns: l})
			}
		case 3: // keys
			for i := 0; i < n; i++ {
				f := k.tables[i%3]
				k.keys = append(k.keys, fkey{fmt.Sprint("fk", i), f.schema, f.name, []string{"x", "y"}[i%2], "s1", "b", "z"})
			}
			q = asks[[]int{1, 3}[c.Pick(2)]]
		case 4: // tables
			for i := 0; i < n; i++ {
				k.tables = append(k.tables, table{schema: "s1", name: fmt.Sprintf("t%03d", i), typ: k.tables[0].typ, columns: k.tables[0].columns})
			}
		}
		c.Log("%s %v, %d", d, q, n)
		run(c, d, k, q)
	})
	r.Explore(mc.Opt{Part: "questions of tables and views", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		k := base(c, d)
		k.tables = k.tables[:c.Pick(4)]
		if d == "postgres" {
			for i := range k.tables {
				k.tables[i].typ = []string{"BASE TABLE", "FOREIGN"}[c.Pick(2)]
			}
		} else {
			props := [][]string{nil, {"MS_Description"}, {"MS_Description of a column"}, {"MS_Description", "MS_Description of a column"}}
			for i := range k.tables {
				if i < 2 {
					k.tables[i].properties = props[c.Pick(len(props))]
				}
			}
		}
		for i, w := range [][2]string{{"s1", "a"}, {"s2", "a"}, {"s2", "b"}, {"s1", "v"}, {"s2", "v"}} {
			free := true
			for _, t := range k.tables {
				free = free && (t.schema != w[0] || t.name != w[1])
			}
			if !free || !c.Flag() {
				continue
			}
			v := table{schema: w[0], name: w[1]}
			for j := 0; j <= i%2; j++ {
				x := col([]string{"p", "q"}[j], j+1)
				if d == "sqlserver" {
					x.udt = x.typ
				}
				v.columns = append(v.columns, x)
			}
			if d == "postgres" && i == 3 && c.Flag() {
				v.columns = nil
			}
			k.views = append(k.views, v)
		}
		q := asks[[]int{0, 1, 2, 3}[c.Pick(4)]]
		c.Log("%s %v tables %v views %v", d, q, k.tables, k.views)
		run(c, d, k, q)
	})
}

// small is a catalogue with something of everything.
func small() *catalogue {
	return &catalogue{
		tables: []table{
			{schema: "s1", name: "a", typ: "BASE TABLE", columns: []column{col("id", 1), col("b_id", 2)}, indexes: []index{{"pk_a", true, true, []string{"id"}}, {"ix", false, false, []string{"b_id", "id"}}}},
			{schema: "s1", name: "b", typ: "BASE TABLE", columns: []column{col("id", 1)}, indexes: []index{{"pk_b", true, true, []string{"id"}}}},
			{schema: "s2", name: "a", typ: "FOREIGN", columns: []column{col("id", 1)}},
		},
		views: []table{{schema: "s1", name: "v", columns: []column{col("id", 1), col("n", 2)}}, {schema: "s2", name: "a", columns: []column{col("id", 1)}}},
		keys:  []fkey{{"fk", "s1", "a", "b_id", "s1", "b", "id"}, {"fk2", "s2", "a", "id", "s1", "a", "id"}},
	}
}

// versions of the small catalogue.
var versions = []func(k *catalogue){
	func(k *catalogue) {},
	func(k *catalogue) { // other columns, indexes and no keys
		k.tables[0].columns = []column{col("b_id", 1), col("more", 3)}
		k.tables[0].indexes = []index{{"pk_a", true, true, []string{"b_id"}}}
		k.tables[2].typ = "BASE TABLE"
		k.keys = nil
		k.views = k.views[1:]
	},
	func(k *catalogue) { // other keys, a table less
		k.keys = []fkey{{"fk", "s1", "a", "b_id", "s2", "a", "id"}, {"fk3", "s2", "a", "id", "s2", "a", "id"}}
		k.tables = []table{k.tables[0], k.tables[2]}
		k.views[0].columns = k.views[0].columns[:1]
	},
}

func c02(r *mc.Run) {
	r.Rule("every sequence of listings, up to the given length, through one provider, over a catalogue that may change in between; and every interleaving, within the preemption bound, of two listings through one provider: each answer is that of the catalogue, and answers given before stay as they are")
	ctx := context.Background()
	menu := []call{
		{"tables", nil, nil, false}, {"tables", nil, nil, true},
		{"tables", []string{"s1"}, nil, false}, {"tables", []string{"s1"}, []string{"a"}, true}, {"tables", []string{"s2"}, nil, true}, {"tables", nil, []string{"none"}, true},
		{"views", nil, nil, false}, {"views", []string{"s2"}, nil, false}, {"keys", nil, nil, false}, {"keys", []string{"s1"}, []string{"a"}, false},
	}
	ba := []string{"b", "a"}
	menu = append(menu, call{"tables", nil, ba, true}, call{"views", []string{"s2", "s1"}, ba, false}, call{"keys", []string{"s2", "s1"}, ba, false})
	depth := mc.Q(r, 3, 4)
	r.Extra("listings in a sequence", depth)
	r.Explore(mc.Opt{Part: "sequences", Procs: true}, func(c *mc.C) {
		k := small()
		srv := &fakedb.Server{}
		srv.AnswerOp = func(o *fakedb.Op) (*fakedb.Result, error) { return k.answer(o) }
		db := srv.DB()
		defer db.Close()
		p := schema.NewProvider(db, "postgres")
		var before []answer
		var args lists
		for i := 0; i < depth; i++ {
			k = small()
			v := c.Pick(len(versions))
			versions[v](k)
			q := menu[c.Pick(len(menu))]
			c.Log("catalogue %d: %v", v, q)
			a := q.with(&args).do(ctx, p)
			c.Step()
			q.check(c, k, a)
			if d := args.changed(); d != "" {
				c.Fail("arguments changed", "%v: %s", q, d)
				return
			}
			for _, b := range before {
				if b.describe() != b.text {
					c.Fail("an earlier answer changed", "to %s from %s", b.describe(), b.text)
				}
			}
			before = append(before, a)
			c.Run().State(fmt.Sprint(c.Trace()))
		}
		closed(c, srv, db)
	})
	bound := mc.Q(r, 2, 3)
	r.Extra("preemptions", bound)
	some := []call{menu[1], menu[4], menu[6], menu[8], menu[12], menu[10]}
	if r.Thorough() {
		some = append(some, menu[3], menu[2], menu[11])
	}
	r.ExploreSched(mc.Opt{Part: "at the same time", Bound: bound}, func(c *mc.C) mc.Sched {
		q1, q2 := some[c.Pick(len(some))], some[c.Pick(len(some))]
		k := small()
		srv := server(k)
		srv.Before = func(o *fakedb.Op) {
			if o.Kind == "query" || o.Kind == "next" {
				vsched.Point()
			}
		}
		var p schema.Provider
		var db *sql.DB
		var a [2]answer
		var done [2]bool
		var args lists
		s1, s2 := q1.with(&args), q2.with(&args)
		return mc.Sched{Threads: []func(){func() {
			db = srv.DB()
			p = schema.NewProvider(db, "postgres")
			for i, q := range []call{s1, s2} {
				i, q := i, q
				vsched.GoThread(func() {
					a[i] = q.do(ctx, p)
					done[i] = true
				})
			}
		}}, Horizon: 4000, After: func(c *mc.C, res vsched.Result) {
			if !done[0] || !done[1] {
				return
			}
			q1.check(c, k, a[0])
			q2.check(c, k, a[1])
			if d := args.changed(); d != "" {
				c.Fail("arguments changed", "%v and %v: %s", q1, q2, d)
			}
			closed(c, srv, db)
			_ = db.Close()
			c.Run().State(fmt.Sprint(q1, q2, res.Schedule))
		}}
	})
}
