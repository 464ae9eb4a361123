package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"

	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/schema"
)

// The program itself, run against a server.

var (
	serversMu sync.Mutex
	servers   = map[string]*wire{}
)

// on gives the server with that number of this process.
func on(dialect string, n int) *wire {
	serversMu.Lock()
	defer serversMu.Unlock()
	k := fmt.Sprint(dialect, n)
	if servers[k] == nil {
		servers[k] = serve(dialect)
	}
	return servers[k]
}

func (s *wire) source(user, password string) string {
	if s.dialect == "postgres" {
		return fmt.Sprintf("postgres://%s:%s@127.0.0.1:%d/other?sslmode=disable", user, password, s.port())
	}
	return fmt.Sprintf("sqlserver://%s:%s@127.0.0.1:%d?database=other&encrypt=disable", user, password, s.port())
}

func (s *wire) seen() (logins, asked []string, responses, happened int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.logins...), append([]string{}, s.asked...), s.responses, s.happened
}

// program is one run of the program.
type program struct {
	args []string
	env  []string
	dir  string
	out  *os.File // instead of a pipe that is read
}

type ended struct {
	code     int
	out, err string
	late     bool
}

func (p program) run() (e ended) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_SCRATCH"), "bin", "xdbcli"), p.args...)
	cmd.Dir = p.dir
	cmd.Env = append([]string{"HOME=" + p.dir, "PATH=/usr/bin:/bin", "GOCOVERDIR=" + os.Getenv("GOCOVERDIR")}, p.env...)
	var o, x bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &x
	if p.out != nil {
		cmd.Stdout = p.out
	}
	err := cmd.Run()
	e.out, e.err = o.String(), x.String()
	e.late = ctx.Err() != nil
	if err != nil {
		e.code = cmd.ProcessState.ExitCode()
		if e.code == 0 {
			e.code = -1
		}
	}
	return e
}

// command is what is asked of the program.
type command struct {
	name         string
	format       string
	schemas      []string
	names        []string
	deps, views  bool
	together     bool // lists are given in one flag
	model, files string
	size         string // which catalogue, if not the small one
}

func (q command) args() (l []string) {
	l = append(l, "schema", q.name, "--db", "the db")
	if q.format != "" {
		l = append(l, "--o", q.format)
	}
	list := func(flag string, v []string) {
		if q.together && len(v) > 0 {
			l = append(l, "--"+flag+"="+strings.Join(v, ","))
			return
		}
		for _, x := range v {
			l = append(l, "--"+flag, x)
		}
	}
	list("schema", q.schemas)
	list(map[bool]string{true: "view", false: "table"}[q.name == "views"], q.names)
	if q.deps {
		l = append(l, "--dependencies")
	}
	if q.views {
		if q.name == "generate" {
			list("view", []string{"v", "w"})
		} else {
			l = append(l, "--views")
		}
	}
	if q.model != "" {
		l = append(l, "--out-model", q.model)
	}
	if q.files != "" {
		l = append(l, "--out-schema", q.files)
	}
	return l
}

// inside does the same within this process.
func (q command) inside(p schema.Provider, dir string) (string, error) {
	var b bytes.Buffer
	cl := &cli.Cli{O: q.format}
	if q.format == "" {
		cl.O = "table"
	}
	cl.WithSchemaProvider(p).WithWriter(&b)
	var err error
	switch q.name {
	case "columns":
		err = (&clischema.PrintColumnsCmd{DB: "the db", Schema: q.schemas, Table: q.names, Dependencies: q.deps, Views: q.views}).Run(cl)
	case "tables":
		err = (&clischema.PrintTablesCmd{DB: "the db", Schema: q.schemas, Table: q.names, Views: q.views}).Run(cl)
	case "views":
		err = (&clischema.PrintViewsCmd{DB: "the db", Schema: q.schemas, View: q.names}).Run(cl)
	case "foreign-keys":
		err = (&clischema.PrintFKCmd{DB: "the db", Schema: q.schemas, Table: q.names}).Run(cl)
	case "generate":
		g := &clischema.GenerateCmd{DB: "the db", Schema: q.schemas, Table: q.names, Dependencies: q.deps}
		if q.views {
			g.View = []string{"v", "w"}
		}
		if q.model != "" {
			g.OutModel = filepath.Join(dir, q.model)
		}
		if q.files != "" {
			g.OutSchema = filepath.Join(dir, q.files)
		}
		err = g.Run(cl)
	}
	return b.String(), err
}

// tree is what is in a directory.
func tree(dir string) string {
	var l []string
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			l = append(l, rel+"\n"+string(b))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

var change = map[string]bool{"insert": true, "update": true, "delete": true, "create": true, "drop": true, "alter": true, "truncate": true, "grant": true, "revoke": true, "merge": true, "exec": true, "copy": true}

type expected struct {
	out, files string
	err        error
}

var (
	expectMu sync.Mutex
	expects  = map[string]expected{}
)

// catalogueOf is the catalogue the program sees.
func catalogueOf(d string) *catalogue {
	k := small()
	// names are unique in a schema
	k.views[1].name = "w"
	if d == "sqlserver" {
		for i := range k.tables {
			k.tables[i].typ = "USER_TABLE"
			for j := range k.tables[i].columns {
				k.tables[i].columns[j].udt = k.tables[i].columns[j].typ
			}
		}
		for i := range k.views {
			for j := range k.views[i].columns {
				k.views[i].columns[j].udt = k.views[i].columns[j].typ
			}
		}
	}
	return k
}

// wanted is what the program has to print and to write, as the commands do it within this process.
func (q command) wanted(d string, k *catalogue) expected {
	key := fmt.Sprintf("%s %+v", d, q)
	expectMu.Lock()
	defer expectMu.Unlock()
	if e, ok := expects[key]; ok {
		return e
	}
	srv := &fakedb.Server{}
	srv.AnswerOp = k.system(d, func(text, why string) {})
	db := srv.DB()
	defer db.Close()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "want")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var e expected
	e.out, e.err = q.inside(schema.NewProvider(db, d), dir)
	e.files = tree(dir)
	expects[key] = e
	return e
}

// check compares a run that ended well with what was asked.
func (q command) check(c *mc.C, d string, k *catalogue, e ended, dir string) {
	w := q.wanted(d, k)
	if w.err != nil {
		c.Fail("the command itself fails", "%v", w.err)
		return
	}
	if e.out != w.out {
		c.Fail("printed", "%s instead of %s", e.out, w.out)
	}
	if f := tree(dir); f != w.files {
		c.Fail("written", "%s instead of %s", f, w.files)
	}
	if q.format != "json" || q.name == "generate" {
		return
	}
	// what was printed is also compared with the catalogue
	if q.name == "foreign-keys" {
		var keys schema.ForeignKeys
		if err := json.Unmarshal([]byte(e.out), &keys); err != nil {
			c.Fail("not JSON", "%v: %s", err, e.out)
			return
		}
		var got, want []string
		for _, f := range keys {
			got = append(got, keyOf(f))
		}
		for _, f := range k.keys {
			if among(q.schemas, f.schema) && among(q.names, f.table) {
				want = append(want, key(f))
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Fail("keys", "%v instead of %v", got, want)
		}
		return
	}
	var l schema.Tables
	if err := json.Unmarshal([]byte(e.out), &l); err != nil {
		c.Fail("not JSON", "%v: %s", err, e.out)
		return
	}
	var want []table
	if q.name != "views" {
		want = k.listed(q.schemas, q.names, q.deps || q.name == "tables")
	}
	if q.name == "views" || q.views {
		want = append(want, k.listedViews(q.schemas, q.names)...)
	}
	short := func(s, n string, cols []string, view bool) string {
		return fmt.Sprintf("%s.%s(%s)%v", s, n, strings.Join(cols, ","), view)
	}
	var g, x []string
	for _, t := range l {
		var cols []string
		for _, y := range t.Columns {
			cols = append(cols, y.Name+" "+y.Type)
		}
		g = append(g, short(t.Schema, t.Name, cols, t.IsView))
	}
	for i, t := range want {
		var cols []string
		for _, y := range sortedCols(t.columns) {
			cols = append(cols, y.name+" "+y.typ)
		}
		x = append(x, short(t.schema, t.name, cols, q.name == "views" || i >= len(want)-len(k.listedViews(q.schemas, q.names)) && q.views))
	}
	if strings.Join(g, "\n") != strings.Join(x, "\n") {
		c.Fail("tables", "%v instead of %v", g, x)
	}
}

func a01(r *mc.Run) {
	r.Rule("every command of the program, run as a process against a server that speaks the protocol of the database, with every source of the data source, every form of the lists and every format; every response of the server, one by one and in pairs, replaced by an error, an error after some rows, a response that breaks off and a closed connection; every output that cannot be written and every kind of arguments that are not right")
	r.Assume("the server answers from an evaluation of the queries over system tables; TLS and other ways of authentication are not explored")
	systems := []string{"postgres", "sqlserver"}
	scratch := os.Getenv("VERIF_SCRATCH")
	fresh := func() string {
		d, err := os.MkdirTemp(scratch, "run")
		if err != nil {
			panic(err)
		}
		return d
	}
	const user, password = "us er", "p@:/?w"
	login := fmt.Sprintf("%q %q %q", user, password, "the db")
	const eu, ep = "us%20er", "p%40%3A%2F%3Fw"
	// common to all runs
	after := func(c *mc.C, s *wire, e ended) {
		logins, asked, _, _ := s.seen()
		if e.late {
			c.Fail("does not end", "%s", e.err)
		}
		for _, l := range logins {
			if l != login {
				c.Fail("login", "%s instead of %s", l, login)
			}
		}
		for _, q := range asked {
			if w := strings.ToLower(strings.Fields(q)[0]); change[w] {
				c.Fail("changes the database", "%s", q)
			}
		}
		if e.code != 0 && strings.TrimSpace(e.err) == "" {
			c.Fail("fails without a word", "status %d", e.code)
		}
		if strings.Contains(e.err+e.out, ep) || strings.Contains(e.err+e.out, password) {
			c.Fail("tells the password", "%s", e.err)
		}
		if strings.Contains(e.err, "goroutine ") || strings.Contains(e.err, "panic:") {
			c.Fail("panics", "%s", e.err)
		}
		c.Run().State(fmt.Sprint(c.Trace()))
		c.Run().Outcome(fmt.Sprint(e.code, e.out))
	}
	names := []string{"columns", "tables", "views", "foreign-keys", "generate"}
	r.Explore(mc.Opt{Part: "commands", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		s, other := on(d, 0), on(d, 1)
		k := catalogueOf(d)
		q := command{name: names[c.Pick(len(names))]}
		q.schemas = [][]string{nil, {"s1"}, {"s2", "s1"}, {"none"}}[c.Pick(4)]
		q.names = [][]string{nil, {"a"}, {"b", "v"}}[c.Pick(3)]
		if len(q.schemas)+len(q.names) > 2 {
			q.together = c.Flag()
		}
		switch q.name {
		case "columns":
			q.deps, q.views = c.Flag(), c.Flag()
		case "tables":
			q.views = c.Flag()
		case "generate":
			q.deps, q.views = c.Flag(), c.Flag()
		}
		if q.name == "generate" {
			switch c.Pick(3) {
			case 1:
				q.model = "m"
			case 2:
				q.model, q.files = "x/m", "x/s"
			}
		} else {
			q.format = []string{"", "json", "yaml"}[c.Pick(3)]
		}
		p := program{args: q.args(), dir: fresh()}
		defer os.RemoveAll(p.dir)
		s.reset(k.system(d, func(text, why string) {}), nil)
		other.reset(nil, nil)
		// an answer to nobody
		from := 1
		if r.Thorough() || len(q.schemas) == 1 && q.schemas[0] == "s1" {
			from = c.Pick(5)
		}
		src := s.source(eu, ep)
		switch from {
		case 0:
			p.args = append(p.args, "--sql-source", src)
		case 1:
			p.env = []string{"XDB_DATASOURCE=" + src}
		case 2:
			p.args = append([]string{"--sql-source=" + src}, p.args...)
			p.env = []string{"XDB_DATASOURCE=" + other.source("x", "y")}
		case 3:
			f := filepath.Join(scratch, filepath.Base(p.dir)+".source")
			if err := os.WriteFile(f, []byte(src+"\n"), 0o600); err != nil {
				panic(err)
			}
			defer os.Remove(f)
			p.args = append(p.args, "--sql-source", "file://"+f)
		case 4:
			p.args = append([]string{"--debug"}, append(p.args, "--sql-source", src)...)
		}
		c.Log("%s %+v from %d", d, q, from)
		c.Step()
		e := p.run()
		if e.code != 0 {
			c.Fail("fails", "status %d: %s", e.code, e.err)
		} else {
			q.check(c, d, k, e, p.dir)
		}
		if l, _, _, _ := other.seen(); len(l) > 0 {
			c.Fail("reaches another server", "%v", l)
		}
		after(c, s, e)
	})
	// much to print and to write
	many := []int{13, 33, 65, 101}
	if r.Thorough() {
		many = mc.Sizes(260)[3:]
	}
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		s := on(d, 0)
		n := many[len(many)-1-c.Pick(len(many))]
		way := c.Pick(4)
		q := command{name: names[c.Pick(len(names))], size: fmt.Sprint(way, " ", n)}
		if q.name == "generate" {
			q.files = "s"
			if c.Flag() {
				q.model = "m"
			}
		} else {
			q.format = []string{"", "json", "yaml"}[c.Pick(3)]
			q.views = q.name == "columns" || q.name == "tables"
		}
		name := func(p string, i int) string { return fmt.Sprintf("%s%04d", p, i) }
		simple := func(i int) table {
			return table{schema: "s1", name: name("t", i), typ: "BASE TABLE", columns: []column{col("id", 1), col("ref", 2)}, indexes: []index{{name("pk", i), true, true, []string{"id"}}}}
		}
		k := &catalogue{tables: []table{simple(0)}}
		switch way {
		case 0: // tables with references and views
			if q.name == "generate" {
				n = min(n, 130)
			}
			for i := 1; i < n; i++ {
				k.tables = append(k.tables, simple(i))
				k.keys = append(k.keys, fkey{name("fk", i), "s1", name("t", i-1), "ref", "s1", name("t", i), "id"})
				v := simple(i)
				v.name, v.indexes = name("v", i), nil
				k.views = append(k.views, v)
			}
		case 1: // columns and indexes
			for i := 2; i < n; i++ {
				t := &k.tables[0]
				t.columns = append(t.columns, col(name("c", i), i+1))
				t.indexes = append(t.indexes, index{name("i", i), false, i%2 == 0, []string{name("c", i)}})
			}
		case 2: // keys
			for i := 0; i < n; i++ {
				k.keys = append(k.keys, fkey{name("fk", i), "s1", "t0000", "ref", "s1", "t0000", "id"})
			}
		case 3: // long names; the systems have a limit of 128 characters
			l := strings.Repeat("abcdefghi_", 30)[:min(n, 127)] + "n"
			k.tables = []table{{schema: l, name: l, typ: "BASE TABLE", columns: []column{col(l, 1)}, indexes: []index{{l, true, true, []string{l}}}}}
			k.keys = []fkey{{l, l, l, l, l, l, l}}
		}
		if d == "sqlserver" {
			for _, l := range [][]table{k.tables, k.views} {
				for i := range l {
					if len(l[i].indexes) > 0 {
						l[i].typ = "USER_TABLE"
					}
					for j := range l[i].columns {
						l[i].columns[j].udt = l[i].columns[j].typ
					}
				}
			}
		}
		p := program{args: append(q.args(), "--sql-source", s.source(eu, ep)), dir: fresh()}
		defer os.RemoveAll(p.dir)
		s.reset(k.system(d, func(text, why string) {}), nil)
		c.Log("%s %+v", d, q)
		c.Step()
		e := p.run()
		if e.code != 0 {
			c.Fail("fails", "status %d: %s", e.code, mc.Short(e.err))
		} else {
			q.check(c, d, k, e, p.dir)
		}
		after(c, s, e)
	})
	kinds := []string{"close", "cut", "last byte", "error", "error and close", "error after"}
	asks := func(name string) (l []command) {
		q := command{name: name, format: "json"}
		switch name {
		case "generate":
			q.format, q.views, q.model = "", true, "m"
		case "columns":
			q.views, q.deps = true, true
			q.schemas = []string{"s1"}
		}
		return append(l, q)
	}
	var countMu sync.Mutex
	counts := map[string]int{}
	// responses of the server to a command without faults
	count := func(d string, q command) int {
		countMu.Lock()
		defer countMu.Unlock()
		k := d + q.name
		if counts[k] == 0 {
			s := on(d, 2)
			s.reset(catalogueOf(d).system(d, func(text, why string) {}), nil)
			p := program{args: append(q.args(), "--sql-source", s.source(eu, ep)), dir: fresh()}
			defer os.RemoveAll(p.dir)
			p.run()
			_, _, counts[k], _ = s.seen()
		}
		return counts[k]
	}
	r.Explore(mc.Opt{Part: "failures", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		s := on(d, 0)
		q := asks(names[c.Pick(len(names))])[0]
		n := count(d, q)
		if n == 0 {
			c.Fail("no responses", "%s %s", d, q.name)
			return
		}
		faults := map[int]string{}
		first := 1 + c.Pick(n)
		faults[first] = kinds[c.Pick(len(kinds))]
		if more := c.Pick(mc.Q(r, 2, 5)); more > 0 {
			// the next ones too, so that trying again does not help
			for i := 1; i <= more; i++ {
				faults[first+i] = faults[first]
			}
		}
		if r.Thorough() && c.Flag() {
			second := first + 1 + c.Pick(3)
			faults[second] = kinds[c.Pick(len(kinds))]
		}
		k := catalogueOf(d)
		s.reset(k.system(d, func(text, why string) {}), faults)
		p := program{args: append(q.args(), "--sql-source", s.source(eu, ep)), dir: fresh()}
		defer os.RemoveAll(p.dir)
		c.Log("%s %s faults %v of %d", d, q.name, faults, n)
		c.Step()
		e := p.run()
		_, _, _, happened := s.seen()
		switch {
		case e.code == 0:
			// it tried again, or the failure was none
			q.check(c, d, k, e, p.dir)
			if happened > 0 && strings.HasPrefix(faults[first], "error") {
				c.Fail("refused and succeeded", "%s response %d of %s on %s: %s", faults[first], first, q.name, d, e.out)
			}
		case happened == 0:
			c.Fail("fails", "status %d: %s", e.code, e.err)
		default:
			if e.out != "" {
				c.Fail("prints part of it", "%s", e.out)
			}
			if f := tree(p.dir); f != "" {
				c.Fail("writes part of it", "%s", f)
			}
		}
		after(c, s, e)
	})
	r.Explore(mc.Opt{Part: "output", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		s := on(d, 0)
		q := command{name: names[c.Pick(len(names))]}
		if q.name != "generate" {
			q.format = []string{"", "json", "yaml"}[c.Pick(3)]
		}
		p := program{dir: fresh()}
		defer os.RemoveAll(p.dir)
		if err := os.WriteFile(filepath.Join(p.dir, "file"), []byte("x"), 0o600); err != nil {
			panic(err)
		}
		if q.name == "generate" && c.Flag() {
			// a directory that cannot be one
			if c.Flag() {
				q.model = "file/m"
			} else {
				q.model, q.files = "m", "file"
			}
		} else {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			defer f.Close()
			p.out = f
		}
		k := catalogueOf(d)
		s.reset(k.system(d, func(text, why string) {}), nil)
		p.args = append(q.args(), "--sql-source", s.source(eu, ep))
		c.Log("%s %+v", d, q)
		c.Step()
		e := p.run()
		if e.code == 0 {
			c.Fail("unwritten and succeeded", "%s", e.out)
		}
		after(c, s, e)
	})
	r.Explore(mc.Opt{Part: "arguments", Procs: true}, func(c *mc.C) {
		d := systems[c.Pick(2)]
		s := on(d, 0)
		src := s.source(eu, ep)
		good := []string{"--sql-source", src}
		name := names[c.Pick(len(names))]
		type use struct {
			args []string
			env  string
			ok   bool
		}
		uses := []use{
			{append([]string{"schema", name}, good...), "", false},
			{append([]string{"schema", name, "--db"}, good...), "", false},
			{[]string{"schema", name, "--db", "the db"}, "", false},
			{[]string{"schema", name, "--db", "the db", "--sql-source", ""}, "", false},
			{[]string{"schema", name, "--db", "the db"}, "nonsense://x", false},
			{[]string{"schema", name, "--db", "the db", "--sql-source", "file:///none/such"}, src, false},
			{append([]string{"schema", name, "--db", "the db", "--none"}, good...), "", false},
			{append([]string{"schema", name, "--db", "the db", "more"}, good...), "", false},
			{append([]string{"schema", name + "x", "--db", "the db"}, good...), "", false},
			{append([]string{"schema"}, good...), "", false},
			{good, "", false},
			{nil, "", false},
			{[]string{"--help"}, "", true},
			{[]string{"schema", name, "--help"}, "", true},
			{[]string{"--version"}, "", true},
		}
		u := uses[c.Pick(len(uses))]
		s.reset(catalogueOf(d).system(d, func(text, why string) {}), nil)
		p := program{args: u.args, dir: fresh()}
		defer os.RemoveAll(p.dir)
		if u.env != "" {
			p.env = []string{"XDB_DATASOURCE=" + u.env}
		}
		c.Log("%s %v %q", d, u.args, u.env)
		c.Step()
		e := p.run()
		if u.ok != (e.code == 0) {
			c.Fail("status of arguments", "%v: %d %s", u.args, e.code, e.err)
		}
		if u.ok && strings.TrimSpace(e.out) == "" {
			c.Fail("says nothing", "%v: %s", u.args, e.err)
		}
		if !u.ok && strings.Contains(e.out, "s1") {
			c.Fail("prints part of it", "%s", e.out)
		}
		if f := tree(p.dir); f != "" {
			c.Fail("writes", "%s", f)
		}
		if l, _, _, _ := s.seen(); len(l) > 0 {
			c.Fail("logs in for nothing", "%v", l)
		}
		after(c, s, e)
	})
}
