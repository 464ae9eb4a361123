// Check of the migrations: R01.
package main

import (
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/vlib/fakedb"
	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/migrate"
)

func main() { mc.Main("R01", "fault_enumeration", r01) }

// world is the database: what is left when every client is gone, and the sessions.
type world struct {
	kind    string
	table   bool
	version int // -1: none
	dirty   bool
	done    []string // bodies that took effect, in order
	owner   string   // session that holds the lock
	count   int
	staged  map[string][]func()
	bad     string // what the harness does not understand

	// faults
	c      *mc.C
	faulty bool // faults are enumerated in this run
	fault  string
	dead   map[int]bool
	pause  bool // no faults, no scheduling: clean up

	// two instances
	sched *sched
}

type request struct {
	proc int
	lock string // session that asks for the lock
	go_  chan struct{}
}

type sched struct {
	req  chan request
	done chan int
}

func newWorld(c *mc.C, kind string) *world {
	return &world{kind: kind, version: -1, staged: map[string][]func(){}, c: c, dead: map[int]bool{}}
}

func isLock(sql string) bool {
	return strings.Contains(sql, "pg_advisory_lock") || strings.Contains(sql, "sp_getapplock")
}

var errLost = driver.ErrBadConn

// server gives the database as process proc sees it.
func (w *world) server(proc int) *fakedb.Server {
	s := &fakedb.Server{}
	s.Fault = func(o *fakedb.Op) error {
		ses := fmt.Sprintf("%d.%d", proc, o.Conn)
		if w.dead[proc] {
			return errLost
		}
		if o.Kind == "close" || o.Kind == "next" || o.Kind == "rowsclose" || o.Kind == "reset" {
			if o.Kind == "close" {
				w.end(ses)
			}
			return nil
		}
		if w.sched != nil && !w.pause {
			r := request{proc: proc, go_: make(chan struct{})}
			if isLock(o.SQL) {
				r.lock = ses
			}
			w.sched.req <- r
			<-r.go_
		}
		if isLock(o.SQL) && w.owner != "" && w.owner != ses {
			w.c.Fail("lock", "the lock of the migrations is held by session %s, session %s would wait forever", w.owner, ses)
			return errors.New("lock")
		}
		k := 0
		if w.faulty && !w.pause && w.fault == "" {
			k = w.c.Dev(5)
		}
		if k > 0 {
			w.fault = fmt.Sprintf("%s %s %s", []string{"", "error at", "error after", "crash before", "crash after"}[k], o.Kind, strings.Join(strings.Fields(o.SQL), " "))
			w.c.Log("    %s", w.fault)
		}
		w.c.Step()
		if k == 0 || k == 2 || k == 4 {
			w.effect(ses, o)
		} else if k == 1 && o.Kind == "commit" {
			delete(w.staged, ses)
		}
		if k >= 3 {
			w.dead[proc] = true
			w.crash(proc)
			return errLost
		}
		if k > 0 {
			return fmt.Errorf("%w: no change, file does not exist, migration failed", fakedb.ErrInjected)
		}
		return nil
	}
	s.Answer = w.answer
	return s
}

func (w *world) crash(proc int) {
	for ses := range w.staged {
		if strings.HasPrefix(ses, fmt.Sprint(proc, ".")) {
			delete(w.staged, ses)
		}
	}
	if strings.HasPrefix(w.owner, fmt.Sprint(proc, ".")) {
		w.owner, w.count = "", 0
	}
}

func (w *world) end(ses string) {
	delete(w.staged, ses)
	if w.owner == ses {
		w.owner, w.count = "", 0
	}
}

func (w *world) effect(ses string, o *fakedb.Op) {
	q := strings.Join(strings.Fields(o.SQL), " ")
	var f func()
	switch {
	case o.Kind == "commit":
		for _, f := range w.staged[ses] {
			f()
		}
		delete(w.staged, ses)
		return
	case o.Kind == "rollback":
		delete(w.staged, ses)
		return
	case o.Kind == "begin":
		w.staged[ses] = []func(){}
		return
	case o.Kind != "exec" && o.Kind != "query":
		return
	case isLock(q):
		w.owner = ses
		w.count++
		return
	case strings.Contains(q, "pg_advisory_unlock") || strings.Contains(q, "sp_releaseapplock"):
		if w.owner == ses {
			if w.count--; w.count == 0 {
				w.owner = ""
			}
		}
		return
	case strings.HasPrefix(q, "CREATE TABLE IF NOT EXISTS") || strings.HasPrefix(q, "IF NOT EXISTS"):
		f = func() { w.table = true }
	case strings.HasPrefix(q, "TRUNCATE"):
		f = func() { w.version, w.dirty = -1, false }
	case strings.HasPrefix(q, "INSERT INTO") && strings.Contains(q, "(version, dirty)"):
		v := int(o.Args[0].(int64))
		d := fmt.Sprint(o.Args[1])
		f = func() { w.version, w.dirty = v, d == "true" || d == "1" }
	case strings.HasPrefix(q, "MIGRATION "):
		f = func() { w.done = append(w.done, strings.TrimPrefix(q, "MIGRATION ")) }
	case strings.HasPrefix(q, "SELECT"):
		return
	default:
		w.bad = q
		return
	}
	if st, ok := w.staged[ses]; ok && o.InTx {
		w.staged[ses] = append(st, f)
		return
	}
	f()
}

func (w *world) answer(q string, args []any) (*fakedb.Result, error) {
	one := func(v any) *fakedb.Result { return &fakedb.Result{Cols: []string{"c"}, Rows: [][]any{{v}}} }
	switch {
	case strings.Contains(q, "CURRENT_DATABASE") || strings.Contains(q, "DB_NAME()"):
		return one("db"), nil
	case strings.Contains(q, "CURRENT_SCHEMA") || strings.Contains(q, "SCHEMA_NAME()"):
		return one("sch"), nil
	case strings.Contains(q, "sp_getapplock"):
		return one(int64(0)), nil
	case strings.Contains(q, "information_schema.tables"):
		return one(map[bool]int64{true: 1}[w.table]), nil
	case strings.Contains(q, "version, dirty FROM"):
		if !w.table {
			return nil, errors.New("the table of versions does not exist")
		}
		r := &fakedb.Result{Cols: []string{"version", "dirty"}}
		if w.version >= 0 || w.dirty {
			r.Rows = [][]any{{int64(w.version), w.dirty}}
		}
		return r, nil
	}
	w.bad = q
	return nil, errors.New("unknown query")
}

func (w *world) String() string {
	return fmt.Sprintf("version %d dirty %v executed %v", w.version, w.dirty, w.done)
}

// A set of migrations: which versions there are, and which have a way up and down.
type set struct {
	name     string
	up, down []int
	extra    map[string]string
}

func (s set) versions() []int {
	m := map[int]bool{}
	for _, v := range append(append([]int{}, s.up...), s.down...) {
		m[v] = true
	}
	var l []int
	for v := range m {
		l = append(l, v)
	}
	sort.Ints(l)
	return l
}

func has(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (s set) write(dir string) string {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	put := func(n, b string) {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(b), 0o644); err != nil {
			panic(err)
		}
	}
	for _, v := range s.up {
		put(fmt.Sprintf("%d_step.up.sql", v), fmt.Sprintf("MIGRATION %s up %d\n", s.name, v))
	}
	for _, v := range s.down {
		put(fmt.Sprintf("%d_step.down.sql", v), fmt.Sprintf("MIGRATION %s down %d\n", s.name, v))
	}
	for n, b := range s.extra {
		put(n, b)
	}
	return dir
}

// step of a plan: the body (empty if there is none) and the version it leads to.
type step struct {
	body string
	to   int
}

// plan tells what a run has to do, and whether it can succeed at all.
func (s set) plan(version int, dirty bool, force, target int) (steps []step, from int, ok bool) {
	if force > 0 {
		version, dirty = force, false
	}
	vs := s.versions()
	if dirty || version >= 0 && !has(vs, version) || target > 0 && !has(vs, target) || len(vs) == 0 {
		return nil, version, false
	}
	if target == 0 {
		target = vs[len(vs)-1]
		if version > target {
			target = version
		}
	}
	for _, v := range vs {
		if v > version && v <= target {
			b := ""
			if has(s.up, v) {
				b = fmt.Sprintf("%s up %d", s.name, v)
			}
			steps = append(steps, step{b, v})
		}
	}
	for i := len(vs) - 1; i > 0; i-- {
		if v := vs[i]; v <= version && v > target {
			b := ""
			if has(s.down, v) {
				b = fmt.Sprintf("%s down %d", s.name, v)
			}
			steps = append(steps, step{b, vs[i-1]})
		}
	}
	return steps, version, true
}

var sets = []set{
	{name: "A", up: []int{1, 2, 10}, down: []int{1, 2, 10}, extra: map[string]string{"README.txt": "no migration", "3_x.sql": "neither"}},
	{name: "B", up: []int{1, 3, 20230101}, down: []int{2, 3}},
}

type run struct{ force, target int }

var runs = [][]run{
	{{0, 0}, {0, 1}, {0, 2}, {0, 10}, {0, 7}, {1, 0}, {2, 0}, {2, 10}, {10, 1}, {7, 0}},
	{{0, 0}, {0, 3}, {0, 2}, {3, 0}, {2, 20230101}},
}

// after compares what a run did with the plan.
func after(w *world, before world, s set, rn run, err error) string {
	steps, from, ok := s.plan(before.version, before.dirty, rn.force, rn.target)
	var want []string
	for _, st := range steps {
		if st.body != "" {
			want = append(want, st.body)
		}
	}
	if w.bad != "" {
		panic("harness: unknown statement " + w.bad)
	}
	did := w.done[len(before.done):]
	if len(did) > len(want) || strings.Join(did, ",") != strings.Join(want[:len(did)], ",") {
		return fmt.Sprintf("executed %v, the migrations to do are %v", did, want)
	}
	if err == nil {
		to := from
		if len(steps) > 0 {
			to = steps[len(steps)-1].to
		}
		switch {
		case !ok:
			return fmt.Sprintf("success, but from version %d dirty %v there is no way to do it", before.version, before.dirty)
		case len(did) != len(want):
			return fmt.Sprintf("success, but only %v of %v were executed", did, want)
		case w.dirty || w.version != to:
			return fmt.Sprintf("success, but the version is %d dirty %v instead of %d", w.version, w.dirty, to)
		}
		return ""
	}
	if w.fault == "" && ok {
		return fmt.Sprintf("failed without a reason: %v", err)
	}
	// failed: the version must tell what was executed
	if rn.force > 0 && w.version == before.version && w.dirty == before.dirty && len(did) == 0 {
		return ""
	}
	at, n := from, 0
	if !w.dirty && w.version == at && len(did) == 0 {
		return ""
	}
	for _, st := range steps {
		if w.dirty && w.version == st.to && (len(did) == n || st.body != "" && len(did) == n+1) {
			return ""
		}
		if st.body != "" {
			n++
		}
		at = st.to
		if !w.dirty && w.version == at && len(did) == n {
			return ""
		}
	}
	if !ok && w.version == from && len(did) == 0 {
		return ""
	}
	return fmt.Sprintf("after the failure %q the version is %d dirty %v, executed were %v of %v", w.fault, w.version, w.dirty, did, want)
}

func (w *world) snapshot() world {
	b := *w
	b.done = append([]string{}, w.done...)
	return b
}

func r01(r *mc.Run) {
	r.Rule("every history of migration runs (all, to a version, forced) over two sets of migrations, with an error or a crash before or after the effect of every database operation within the deviation bound; every order of the database operations of two instances within the preemption bound; compared with a plan computed from version, dirty mark and files")
	r.Assume("migration bodies are single statements and take effect as a whole or not at all")
	r.Extra("runs in a history", mc.Q(r, 2, 3))
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "r01")
	if err != nil {
		panic(err)
	}
	defer func() { _ = os.RemoveAll(base) }()
	dirs := make([]string, len(sets))
	for i, s := range sets {
		dirs[i] = s.write(filepath.Join(base, s.name))
	}
	// a failed run of golang-migrate leaves the files it has read ahead open in blocked goroutines,
	// so worker processes are replaced from time to time
	for _, kind := range []string{"postgres", "sqlserver"} {
		// two instances of a program migrate at the same time
		r.Explore(mc.Opt{Part: kind + ", two instances", Procs: true, Recycle: 1500, Bound: mc.Q(r, 3, 4)}, func(c *mc.C) {
			w := newWorld(c, kind)
			cfg := [][2]run{{{0, 0}, {0, 0}}, {{0, 2}, {0, 2}}, {{0, 0}, {0, 1}}}[c.Pick(3)]
			if c.Flag() {
				w.table, w.version, w.done = true, 1, []string{"A up 1"}
			}
			w.sched = &sched{make(chan request), make(chan int)}
			var errs [2]error
			var dbs [2]*sql.DB
			for i := range errs {
				dbs[i] = w.server(i).DB()
				go func() {
					errs[i] = migrate.Migrate(kind, "db", dirs[0], cfg[i].force, cfg[i].target, dbs[i])
					w.sched.done <- i
				}()
			}
			running, left, cur := 2, 2, 0
			var wait [2]*request
			for left > 0 {
				for running > 0 {
					select {
					case q := <-w.sched.req:
						wait[q.proc] = &q
						running--
					case <-w.sched.done:
						running--
						left--
					}
				}
				var en []int
				for _, p := range []int{cur, 1 - cur} {
					if q := wait[p]; q != nil && (q.lock == "" || w.owner == "" || w.owner == q.lock) {
						en = append(en, p)
					}
				}
				if left == 0 {
					break
				}
				if len(en) == 0 {
					c.Fail("deadlock", "nobody can go on")
					// let them fail
					w.pause, w.owner = true, ""
					en = []int{0}
					if wait[0] == nil {
						en = []int{1}
					}
				}
				k := 0
				if wait[cur] != nil && en[0] == cur {
					k = c.Dev(len(en)) // going on with the other is a preemption
				} else {
					k = c.Pick(len(en))
				}
				cur = en[k]
				q := wait[cur]
				wait[cur] = nil
				running = 1
				close(q.go_)
			}
			c.Log("%v %v: %v %v: %s", cfg[0], cfg[1], errs[0], errs[1], w)
			w.pause = true
			for _, d := range dbs {
				_ = d.Close()
			}
			c.Run().State(w.String() + strings.Join(c.Trace(), ""))
			c.Run().Outcome(w.String())
			if cfg[0] == cfg[1] {
				want := []string{"A up 1", "A up 2", "A up 10"}
				to := 10
				if cfg[0].target == 2 {
					want, to = want[:2], 2
				}
				if errs[0] != nil || errs[1] != nil {
					c.Fail("two instances", "errors %v and %v", errs[0], errs[1])
				}
				if strings.Join(w.done, ",") != strings.Join(want, ",") || w.version != to || w.dirty {
					c.Fail("two instances", "%s", w)
				}
				return
			}
			// one to the end and one to version 1: whoever is last decides
			if errs[0] != nil || errs[1] != nil || w.dirty || w.version != 1 && w.version != 10 {
				c.Fail("two instances", "errors %v and %v: %s", errs[0], errs[1], w)
			}
			v := 0
			for _, d := range w.done {
				var name, dir string
				var n int
				_, _ = fmt.Sscan(d, &name, &dir, &n)
				next, prev := map[int]int{0: 1, 1: 2, 2: 10}, map[int]int{10: 2, 2: 1, 1: 0}
				if dir == "up" && next[v] != n || dir == "down" && v != n {
					c.Fail("two instances", "executed %v", w.done)
				}
				if v = n; dir == "down" {
					v = prev[n]
				}
			}
			if v != w.version {
				c.Fail("two instances", "executed %v, version %d", w.done, w.version)
			}
		})
	}
	// directories, and the way through a provider
	names := []string{"plain", "with space", "h#sh", "q?mark", "per%cent", "per%41cent", "umlautä", "col:on", "semi;colon", "plus+", "a&b=c", ".hidden", "quote'\"", "[br]"}
	r.Explore(mc.Opt{Part: "directories", Procs: true, Recycle: 1500}, func(c *mc.C) {
		name := names[c.Pick(len(names))]
		rel := c.Pick(3)
		kind := []string{"postgres", "pgsql", "sqlserver", "provider"}[c.Pick(4)]
		rn := []run{{0, 0}, {0, 2}, {1, 10}, {10, 2}}[c.Pick(4)]
		tmp, err := os.MkdirTemp(base, "d")
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.RemoveAll(tmp) }()
		s := sets[0]
		dir := s.write(filepath.Join(tmp, name, "sql"))
		// a decoy where a mangled name would lead
		for i := 1; i < len(name); i++ {
			set{name: "decoy", up: []int{1, 2, 10}}.write(filepath.Join(tmp, name[:i]))
			set{name: "decoy", up: []int{1, 2, 10}}.write(filepath.Join(tmp, name[:i], "sql"))
		}
		set{name: "decoy", up: []int{1, 2, 10}}.write(filepath.Join(tmp, name))
		switch rel {
		case 1, 2:
			wd, _ := os.Getwd()
			if err := os.Chdir(tmp); err != nil {
				panic(err)
			}
			defer func() { _ = os.Chdir(wd) }()
			dir = filepath.Join(name, "sql")
			if rel == 2 {
				dir = "./" + dir
			}
		}
		c.Step()
		w := newWorld(c, "postgres")
		before := w.snapshot()
		srv := w.server(0)
		if kind == "provider" {
			registerOnce.Do(func() { hub.Register("pgsql") })
			current = srv
			p, perr := xdb.NewProvider("pgsql://u:p@h/db", "", nil, &xdb.MigrationConfig{Source: dir, ForceVersion: rn.force, MigrateVersion: rn.target})
			if perr == nil {
				_ = p.Close()
			}
			err = perr
		} else {
			db := srv.DB()
			err = migrate.Migrate(kind, "db", dir, rn.force, rn.target, db)
			_ = db.Close()
		}
		c.Log("%s in %q %v: %v: %s", kind, dir, rn, err, w)
		if bad := after(w, before, s, rn, err); bad != "" {
			c.Fail("directory", "%q: %s", dir, bad)
		}
		c.Run().State(w.String() + dir)
		c.Run().Outcome(w.String())
	})
	// many migrations, long ones and large version numbers
	r.Explore(mc.Opt{Part: "sizes", Procs: true, Recycle: 300}, func(c *mc.C) {
		kind := []string{"postgres", "sqlserver"}[c.Pick(2)]
		lens := mc.Sizes(mc.Q(r, 140, 520))
		n := lens[c.Pick(len(lens))]
		if n == 0 {
			n = 1
		}
		number := []func(i int) int{
			func(i int) int { return i },
			func(i int) int { return 20230101120000 + 7*i },
			func(i int) int { return i * i },
		}[c.Pick(3)]
		s := set{name: "A"}
		for i := 1; i <= n; i++ {
			s.up = append(s.up, number(i))
			s.down = append(s.down, number(i))
		}
		long := []int{0, 4096, 70000, 1100000}[c.Pick(4)]
		if long > 0 {
			s.extra = map[string]string{
				fmt.Sprintf("%d_step.up.sql", number(n)): fmt.Sprintf("%sMIGRATION %s up %d", strings.Repeat("\n", long), s.name, number(n)),
			}
		}
		top, err := os.MkdirTemp(base, "n")
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.RemoveAll(top) }()
		dir := s.write(filepath.Join(top, "sql"))
		c.Step()
		w := newWorld(c, kind)
		db := w.server(0).DB()
		hist := []run{{0, 0}, {0, number(1)}, {0, number((n + 1) / 2)}, {0, 0}, {number(n), number(1)}, {number(1), 0}}
		if c.Flag() {
			hist = hist[2:]
		}
		for _, rn := range hist {
			before := w.snapshot()
			err := migrate.Migrate(kind, "db", dir, rn.force, rn.target, db)
			if bad := after(w, before, s, rn, err); bad != "" {
				if len(bad) > 300 {
					bad = bad[:300]
				}
				c.Fail("many migrations", "%d migrations, force %d to %d: %s", n, rn.force, rn.target, bad)
				break
			}
		}
		c.Log("%s: %d migrations from %d to %d, one with %d lines: version %d", kind, n, number(1), number(n), long, w.version)
		w.pause = true
		_ = db.Close()
		c.Run().State(fmt.Sprint(kind, n, number(1), long))
		c.Run().Outcome(fmt.Sprint(w.version))
	})
	r.Explore(mc.Opt{Part: "refused"}, func(c *mc.C) {
		top, err := os.MkdirTemp(base, "r")
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.RemoveAll(top) }()
		tmp := filepath.Join(top, "sql")
		w := newWorld(c, "postgres")
		kind := []string{"postgres", "sqlserver", "mysql", "Postgres", ""}[c.Pick(5)]
		var dir string
		state := c.Pick(5)
		switch state {
		case 0:
			dir = tmp // does not exist
		case 1:
			dir = set{}.write(tmp) // empty
		case 2: // two migrations of one version
			dir = set{name: "A", up: []int{1}, extra: map[string]string{"1_other.up.sql": "MIGRATION x"}}.write(tmp)
		case 3:
			dir = sets[0].write(tmp)
		case 4:
			dir = "" // nothing to do
		}
		db := w.server(0).DB()
		c.Step()
		err = migrate.Migrate(kind, "db", dir, 0, 0, db)
		_ = db.Close()
		c.Log("%s, directory %d: %v: %s", kind, state, err, w)
		good := state == 3 && (kind == "postgres" || kind == "sqlserver")
		if (err == nil) != (good || state == 4) {
			c.Fail("refused", "%v", err)
		}
		if !good && (len(w.done) > 0 || w.version != -1) {
			c.Fail("refused", "%s", w)
		}
		c.Run().State(fmt.Sprint(kind, state))
		c.Run().Outcome(fmt.Sprint(err))
	})
	// a failed run of golang-migrate leaves the files it has read ahead open in blocked goroutines,
	// so worker processes are replaced from time to time
	histories := func(part, kind string, n, bound int, max time.Duration) {
		r.Explore(mc.Opt{Part: part, Procs: true, Recycle: 1500, Bound: bound, Timeout: max}, func(c *mc.C) {
			w := newWorld(c, kind)
			si := c.Pick(len(sets))
			s := sets[si]
			var srv *fakedb.Server
			var db *sql.DB
			proc, used := 0, 0
			for i := 0; i < n; i++ {
				k := c.Pick(len(runs[si]) + 1)
				if k == len(runs[si]) {
					break
				}
				rn := runs[si][k]
				if db == nil {
					srv = w.server(proc)
					db = srv.DB()
					used = 0
				}
				before := w.snapshot()
				w.fault, w.faulty = "", true
				c.Log("run %d: set %s, force %d, to %d, from %s", i, s.name, rn.force, rn.target, w)
				err := migrate.Migrate(kind, "db", dirs[si], rn.force, rn.target, db)
				w.faulty = false
				c.Log("  -> %v; %s", err, w)
				if bad := after(w, before, s, rn, err); bad != "" {
					c.Fail("migrations", "%s", bad)
					return
				}
				w.pause = true
				if !w.dead[proc] {
					if perr := db.Ping(); perr != nil {
						c.Fail("database closed", "after the migrations the database does not answer: %v", perr)
					}
					if w.fault == "" && w.owner != "" {
						c.Fail("lock kept", "the lock is held after the run")
					}
				}
				// the driver for SQL Server keeps one (see known_findings.json); more is something else
				if u := db.Stats().InUse - used; u == 1 && kind == "sqlserver" {
					c.Fail("connection kept", "%d connections are in use after the migrations", u)
				} else if u != 0 {
					c.Fail("connections kept", "%d connections are in use after the migrations", u)
				}
				used = db.Stats().InUse
				_, rows, tx, _ := srv.Counts()
				if rows != 0 || tx != 0 {
					c.Fail("left open", "%d result sets and %d transactions are open", rows, tx)
				}
				if w.fault != "" {
					_ = db.Close()
					w.crash(proc)
					proc++
					db = nil
				}
				w.pause = false
				c.Run().State(w.String())
			}
			w.pause = true
			if db != nil {
				_ = db.Close()
			}
			c.Run().Outcome(w.String())
		})
	}
	for _, kind := range []string{"postgres", "sqlserver"} {
		if r.Thorough() {
			histories(kind, kind, 3, 1, 0)
		} else {
			histories(kind, kind, 2, 1, 0)
		}
	}
	if r.Thorough() {
		histories("postgres, two faults", "postgres", 2, 2, r.TimeLeft()/2)
		histories("sqlserver, two faults", "sqlserver", 2, 2, 0)
	}
}

var registerOnce sync.Once
var current *fakedb.Server

// hub opens connections of the server of the moment.
var hub = hubT{}

type hubT struct{}

func (hubT) Register(name string) { sql.Register(name, hubT{}) }
func (hubT) Open(dsn string) (driver.Conn, error) {
	return current.Connect(nil)
}
