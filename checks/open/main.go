// Check of opening databases: D01.
package main

import (
	"context"
	"database/sql"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"verif.local/vlib/mc"

	"github.com/effective-security/xdb"
)

func main() { mc.Main("D01", "model_checking", d01) }

func d01(r *mc.Run) {
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "PG") {
			_ = os.Unsetenv(k)
		}
	}
	_ = os.Setenv("HOME", os.Getenv("VERIF_SCRATCH"))
	r.Rule("every combination of driver, form of the data source (address in the authority or in a parameter, database in the path or in a parameter, other parameters, none), user, password, requested database and place the data source is kept; the real drivers log in to a server on the loopback that records what it is told; and every kind of failure while opening")
	users := []string{"u1", "a b", "p@x:y", "ü", "host=x"}
	passwords := []string{"p2", "s3c r:t/", "a&b=c", "host=h", "x?y#z", "%41+", "'q'\\"}
	requested := []string{"", "testdb", "aaa", "zzz", "my db", "a&b=c", "x'y", "ü", "p%41", "a+b", "d#1", "o?x", "Host=1"}
	if !r.Thorough() {
		users = []string{"u1", "p@x y", "host=x"}
		passwords = []string{"p2", "a&b=c/", "x?y#z%41+", "host=h 'q'\\"}
	}
	srvs := map[string]*server{}
	start := func(kind string) *server {
		if srvs[kind] == nil {
			srvs[kind] = listen(kind)
		}
		return srvs[kind]
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "open")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type source struct {
		text     string
		kind     string
		user     string
		password string
		database string // of the source itself
		app      string
	}
	// make builds a data source.
	make_ := func(c *mc.C, s *server, users, passwords []string) source {
		src := source{kind: s.kind, user: users[c.Pick(len(users))], password: passwords[c.Pick(len(passwords))]}
		u := &url.URL{Scheme: s.kind, User: url.UserPassword(src.user, src.password), Host: fmt.Sprintf("127.0.0.1:%d", s.port())}
		q := url.Values{}
		if s.kind == "postgres" {
			q.Set("sslmode", "disable")
			switch c.Pick(4) {
			case 1:
				u.Path = "/"
			case 2:
				u.Path = "/inpath"
				src.database = "inpath"
			case 3:
				u.Host = "" // the address is in the parameters
				u.Path = "/"
				q.Set("host", "127.0.0.1")
				q.Set("port", fmt.Sprint(s.port()))
			}
			switch n := c.Pick(4); n {
			case 1, 3:
				if src.database == "" {
					q.Set([]string{"dbname", "database"}[n/2], "inparam") // the driver knows both names
					src.database = "inparam"
				}
			case 2:
				q.Set("application_name", "my app")
				src.app = "my app"
			}
		} else {
			switch c.Pick(3) {
			case 0:
				q.Set("encrypt", "disable")
			case 1:
				q.Set("app name", "my app")
				src.app = "my app"
			}
			if n := c.Pick(3); n > 0 {
				q.Set([]string{"database", "Database"}[n-1], "inparam") // in any case for the driver
				src.database = "inparam"
			}
		}
		u.RawQuery = q.Encode()
		src.text = u.String()
		return src
	}
	place := func(c *mc.C, src source, how int) string {
		write := func(s string) string {
			f := filepath.Join(dir, fmt.Sprint("cfg", how))
			if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
				panic(err)
			}
			return "file://" + f
		}
		switch how {
		case 1:
			return `"` + src.text + `"`
		case 2:
			return "  " + src.text + "\n"
		case 3:
			return write(src.text)
		case 4:
			return write(src.text + "\n")
		case 5:
			return write(`"` + src.text + "\"\n")
		case 6:
			_ = os.Setenv("VERIF_DS", src.text)
			return "env://VERIF_DS"
		case 7:
			_ = os.Setenv("VERIF_DS", ` "`+src.text+`" `)
			return "env://VERIF_DS"
		}
		return src.text
	}
	check := func(c *mc.C, s *server, src source, text, db string) {
		c.Log("%s requested %q", text, db)
		want := login{src.user, src.password, db, src.app}
		if db == "" {
			want.database = src.database
		}
		same := func(l login) bool {
			if want.app == "" {
				l.app = ""
			}
			if want.database == "" && src.kind == "postgres" && l.database == l.user {
				l.database = ""
			}
			return l == want
		}
		s.reset(false, false)
		how := c.Pick(2)
		var connstr, driver string
		if how == 0 {
			d, drv, cs, err := xdb.Open(text, db)
			if err != nil {
				c.Fail("open", "%v", err)
				return
			}
			connstr, driver = cs, drv
			defer d.Close()
		} else {
			p, err := xdb.NewProvider(text, db, nil, nil)
			if err != nil {
				c.Fail("open", "%v", err)
				return
			}
			connstr, driver = p.ConnectionString(), p.Name()
			defer p.Close()
		}
		c.Step()
		if driver != src.kind {
			c.Fail("driver", "%s", driver)
		}
		l := s.seen()
		if len(l) == 0 {
			c.Fail("not connected", "")
			return
		}
		for _, x := range l {
			if !same(x) {
				c.Fail("logged in as", "%v, expected %v", x, want)
			}
		}
		// the reported connection string leads to the same place
		s.reset(false, false)
		again, err := sql.Open(driver, connstr)
		if err == nil {
			err = again.PingContext(context.Background())
			_ = again.Close()
		}
		if err != nil {
			c.Fail("connection string", "%q: %v", connstr, err)
		} else {
			for _, x := range s.seen() {
				if !same(x) {
					c.Fail("connection string leads to", "%v, expected %v", x, want)
				}
			}
		}
		p, err := xdb.ParseConnectionString(connstr)
		if err != nil || p.Driver != src.kind || p.User != src.user || p.Password != src.password || p.Database != want.database {
			c.Fail("parsed connection string", "%q: %+v %v", connstr, p, err)
		}
		c.Run().State(fmt.Sprint(src, db))
		c.Run().Outcome(fmt.Sprint(l))
	}
	kinds := []string{"postgres", "sqlserver"}
	r.Explore(mc.Opt{Part: "requested database", Procs: true}, func(c *mc.C) {
		s := start(kinds[c.Pick(2)])
		src := make_(c, s, users, passwords)
		check(c, s, src, src.text, requested[c.Pick(len(requested))])
		if !s.drained() {
			c.Fail("connection left open", "")
		}
	})
	r.Explore(mc.Opt{Part: "place of the data source", Procs: true}, func(c *mc.C) {
		s := start(kinds[c.Pick(2)])
		src := make_(c, s, users[:1], passwords)
		check(c, s, src, place(c, src, c.Pick(8)), []string{"", "testdb"}[c.Pick(2)])
	})
	// long names, long passwords, many parameters
	r.Explore(mc.Opt{Part: "sizes", Procs: true}, func(c *mc.C) {
		s := start(kinds[c.Pick(2)])
		what := c.Pick(5)
		max := mc.Q(r, 270, 4200)
		if what == 4 {
			max = 70
		} else if s.kind == "sqlserver" && max > 1100 {
			max = 1100
		}
		lens := mc.Sizes(max)
		n := lens[c.Pick(len(lens))]
		if n == 0 {
			n = 1
		}
		// parts of a text can be told from each other
		long := func(n int, sep string) string {
			var b strings.Builder
			for i := 0; b.Len() < n; i++ {
				fmt.Fprintf(&b, "%c%d%s", 'a'+i%26, i, sep)
			}
			return b.String()[:n-1] + "z"
		}
		src := source{kind: s.kind, user: "u1", password: "p2"}
		q := url.Values{}
		if s.kind == "postgres" {
			q.Set("sslmode", "disable")
		} else {
			q.Set("encrypt", "disable")
		}
		db := ""
		switch what {
		case 0:
			src.user = long(n, "@")
		case 1:
			src.password = long(n, "/")
		case 2:
			db = long(n, "&")
		case 3:
			src.app = long(n, " ")
			q.Set(map[string]string{"postgres": "application_name", "sqlserver": "app name"}[s.kind], src.app)
		case 4:
			for i := 0; i < n; i++ {
				if s.kind == "postgres" {
					q.Set(fmt.Sprintf("ext.p%d", i), fmt.Sprint(i))
				} else {
					q.Set(fmt.Sprintf("zz%d", i), fmt.Sprint(i))
				}
			}
		}
		how := c.Pick(3) * 2
		if c.Flag() {
			src.database = "inparam"
			q.Set("database", src.database)
		}
		u := &url.URL{Scheme: s.kind, User: url.UserPassword(src.user, src.password), Host: fmt.Sprintf("127.0.0.1:%d", s.port()), RawQuery: q.Encode()}
		src.text = u.String()
		if n > 800 && what != 1 {
			how = 0 // more than a server takes: only what the source is parsed into
		}
		text := place(c, src, how)
		p, err := xdb.ParseConnectionString(text)
		if err != nil || p.Driver != src.kind || p.User != src.user || p.Password != src.password || p.Database != src.database || p.Source != src.text || len(p.Params) != len(q) {
			c.Fail("parsed source", "%d: %+v %v", n, p, err)
			return
		}
		for k := range q {
			if v, ok := p.Params[k]; !ok || v != q.Get(k) {
				c.Fail("parsed parameter", "%s=%s", k, v)
			}
		}
		if n > 800 && what != 1 {
			c.Step()
			c.Run().State(text)
			return
		}
		check(c, s, src, text, db)
		if !s.drained() {
			c.Fail("connection left open", "")
		}
	})
	r.Explore(mc.Opt{Part: "parse", Procs: true}, func(c *mc.C) {
		s := start(kinds[c.Pick(2)])
		src := make_(c, s, users, passwords)
		u0, err := url.Parse(src.text)
		if err != nil {
			panic(err)
		}
		switch c.Pick(3) {
		case 1:
			u0.User, src.password = url.User(src.user), ""
		case 2:
			u0.User, src.user, src.password = nil, "", ""
		}
		// more parameters, in the notation they were given
		if m := []string{"", "Trust+Server%3d1=Yes", "search_path=A%2cb%26c", "x=1&X=2&x=3", "Database2=%c3%bc+%25&UPPER", "e="}[c.Pick(6)]; m != "" {
			if u0.RawQuery != "" {
				m = "&" + m
			}
			u0.RawQuery += m
		}
		src.text = u0.String()
		text := place(c, src, c.Pick(8))
		c.Log("%s", text)
		c.Step()
		p, err := xdb.ParseConnectionString(text)
		if err != nil || p.Driver != src.kind || p.User != src.user || p.Password != src.password || p.Database != src.database || p.Source != src.text {
			c.Fail("parsed source", "%+v %v", p, err)
			return
		}
		u, _ := url.Parse(src.text)
		if p.Host != u.Host || len(p.Params) != len(u.Query()) {
			c.Fail("parsed source", "%+v", p)
		}
		for k := range u.Query() {
			if v, ok := p.Params[k]; !ok || v != u.Query().Get(k) {
				c.Fail("parsed parameter", "%s=%s", k, p.Params[k])
			}
		}
		c.Run().State(text)
	})
	r.Explore(mc.Opt{Part: "failures", Procs: true}, func(c *mc.C) {
		s := start(kinds[c.Pick(2)])
		src := make_(c, s, users[:1], passwords[:1])
		db := []string{"", "testdb"}[c.Pick(2)]
		how := c.Pick(9)
		prov := how > 6 || c.Flag()
		text := src.text
		var mig *xdb.MigrationConfig
		s.reset(how == 0, how == 1)
		reached := 0
		switch how {
		case 0, 1:
			reached = 1
		case 2:
			text = "file:///nonexistent/ds"
		case 3:
			_ = os.Unsetenv("VERIF_NONE")
			text = "env://VERIF_NONE"
		case 4:
			text = "oracle" + strings.TrimPrefix(text, s.kind)
		case 5:
			text = strings.Replace(text, "://", "://%zz", 1)
		case 6:
			text = "secret://x"
		case 7: // migrations that are not there
			mig = &xdb.MigrationConfig{Source: filepath.Join(dir, "nonexistent")}
			reached = 1
		case 8: // migrations that fail: the server refuses to answer their statements with rows
			mig = &xdb.MigrationConfig{Source: dir}
			reached = 1
		}
		c.Log("failure %d of %s", how, text)
		c.Step()
		var err error
		if prov {
			var p xdb.Provider
			p, err = xdb.NewProvider(text, db, nil, mig)
			if err == nil || p != nil {
				c.Fail("failure not reported", "%v %v", p, err)
			}
		} else {
			var d *sql.DB
			d, _, _, err = xdb.Open(text, db)
			if err == nil || d != nil {
				c.Fail("failure not reported", "%v %v", d, err)
			}
		}
		if err != nil && strings.Contains(err.Error(), src.password) && src.password != "p2" {
			c.Fail("password in the message", "%v", err)
		}
		if !s.drained() {
			c.Fail("connection left open", "after %v", err)
		}
		if n := len(s.seen()); (n > 0) != (reached > 0) {
			c.Fail("connected", "%d times", n)
		}
		c.Run().State(fmt.Sprint(how, prov, text, db))
	})
}
