# changes of the program; the demonstrations call it with a server of their own
D = '''package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
)

// zzServer speaks the login of PostgreSQL; after it, every question is answered by answer.
type zzServer struct {
	net.Listener
	mu     sync.Mutex
	logins []string
	refuse string
	answer func(n int, c net.Conn) bool
}

func zzMsg(k byte, b string) []byte {
	return append(binary.BigEndian.AppendUint32([]byte{k}, uint32(len(b)+4)), b...)
}

func zzServe(t *testing.T) *zzServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &zzServer{Listener: l}
	t.Cleanup(func() { _ = l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.talk(c)
		}
	}()
	return s
}

func (s *zzServer) talk(c net.Conn) {
	defer c.Close()
	var n uint32
	if binary.Read(c, binary.BigEndian, &n) != nil {
		return
	}
	b := make([]byte, n-4)
	if _, err := io.ReadFull(c, b); err != nil {
		return
	}
	parts := strings.Split(string(b[4:]), "\\x00")
	db := ""
	for i := 0; i+1 < len(parts); i += 2 {
		if parts[i] == "database" {
			db = parts[i+1]
		}
	}
	s.mu.Lock()
	s.logins = append(s.logins, db)
	s.mu.Unlock()
	if db == s.refuse {
		_, _ = c.Write(zzMsg('E', "SFATAL\\x00C3D000\\x00Mno such database\\x00\\x00"))
		return
	}
	_, _ = c.Write(append(zzMsg('R', "\\x00\\x00\\x00\\x00"), zzMsg('Z', "I")...))
	for i := 0; ; i++ {
		var h [5]byte
		if _, err := io.ReadFull(c, h[:]); err != nil || h[0] == 'X' {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		if h[0] != 'Q' && h[0] != 'S' {
			continue
		}
		if strings.Trim(string(b), ";\\x00 ") == "" {
			_, _ = c.Write(append(zzMsg('I', ""), zzMsg('Z', "I")...))
			continue
		}
		if s.answer == nil || !s.answer(i, c) {
			return
		}
	}
}

func (s *zzServer) source() string {
	return fmt.Sprintf("postgres://u:p@127.0.0.1:%d/other?sslmode=disable", s.Addr().(*net.TCPAddr).Port)
}

type zzExit int

// zzRun gives the status of the program.
func zzRun(args ...string) (code int, out, errs string) {
	var o, e bytes.Buffer
	defer func() {
		if p := recover(); p != nil {
			x, ok := p.(zzExit)
			if !ok {
				panic(p)
			}
			code, out, errs = int(x), o.String(), e.String()
		}
	}()
	realMain(append([]string{"xdbcli"}, args...), &o, &e, func(c int) { panic(zzExit(c)) })
	return 0, o.String(), e.String()
}

// zzEmpty answers with no rows of n columns.
func zzEmpty(n int) []byte {
	d := string([]byte{0, byte(n)})
	for i := 0; i < n; i++ {
		d += "c\\x00" + "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x19\\xff\\xff\\xff\\xff\\xff\\xff\\x00\\x00"
	}
	return append(append(zzMsg('T', d), zzMsg('C', "SELECT 0\\x00")...), zzMsg('Z', "I")...)
}
'''
CLI = "internal/cli/cli.go"
MAIN = "cmd/xdbcli/main.go"

plant("A01-fallback", "A01", [(CLI, '''		d, err := xdb.NewProvider(c.SQLSource, dbname, nil, nil)
		if err != nil {
			return nil, err
		}
''', '''		d, err := xdb.NewProvider(c.SQLSource, dbname, nil, nil)
		if d == nil {
			// the source may name the database already
			d, err = xdb.NewProvider(c.SQLSource, "", nil, nil)
			if err != nil {
				return nil, err
			}
		}
''')], "cmd/xdbcli", D + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	s.refuse = "mine"
	s.answer = func(n int, c net.Conn) bool {
		_, _ = c.Write(zzEmpty(7))
		return true
	}
	code, out, _ := zzRun("schema", "foreign-keys", "--db", "mine", "--sql-source", s.source())
	if code == 0 {
		t.Fatal(out, s.logins)
	}
	for _, db := range s.logins {
		if db != "mine" {
			t.Fatal(s.logins)
		}
	}
}
''', "a login to the requested database that fails, and one to the database of the data source that does not", "the keys of another database are printed, with status 0")

plant("A01-lost", "A01", [(MAIN, '''		err = ctx.Run(&cl.Cli)
		ctx.FatalIfErrorf(err)
''', '''		err = ctx.Run(&cl.Cli)
		if !errors.Is(err, io.EOF) && !errors.Is(err, driver.ErrBadConn) {
			// there is nothing to print when the server is gone
			ctx.FatalIfErrorf(err)
		}
'''), (MAIN, '''import (
	"io"
''', '''import (
	"database/sql/driver"
	"errors"
	"io"
''')], "cmd/xdbcli", D + '''
func TestZZDemo(t *testing.T) {
	s := zzServe(t)
	s.answer = func(n int, c net.Conn) bool {
		b := zzEmpty(7)
		_, _ = c.Write(b[:len(b)-6-14])
		return false
	}
	code, out, errs := zzRun("schema", "foreign-keys", "--db", "mine", "--sql-source", s.source())
	if code == 0 {
		t.Fatalf("%q %q", out, errs)
	}
}
''', "a connection that is lost in the middle of an answer", "the program ends with status 0 and prints nothing")

plant("A01-lists", "A01", [("internal/cli/schema/schema.go", '''type PrintFKCmd struct {
	DB     string   `help:"database name" required:""`
	Schema []string `help:"optional schema name to filter"`
''', '''type PrintFKCmd struct {
	DB     string   `help:"database name" required:""`
	Schema []string `help:"optional schema name to filter" sep:"none"`
''')], "internal/cli/schema", '''package schema

import (
	"testing"

	"github.com/alecthomas/kong"
)

func TestZZDemo(t *testing.T) {
	for _, name := range []string{"foreign-keys", "columns", "tables"} {
		var c Cmd
		p, err := kong.New(&c)
		if err != nil {
			t.Fatal(err)
		}
		if _, err = p.Parse([]string{name, "--db", "x", "--schema", "a,b"}); err != nil {
			t.Fatal(err)
		}
		if len(c.ForeignKeys.Schema)+len(c.Columns.Schema)+len(c.Tables.Schema) != 2 {
			t.Fatal(c.ForeignKeys.Schema, c.Columns.Schema, c.Tables.Schema)
		}
	}
}
''', "several schemas in one flag", "their keys are not printed")
