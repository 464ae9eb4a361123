package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"verif.local/vlib/fakedb"
)

// wire is a server that speaks enough of the PostgreSQL and of the SQL Server protocol to log in
// and to answer questions.
type wire struct {
	dialect string
	l       net.Listener
	mu      sync.Mutex
	answer  func(o *fakedb.Op) (*fakedb.Result, error)
	// what happens instead of the responses with these numbers
	faults    map[int]string
	responses int
	happened  int
	logins    []string
	asked     []string
	conns     map[net.Conn]bool
}

func serve(dialect string) *wire {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &wire{dialect: dialect, l: l, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			go func() {
				defer func() {
					_ = c.Close()
					s.mu.Lock()
					delete(s.conns, c)
					s.mu.Unlock()
				}()
				_ = c.SetDeadline(time.Now().Add(100 * time.Second))
				if dialect == "postgres" {
					s.pg(c)
				} else {
					s.tds(c)
				}
			}()
		}
	}()
	return s
}

func (s *wire) port() int { return s.l.Addr().(*net.TCPAddr).Port }

func (s *wire) reset(answer func(o *fakedb.Op) (*fakedb.Result, error), faults map[int]string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		_ = c.Close()
	}
	s.answer, s.faults, s.responses, s.happened, s.logins, s.asked = answer, faults, 0, 0, nil, nil
}

// respond sends a response, or lets happen what is to happen instead; failed is how an error looks.
func (s *wire) respond(c net.Conn, b, failed []byte) bool {
	s.mu.Lock()
	s.responses++
	f := s.faults[s.responses]
	if f != "" {
		s.happened++
	}
	s.mu.Unlock()
	switch f {
	case "close":
		return false
	case "cut":
		_, _ = c.Write(b[:len(b)/2])
		return false
	case "last byte":
		_, _ = c.Write(b[:len(b)-1])
		return false
	case "error":
		_, _ = c.Write(failed)
		return true
	case "error and close":
		_, _ = c.Write(failed)
		return false
	case "error after":
		// some of the rows have been sent
		if i := strings.LastIndex(string(b), lastRow(s.dialect)); i > 0 {
			b = b[:i]
		}
		_, _ = c.Write(append(append([]byte{}, b...), failed...))
		return true
	}
	_, err := c.Write(b)
	return err == nil
}

// lastRow is where the end of the rows begins.
func lastRow(dialect string) string {
	if dialect == "postgres" {
		return "C\x00\x00\x00\x0dSELECT 1"
	}
	return "\xFD\x10\x00\xC1\x00"
}

func (s *wire) login(user, password, database string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.logins = append(s.logins, fmt.Sprintf("%q %q %q", user, password, database))
}

// rows is the answer in text; nil stands for NULL.
func (s *wire) rows(sql string, args []any, names []string) (cols []string, rows [][]*string, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := strings.TrimSpace(strings.TrimRight(strings.TrimSpace(sql), ";"))
	if q == "" {
		return nil, nil, nil
	}
	s.asked = append(s.asked, q)
	if strings.EqualFold(q, "select 1") {
		one := "1"
		return []string{"one"}, [][]*string{{&one}}, nil
	}
	if s.answer == nil {
		return nil, nil, fmt.Errorf("no catalogue")
	}
	res, err := s.answer(&fakedb.Op{Kind: "query", SQL: q, Args: args, Names: names})
	if err != nil {
		return nil, nil, err
	}
	for _, r := range res.Rows {
		var l []*string
		for _, v := range r {
			var t string
			switch x := v.(type) {
			case nil:
				l = append(l, nil)
				continue
			case bool:
				t = map[bool]string{false: "0", true: "1"}[x]
			case []byte:
				t = string(x)
			default:
				t = fmt.Sprint(x)
			}
			l = append(l, &t)
		}
		rows = append(rows, l)
	}
	return res.Cols, rows, nil
}

func pgMsg(kind byte, body []byte) []byte {
	b := []byte{kind}
	b = binary.BigEndian.AppendUint32(b, uint32(len(body)+4))
	return append(b, body...)
}

var pgParam = regexp.MustCompile(`\$(\d+)`)

func (s *wire) pg(c net.Conn) {
	r := bufio.NewReader(c)
	var n uint32
	if binary.Read(r, binary.BigEndian, &n) != nil || n < 8 || n > 100000 {
		return
	}
	b := make([]byte, n-4)
	if _, err := io.ReadFull(r, b); err != nil {
		return
	}
	kv := map[string]string{}
	parts := strings.Split(string(b[4:]), "\x00")
	for i := 0; i+1 < len(parts); i += 2 {
		kv[parts[i]] = parts[i+1]
	}
	fatal := func(code string) []byte {
		return pgMsg('E', []byte("SFATAL\x00VFATAL\x00C"+code+"\x00Mrefused\x00\x00"))
	}
	ready := pgMsg('Z', []byte{'I'})
	failure := func(m string) []byte {
		return pgMsg('E', []byte("SERROR\x00VERROR\x00C42501\x00M"+m+"\x00\x00"))
	}
	if !s.respond(c, pgMsg('R', []byte{0, 0, 0, 3}), fatal("3D000")) {
		return
	}
	read := func() (byte, []byte, bool) {
		k, err := r.ReadByte()
		if err != nil || binary.Read(r, binary.BigEndian, &n) != nil || n < 4 || n > 1<<20 {
			return 0, nil, false
		}
		b := make([]byte, n-4)
		_, err = io.ReadFull(r, b)
		return k, b, err == nil
	}
	k, body, ok := read()
	if !ok || k != 'p' || len(body) == 0 {
		return
	}
	s.login(kv["user"], string(body[:len(body)-1]), kv["database"])
	if !s.respond(c, append(pgMsg('R', []byte{0, 0, 0, 0}), ready...), fatal("28P01")) {
		return
	}
	type bound struct {
		sql  string
		args []any
	}
	stmts := map[string]string{}
	portals := map[string]bound{}
	describe := func(cols []string) []byte {
		if len(cols) == 0 {
			return pgMsg('n', nil)
		}
		d := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
		for _, x := range cols {
			d = append(append(d, x...), 0)
			d = append(d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 25, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
		}
		return pgMsg('T', d)
	}
	data := func(rows [][]*string) (b []byte) {
		for _, l := range rows {
			d := binary.BigEndian.AppendUint16(nil, uint16(len(l)))
			for _, v := range l {
				if v == nil {
					d = append(d, 0xff, 0xff, 0xff, 0xff)
					continue
				}
				d = append(binary.BigEndian.AppendUint32(d, uint32(len(*v))), *v...)
			}
			b = append(b, pgMsg('D', d)...)
		}
		return append(b, pgMsg('C', []byte("SELECT 1\x00"))...)
	}
	text := func(b *[]byte) string {
		i := strings.IndexByte(string(*b), 0)
		if i < 0 {
			return ""
		}
		t := string((*b)[:i])
		*b = (*b)[i+1:]
		return t
	}
	var out []byte
	failed := false
	fail := func(err error) {
		out = append(out, failure(err.Error())...)
		failed = true
	}
	for {
		k, body, ok := read()
		if !ok || k == 'X' {
			return
		}
		if failed && k != 'S' {
			continue
		}
		switch k {
		case 'Q':
			cols, rows, err := s.rows(text(&body), nil, nil)
			switch {
			case err != nil:
				out = failure(err.Error())
			case cols == nil:
				out = pgMsg('I', nil)
			default:
				out = append(describe(cols), data(rows)...)
			}
			if !s.respond(c, append(out, ready...), append(failure("refused"), ready...)) {
				return
			}
			out = nil
		case 'P':
			name := text(&body)
			stmts[name] = text(&body)
			out = append(out, pgMsg('1', nil)...)
		case 'D':
			what := body[0]
			body = body[1:]
			q := stmts[text(&body)]
			if what == 'P' {
				q = portals[""].sql
			}
			m := 0
			for _, x := range pgParam.FindAllStringSubmatch(q, -1) {
				i := 0
				_, _ = fmt.Sscan(x[1], &i)
				m = max(m, i)
			}
			if what == 'S' {
				d := binary.BigEndian.AppendUint16(nil, uint16(m))
				for i := 0; i < m; i++ {
					d = append(d, 0, 0, 0, 25)
				}
				out = append(out, pgMsg('t', d)...)
			}
			args, names := make([]any, m), make([]string, m)
			for i := range args {
				args[i] = ""
			}
			cols, _, err := s.rows(q, args, names)
			if err != nil {
				fail(err)
				break
			}
			out = append(out, describe(cols)...)
		case 'B':
			portal := text(&body)
			q := stmts[text(&body)]
			short := func() int {
				if len(body) < 2 {
					return 0
				}
				x := int(binary.BigEndian.Uint16(body))
				body = body[2:]
				return x
			}
			for i := short(); i > 0; i-- {
				short()
			}
			var args []any
			for i := short(); i > 0; i-- {
				if len(body) < 4 {
					return
				}
				l := int32(binary.BigEndian.Uint32(body))
				body = body[4:]
				if l < 0 {
					args = append(args, nil)
					continue
				}
				args = append(args, string(body[:l]))
				body = body[l:]
			}
			portals[portal] = bound{q, args}
			out = append(out, pgMsg('2', nil)...)
		case 'E':
			p := portals[text(&body)]
			cols, rows, err := s.rows(p.sql, p.args, make([]string, len(p.args)))
			switch {
			case err != nil:
				fail(err)
			case cols == nil:
				out = append(out, pgMsg('I', nil)...)
			default:
				out = append(out, data(rows)...)
			}
		case 'C':
			out = append(out, pgMsg('3', nil)...)
		case 'S':
			failed = false
			if !s.respond(c, append(out, ready...), append(failure("refused"), ready...)) {
				return
			}
			out = nil
		}
	}
}

func ucs2(t string) (b []byte) {
	for _, x := range utf16.Encode([]rune(t)) {
		b = binary.LittleEndian.AppendUint16(b, x)
	}
	return b
}

func fromUCS2(b []byte) string {
	var u []uint16
	for i := 0; i+1 < len(b); i += 2 {
		u = append(u, binary.LittleEndian.Uint16(b[i:]))
	}
	return string(utf16.Decode(u))
}

func (s *wire) tds(c net.Conn) {
	r := bufio.NewReader(c)
	read := func() (byte, []byte, bool) {
		var all []byte
		for {
			var h [8]byte
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return 0, nil, false
			}
			n := int(binary.BigEndian.Uint16(h[2:])) - 8
			if n < 0 {
				return 0, nil, false
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(r, b); err != nil {
				return 0, nil, false
			}
			all = append(all, b...)
			if h[1]&1 != 0 {
				return h[0], all, true
			}
		}
	}
	packet := func(b []byte) (l []byte) {
		for {
			n := min(len(b), 3000)
			last := byte(0)
			if n == len(b) {
				last = 1
			}
			h := []byte{4, last, 0, 0, 0, 0, 1, 0}
			binary.BigEndian.PutUint16(h[2:], uint16(n+8))
			l = append(append(l, h...), b[:n]...)
			if b = b[n:]; len(b) == 0 {
				return l
			}
		}
	}
	done := []byte{0xFD, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	errTok := func(m string) []byte {
		u := ucs2(m)
		body := []byte{0x18, 0x48, 0, 0, 1, 14}
		body = binary.LittleEndian.AppendUint16(body, uint16(len(u)/2))
		body = append(append(body, u...), 0, 0, 1, 0, 0, 0)
		t := binary.LittleEndian.AppendUint16([]byte{0xAA}, uint16(len(body)))
		t = append(t, body...)
		return append(t, 0xFD, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	refused := packet(errTok("refused"))
	if k, _, ok := read(); !ok || k != 0x12 {
		return
	}
	if !s.respond(c, packet([]byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff, 15, 0, 0, 0, 0, 0, 2}), refused) {
		return
	}
	k, b, ok := read()
	if !ok || k != 0x10 || len(b) < 94 {
		return
	}
	field := func(at int) []byte {
		o, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
		if o+2*n > len(b) {
			return nil
		}
		return b[o : o+2*n]
	}
	pw := append([]byte{}, field(44)...)
	for i := range pw {
		x := pw[i] ^ 0xA5
		pw[i] = x<<4 | x>>4
	}
	s.login(fromUCS2(field(40)), fromUCS2(pw), fromUCS2(field(68)))
	name := []byte{'x', 0}
	ack := []byte{0xAD, byte(10 + len(name)), 0, 1, 0x74, 0, 0, 4, byte(len(name) / 2)}
	ack = append(append(ack, name...), 15, 0, 0, 0)
	if !s.respond(c, packet(append(ack, done...)), refused) {
		return
	}
	collation := []byte{9, 4, 0xD0, 0, 0x34}
	for {
		k, b, ok := read()
		if !ok {
			return
		}
		// the headers
		if len(b) >= 4 {
			if n := int(binary.LittleEndian.Uint32(b)); n <= len(b) {
				b = b[n:]
			}
		}
		var sql string
		var args []any
		var names []string
		switch k {
		case 1:
			sql = fromUCS2(b)
		case 3:
			sql, args, names, ok = rpc(b)
			if !ok {
				return
			}
		default:
			_, _ = c.Write(packet(done))
			continue
		}
		cols, rows, err := s.rows(sql, args, names)
		var out []byte
		switch {
		case err != nil:
			out = errTok(err.Error())
		case cols == nil:
			out = done
		default:
			out = binary.LittleEndian.AppendUint16([]byte{0x81}, uint16(len(cols)))
			for _, x := range cols {
				out = append(out, 0, 0, 0, 0, 9, 0, 0xE7, 0x40, 0x1F)
				out = append(out, collation...)
				u := ucs2(x)
				out = append(append(out, byte(len(u)/2)), u...)
			}
			for _, l := range rows {
				out = append(out, 0xD1)
				for _, v := range l {
					if v == nil {
						out = append(out, 0xff, 0xff)
						continue
					}
					u := ucs2(*v)
					out = append(binary.LittleEndian.AppendUint16(out, uint16(len(u))), u...)
				}
			}
			out = append(out, 0xFD, 0x10, 0, 0xC1, 0)
			out = binary.LittleEndian.AppendUint64(out, uint64(len(rows)))
		}
		f := errTok("refused")
		fault := packet(f)
		// an error after some rows is in one packet with them
		s.mu.Lock()
		after := s.faults[s.responses+1] == "error after"
		s.mu.Unlock()
		if after {
			if i := strings.LastIndex(string(out), lastRow("sqlserver")); i > 0 {
				out = append(append([]byte{}, out[:i]...), f...)
			} else {
				out = f
			}
			fault = nil
			s.mu.Lock()
			s.responses++
			s.happened++
			s.mu.Unlock()
			if _, err := c.Write(packet(out)); err != nil {
				return
			}
			continue
		}
		if !s.respond(c, packet(out), fault) {
			return
		}
	}
}

// rpc reads a call of sp_executesql.
func rpc(b []byte) (sql string, args []any, names []string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	u16 := func() int {
		x := int(binary.LittleEndian.Uint16(b))
		b = b[2:]
		return x
	}
	take := func(n int) []byte {
		x := b[:n]
		b = b[n:]
		return x
	}
	if n := u16(); n == 0xFFFF {
		u16()
	} else {
		take(2 * n)
	}
	u16()
	for i := 0; len(b) > 0; i++ {
		name := fromUCS2(take(2 * int(take(1)[0])))
		take(1)
		var v any
		switch t := take(1)[0]; t {
		case 0xE7: // nvarchar
			size := u16()
			take(5)
			if size == 0xFFFF {
				total := binary.LittleEndian.Uint64(take(8))
				if total == 1<<64-1 {
					break
				}
				var all []byte
				for {
					n := int(binary.LittleEndian.Uint32(take(4)))
					if n == 0 {
						break
					}
					all = append(all, take(n)...)
				}
				v = fromUCS2(all)
			} else if n := u16(); n != 0xFFFF {
				v = fromUCS2(take(n))
			}
		case 0x26: // integer
			take(1)
			n := int(take(1)[0])
			var x uint64
			for j, y := range take(n) {
				x |= uint64(y) << (8 * j)
			}
			v = int64(x)
		default:
			return "", nil, nil, false
		}
		switch i {
		case 0:
			sql, _ = v.(string)
		case 1:
		default:
			args, names = append(args, v), append(names, strings.TrimPrefix(name, "@"))
		}
	}
	return sql, args, names, true
}
