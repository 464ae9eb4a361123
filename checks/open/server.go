package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"
	"unicode/utf16"
)

// login is what a server was told.
type login struct {
	user, password, database, app string
}

// server speaks enough of the PostgreSQL and the SQL Server protocol to log in and to answer pings.
type server struct {
	kind   string
	l      net.Listener
	mu     sync.Mutex
	logins []login
	open   int
	refuse bool // refuse the login
	noPing bool // refuse statements
}

func listen(kind string) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{kind: kind, l: l}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open++
			s.mu.Unlock()
			go func() {
				defer func() {
					_ = c.Close()
					s.mu.Lock()
					s.open--
					s.mu.Unlock()
				}()
				_ = c.SetDeadline(time.Now().Add(30 * time.Second))
				if kind == "postgres" {
					s.pg(c)
				} else {
					s.tds(c)
				}
			}()
		}
	}()
	return s
}

func (s *server) port() int { return s.l.Addr().(*net.TCPAddr).Port }

func (s *server) reset(refuse, noPing bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.logins, s.refuse, s.noPing = nil, refuse, noPing
}

func (s *server) seen() []login {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]login{}, s.logins...)
}

// drained waits for the clients to go away.
func (s *server) drained() bool {
	for i := 0; i < 20000; i++ {
		s.mu.Lock()
		n := s.open
		s.mu.Unlock()
		if n == 0 {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

func (s *server) record(l login) (refuse bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.logins = append(s.logins, l)
	return s.refuse
}

func msg(kind byte, body []byte) []byte {
	b := []byte{kind}
	b = binary.BigEndian.AppendUint32(b, uint32(len(body)+4))
	return append(b, body...)
}

func (s *server) pg(c net.Conn) {
	r := bufio.NewReader(c)
	var n uint32
	if binary.Read(r, binary.BigEndian, &n) != nil || n < 8 || n > 100000 {
		return
	}
	b := make([]byte, n-4)
	if _, err := io.ReadFull(r, b); err != nil {
		return
	}
	kv := map[string]string{}
	var parts []string
	start := 4
	for i := 4; i < len(b); i++ {
		if b[i] == 0 {
			parts = append(parts, string(b[start:i]))
			start = i + 1
		}
	}
	for i := 0; i+1 < len(parts); i += 2 {
		kv[parts[i]] = parts[i+1]
	}
	_, _ = c.Write(msg('R', []byte{0, 0, 0, 3}))
	read := func() (byte, []byte, bool) {
		k, err := r.ReadByte()
		if err != nil || binary.Read(r, binary.BigEndian, &n) != nil || n < 4 || n > 100000 {
			return 0, nil, false
		}
		b := make([]byte, n-4)
		_, err = io.ReadFull(r, b)
		return k, b, err == nil
	}
	k, body, ok := read()
	if !ok || k != 'p' {
		return
	}
	fail := msg('E', []byte("SFATAL\x00VFATAL\x00C28P01\x00Mrefused\x00\x00"))
	if s.record(login{kv["user"], string(body[:len(body)-1]), kv["database"], kv["application_name"]}) {
		_, _ = c.Write(fail)
		return
	}
	_, _ = c.Write(append(msg('R', []byte{0, 0, 0, 0}), msg('Z', []byte{'I'})...))
	for {
		k, _, ok := read()
		if !ok || k == 'X' {
			return
		}
		if s.noPing {
			_, _ = c.Write(append(msg('E', []byte("SERROR\x00VERROR\x00C42601\x00Mrefused\x00\x00")), msg('Z', []byte{'I'})...))
			continue
		}
		_, _ = c.Write(append(msg('I', nil), msg('Z', []byte{'I'})...))
	}
}

func (s *server) tds(c net.Conn) {
	r := bufio.NewReader(c)
	read := func() (byte, []byte, bool) {
		var all []byte
		for {
			var h [8]byte
			if _, err := io.ReadFull(r, h[:]); err != nil {
				return 0, nil, false
			}
			n := int(binary.BigEndian.Uint16(h[2:])) - 8
			if n < 0 {
				return 0, nil, false
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(r, b); err != nil {
				return 0, nil, false
			}
			all = append(all, b...)
			if h[1]&1 != 0 {
				return h[0], all, true
			}
		}
	}
	write := func(b []byte) {
		h := []byte{4, 1, 0, 0, 0, 0, 1, 0}
		binary.BigEndian.PutUint16(h[2:], uint16(len(b)+8))
		_, _ = c.Write(append(h, b...))
	}
	if k, _, ok := read(); !ok || k != 0x12 {
		return
	}
	write([]byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff, 15, 0, 0, 0, 0, 0, 2})
	k, b, ok := read()
	if !ok || k != 0x10 || len(b) < 94 {
		return
	}
	field := func(at int) []byte {
		o, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
		if o+2*n > len(b) {
			return nil
		}
		return b[o : o+2*n]
	}
	text := func(f []byte) string {
		var u []uint16
		for i := 0; i+1 < len(f); i += 2 {
			u = append(u, binary.LittleEndian.Uint16(f[i:]))
		}
		return string(utf16.Decode(u))
	}
	pw := append([]byte{}, field(44)...)
	for i := range pw {
		x := pw[i] ^ 0xA5
		pw[i] = x<<4 | x>>4
	}
	done := []byte{0xFD, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	errTok := func() []byte {
		m := utf16.Encode([]rune("refused"))
		body := []byte{0x18, 0x48, 0, 0, 1, 14}
		body = binary.LittleEndian.AppendUint16(body, uint16(len(m)))
		for _, x := range m {
			body = binary.LittleEndian.AppendUint16(body, x)
		}
		body = append(body, 0, 0, 1, 0, 0, 0)
		t := binary.LittleEndian.AppendUint16([]byte{0xAA}, uint16(len(body)))
		t = append(t, body...)
		return append(t, 0xFD, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	if s.record(login{text(field(40)), text(pw), text(field(68)), text(field(48))}) {
		write(errTok())
		return
	}
	name := []byte{'x', 0}
	ack := []byte{0xAD, byte(10 + len(name)), 0, 1, 0x74, 0, 0, 4, byte(len(name) / 2)}
	ack = append(append(ack, name...), 15, 0, 0, 0)
	write(append(ack, done...))
	for {
		if _, _, ok := read(); !ok {
			return
		}
		if s.noPing {
			write(errTok())
			continue
		}
		write(done)
	}
}

func (l login) String() string {
	return fmt.Sprintf("user=%q password=%q database=%q app=%q", l.user, l.password, l.database, l.app)
}
