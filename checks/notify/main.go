// Check of the listener of notifications: N01.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"

	"verif.local/vlib/mc"
	"verif.local/vlib/vsched"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/notifier"
	"github.com/lib/pq"
)

func main() {
	mc.Main(os.Args[1], "model_checking", n01)
}

type prov struct{ xdb.Provider }

func (prov) ConnectionString() string { return "host=localhost" }

// sub is a callback with what it got.
type sub struct {
	mu     sync.Mutex
	topic  string
	got    []string
	bad    []string
	err    error
	ended  bool // Listen has answered
	ctx    context.Context
	cancel context.CancelFunc
	then   func(s *sub, n *notifier.Notification)
}

func (s *sub) call(n *notifier.Notification) {
	s.mu.Lock()
	if n == nil {
		s.bad = append(s.bad, "nothing was passed")
	} else {
		if n.Channel != s.topic {
			s.bad = append(s.bad, fmt.Sprintf("a notification of %s was passed to the callback of %s", n.Channel, s.topic))
		}
		s.got = append(s.got, n.RawPayload)
	}
	s.mu.Unlock()
	if s.then != nil {
		s.then(s, n)
	}
}

func (s *sub) read() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.got...)
}

// world is one execution.
type world struct {
	mu   sync.Mutex
	l    notifier.Listener
	srv  *pq.Listener
	subs []*sub
	sent map[string][]string
	bad  [][2]string
	fail func(op, channel string) error
}

func (w *world) wrong(key, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.bad = append(w.bad, [2]string{key, fmt.Sprintf(f, a...)})
}

func (w *world) start() {
	pq.Listeners = nil
	pq.OnCall = func(_ *pq.Listener, op, channel string) error {
		if w.fail != nil {
			return w.fail(op, channel)
		}
		return nil
	}
	w.l = notifier.NewListener(prov{}, 0, 0)
	w.srv = pq.Listeners[0]
}

// sub makes a callback.
func (w *world) sub(topic string, then func(*sub, *notifier.Notification)) *sub {
	s := &sub{topic: topic, then: then}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	w.mu.Lock()
	w.subs = append(w.subs, s)
	w.mu.Unlock()
	return s
}

// open listens with it.
func (w *world) open(s *sub) {
	err := w.l.Listen(s.ctx, s.topic, s.call)
	s.mu.Lock()
	s.err, s.ended = err, true
	s.mu.Unlock()
}

func (w *world) listen(topic string, then func(*sub, *notifier.Notification)) *sub {
	s := w.sub(topic, then)
	w.open(s)
	return s
}

// failed is the error of the listen.
func (s *sub) failed() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.ended {
		return errors.New("has not answered")
	}
	return s.err
}

// send sends a notification; it answers its payload if it was to arrive.
func (w *world) send(topic string) string {
	w.mu.Lock()
	n := fmt.Sprint(topic, len(w.sent[topic])+1)
	w.mu.Unlock()
	if !w.srv.Deliver(topic, n) {
		return ""
	}
	w.mu.Lock()
	w.sent[topic] = append(w.sent[topic], n)
	w.mu.Unlock()
	return n
}

func (w *world) all(topic string) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]string{}, w.sent[topic]...)
}

// quiet waits until nothing goes on.
func quiet() { vsched.Sleep(1) }

func same(a, b []string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// part says whether a is b with some left out.
func part(a, b []string) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] != x {
			j++
		}
		if j == len(b) {
			return false
		}
		j++
	}
	return true
}

func (w *world) complete(s *sub) {
	if got, want := s.read(), w.all(s.topic); !same(got, want) {
		w.wrong("notifications of a topic", "%s: got %q of %q", s.topic, got, want)
	}
}

func prefix(a, b []string) bool { return len(a) <= len(b) && same(a, b[:len(a)]) }

// end closes the listener: nothing may be left running.
func (w *world) end() {
	if err := w.l.Close(); err != nil {
		w.wrong("close", "%v", err)
	}
	quiet()
	if s := w.listen("late", nil); s.failed() == nil {
		w.wrong("listen after close", "is accepted")
	}
	if err := w.l.Close(); err == nil {
		w.wrong("close again", "is no error")
	}
	quiet()
}

func n01(r *mc.Run) {
	r.Rule("every interleaving within the preemption bound of a listener with its topics, a server that notifies, loses connections and fails, contexts that end and a close, and every choice of a select between what is ready; what each callback got is compared with what was sent")
	r.Assume("pq.Listener is a model of its documentation: one buffered channel in the order of arrival, nil after a reconnect, closed after Close, one LISTEN for a topic at a time")
	type scene struct {
		name string
		alts int // what is chosen for the scene
		do   func(alt int, w *world)
	}
	bound := mc.Q(r, 2, 3)
	par := func(fs ...func()) {
		for _, f := range fs {
			vsched.GoThread(f)
		}
		quiet()
	}
	scenes := []scene{
		{"topics", 1, func(_ int, w *world) {
			a, b := w.listen("a", nil), w.listen("b", nil)
			if a.failed() != nil || b.failed() != nil {
				w.wrong("listen", "%v %v", a.err, b.failed())
			}
			par(func() { w.send("a"); w.send("b"); w.send("c"); w.send("a"); w.send("b") })
			w.complete(a)
			w.complete(b)
			w.end()
		}},
		{"listen while notified", 1, func(_ int, w *world) {
			// what is sent once the server listens arrives, even before Listen has returned
			a, b := w.sub("a", nil), w.sub("b", nil)
			par(func() { w.open(a) }, func() { w.open(b) }, func() {
				for i := 0; i < 2; i++ {
					w.send("a")
					w.send("b")
				}
			})
			w.complete(a)
			w.complete(b)
			w.end()
		}},
		{"a topic twice", 1, func(_ int, w *world) {
			s := [2]*sub{w.sub("a", nil), w.sub("a", nil)}
			par(func() { w.open(s[0]) }, func() { w.open(s[1]) }, func() { w.send("a") })
			w.send("a")
			quiet()
			if (s[0].failed() == nil) == (s[1].failed() == nil) {
				w.wrong("a topic twice", "%v %v", s[0].err, s[1].failed())
			}
			for _, x := range s {
				if x.failed() == nil {
					w.complete(x)
				} else if len(x.read()) > 0 {
					w.wrong("callback of a listen that failed", "%q", x.read())
				}
			}
			w.end()
		}},
		{"context ends", 1, func(_ int, w *world) {
			a, b := w.listen("a", nil), w.listen("b", nil)
			par(func() { w.send("a"); w.send("b"); w.send("a"); w.send("b") }, func() { a.cancel() })
			w.complete(b)
			first := w.all("a")
			if !prefix(a.read(), first) {
				w.wrong("notifications before the end of a context", "got %q of %q", a.read(), first)
			}
			before := len(a.read())
			if w.srv.Deliver("a", "late") {
				w.wrong("still listening", "the context of the topic has ended")
			}
			again := w.listen("a", nil)
			if again.failed() != nil {
				w.wrong("listen again", "%v", again.failed())
			}
			par(func() { w.send("b"); w.send("a") })
			w.complete(b)
			l := w.all("a")
			if !same(again.read(), l[len(first):]) {
				w.wrong("notifications after listening again", "got %q of %q", again.read(), l[len(first):])
			}
			if len(a.read()) != before {
				w.wrong("callback after the end of its context", "%q", a.read())
			}
			w.end()
		}},
		{"connection is lost", 1, func(_ int, w *world) {
			a, b := w.listen("a", nil), w.listen("b", nil)
			par(func() {
				w.send("a")
				w.srv.Lose()
				w.send("b")
				w.srv.Restore()
				w.send("b")
				w.send("a")
			})
			w.complete(a)
			w.complete(b)
			w.end()
		}},
		{"close", 1, func(_ int, w *world) {
			a, b := w.listen("a", nil), w.listen("b", nil)
			par(func() { w.send("a"); w.send("b"); w.send("a") }, func() {
				if err := w.l.Close(); err != nil {
					w.wrong("close", "%v", err)
				}
			}, func() { b.cancel() })
			for _, s := range []*sub{a, b} {
				if !prefix(s.read(), w.all(s.topic)) {
					w.wrong("notifications before the close", "got %q of %q", s.read(), w.all(s.topic))
				}
			}
			if err := w.l.Close(); err == nil {
				w.wrong("close again", "is no error")
			}
		}},
		{"listen and close", 1, func(_ int, w *world) {
			a := w.sub("a", nil)
			par(func() { w.open(a) }, func() { w.send("a") }, func() {
				if err := w.l.Close(); err != nil {
					w.wrong("close", "%v", err)
				}
			})
			if a.failed() != nil && len(a.read()) > 0 {
				w.wrong("callback of a listen that failed", "%q", a.read())
			}
			if !prefix(a.read(), w.all("a")) {
				w.wrong("notifications before the close", "got %q of %q", a.read(), w.all("a"))
			}
		}},
		{"callbacks use the listener", 3, func(how int, w *world) {
			b := w.sub("b", nil)
			a := w.listen("a", func(s *sub, n *notifier.Notification) {
				if n == nil || n.RawPayload != "a1" {
					return
				}
				switch how {
				case 0:
					w.open(b)
				case 1:
					s.cancel()
				case 2:
					_ = w.l.Close()
				}
			})
			par(func() { w.send("a"); w.send("a") })
			w.send("b")
			quiet()
			if how == 0 {
				w.complete(a)
				if b.failed() != nil {
					w.wrong("listen in a callback", "fails")
				} else {
					w.complete(b)
				}
			}
			if how == 1 && w.srv.Deliver("a", "late") {
				w.wrong("still listening", "the context of the topic has ended")
			}
			if how != 2 {
				w.end()
			}
		}},
		{"listen fails", 1, func(_ int, w *world) {
			down := errors.New("not now")
			n := 0
			w.fail = func(op, channel string) error {
				if op == "listen" && channel == "a" {
					if n++; n == 1 {
						return down
					}
				}
				return nil
			}
			b := w.listen("b", nil)
			a := w.listen("a", nil)
			if !errors.Is(a.err, down) {
				w.wrong("error of listen", "%v", a.failed())
			}
			w.send("a")
			a.cancel()
			again := w.listen("a", nil)
			if again.failed() != nil {
				w.wrong("listen again", "%v", again.failed())
			}
			par(func() { w.send("a"); w.send("b") }, func() { w.send("a") })
			w.complete(again)
			w.complete(b)
			if len(a.read()) > 0 {
				w.wrong("callback of a listen that failed", "%q", a.read())
			}
			w.end()
		}},
		{"nothing for a while", 2, func(how int, w *world) {
			if how == 1 {
				w.fail = func(op, channel string) error {
					if op == "ping" {
						return errors.New("no answer")
					}
					return nil
				}
			}
			a := w.listen("a", nil)
			quiet()
			par(func() { w.send("a") }, func() { vsched.Expire() })
			if w.srv.Pings() == 0 {
				w.send("a")
				quiet()
				vsched.Expire()
				quiet()
				if w.srv.Pings() == 0 {
					w.wrong("no ping", "after a time without notifications")
				}
			}
			w.send("a")
			quiet()
			w.complete(a)
			w.end()
		}},
	}
	for _, s := range scenes {
		s := s
		r.ExploreSched(mc.Opt{Part: s.name, Bound: bound, Delays: true}, func(c *mc.C) mc.Sched {
			w := &world{sent: map[string][]string{}}
			alt := c.Pick(s.alts)
			return mc.Sched{Horizon: 3000, Threads: []func(){func() {
				w.start()
				s.do(alt, w)
				for _, x := range w.subs {
					x.cancel()
				}
			}}, After: func(c *mc.C, res vsched.Result) {
				for _, b := range w.bad {
					c.Fail(b[0], "%s", b[1])
				}
				for _, x := range w.subs {
					for _, b := range x.bad {
						c.Fail("callback of another topic", "%s", b)
					}
				}
				c.Run().State(fmt.Sprint(s.name, w.sent, res.Schedule))
			}}
		})
	}
	// what is passed
	payloads := []string{"", "{}", "[]", `{"a":1,"b":{"c":["x",null,true]}}`, `{"a":`, `[1,2]`, `"x"`, "null", "plain text", " {} ", `{"Ü":"\u00fc"}`, `{"a":1}{`, "7", `{"a":{"b":1}}`,
		` {"a": 1}`, "\n\t{\"a\":\n1}\r\n", `{"a":1} trailing`, `{"a":1,"a":2}`, `{"A":1,"a":2}`, `{"n":12345678901234567890,"f":1e3}`, `{"":null}`, "a \n", `[{"a":1}]`, `{"a":"<&>\u2028"}`, "\xff{}", "{\"a\":\"\xff\"}", "{ }", `{"a":[]}`}
	r.ExploreSched(mc.Opt{Part: "payloads", Bound: 0, Delays: true}, func(c *mc.C) mc.Sched {
		i, j := c.Pick(len(payloads)), c.Pick(len(payloads))
		var got []*notifier.Notification
		w := &world{sent: map[string][]string{}}
		return mc.Sched{Horizon: 3000, Threads: []func(){func() {
			w.start()
			s := w.listen("Topic x", func(_ *sub, n *notifier.Notification) { got = append(got, n) })
			w.srv.Deliver("Topic x", payloads[i])
			w.srv.Deliver("Topic x", payloads[j])
			quiet()
			s.cancel()
			w.end()
		}}, After: func(c *mc.C, res vsched.Result) {
			if len(got) != 2 {
				c.Fail("number of notifications", "%d", len(got))
				return
			}
			for k, p := range []string{payloads[i], payloads[j]} {
				n := got[k]
				if n.Channel != "Topic x" || n.RawPayload != p {
					c.Fail("notification", "%+v of %q", n, p)
				}
				want := map[string]any{}
				_ = json.Unmarshal([]byte(p), &want)
				x, _ := json.Marshal(map[string]any(n.Payload))
				y, _ := json.Marshal(want)
				if string(x) == "null" {
					x = []byte("{}")
				}
				if string(y) == "null" {
					y = []byte("{}")
				}
				if string(x) != string(y) {
					c.Fail("payload", "%s of %q", x, p)
				}
			}
			c.Run().State(fmt.Sprint(i, j))
		}}
	})
	// how much: long payloads and topics, many topics and notifications
	lengths := mc.Sizes(7990)
	r.ExploreSched(mc.Opt{Part: "long payloads", Bound: 0, Delays: true}, func(c *mc.C) mc.Sched {
		n := lengths[c.Pick(len(lengths))]
		way := c.Pick(3)
		fill := strings.Repeat("é1 \\n", n)
		var p, want string
		switch way {
		case 0:
			p, want = fill[:n], "{}"
		case 1:
			q, _ := json.Marshal(map[string]any{"a": "x", "s": strings.Repeat("é1 ", n/4), "z": "y"})
			p, want = string(q), string(q)
		case 2:
			m := map[string]any{}
			for i := 0; i < n/8; i++ {
				m[fmt.Sprint("k", i)] = fmt.Sprint(i)
			}
			q, _ := json.Marshal(m)
			p, want = string(q), string(q)
		}
		topic := strings.Repeat("t", n%62+1)
		c.Log("%d bytes, way %d", len(p), way)
		var got []*notifier.Notification
		w := &world{sent: map[string][]string{}}
		return mc.Sched{Horizon: 3000, Threads: []func(){func() {
			w.start()
			s := w.listen(topic, func(_ *sub, n *notifier.Notification) { got = append(got, n) })
			w.srv.Deliver(topic, p)
			quiet()
			s.cancel()
			w.end()
		}}, After: func(c *mc.C, res vsched.Result) {
			c.Run().State(fmt.Sprint(n, way))
			if len(got) != 1 {
				c.Fail("number of notifications", "%d", len(got))
				return
			}
			if got[0].Channel != topic || got[0].RawPayload != p {
				c.Fail("notification", "%d bytes of %d", len(got[0].RawPayload), len(p))
			}
			x, _ := json.Marshal(map[string]any(got[0].Payload))
			if string(x) == "null" {
				x = []byte("{}")
			}
			if way == 0 && json.Valid([]byte(p)) {
				return
			}
			if string(x) != want {
				c.Fail("payload", "%d bytes of %d", len(x), len(want))
			}
		}}
	})
	many := func(part string, bound int, counts, numbers []int) {
		r.ExploreSched(mc.Opt{Part: part, Bound: bound, Delays: true, Selects: true}, func(c *mc.C) mc.Sched {
			n := counts[c.Pick(len(counts))]
			topics := numbers[c.Pick(len(numbers))]
			lost := c.Pick(2) == 1
			c.Log("%d notifications of %d topics, connection lost: %v", n, topics, lost)
			w := &world{sent: map[string][]string{}}
			return mc.Sched{Horizon: 60000, Threads: []func(){func() {
				w.start()
				var subs []*sub
				for i := 0; i < topics; i++ {
					s := w.listen(fmt.Sprint("topic", i), nil)
					if s.failed() != nil {
						w.wrong("listen", "%v", s.failed())
					}
					subs = append(subs, s)
				}
				vsched.GoThread(func() {
					for i := 0; i < n; i++ {
						if lost && i == n/2 {
							w.srv.Lose()
							w.srv.Restore()
						}
						w.send(fmt.Sprint("topic", i*7%topics))
					}
				})
				quiet()
				for _, s := range subs {
					w.complete(s)
				}
				subs[0].cancel()
				quiet()
				if w.srv.Deliver("topic0", "late") {
					w.wrong("still listening", "the context of the topic has ended")
				}
				if topics > 1 {
					w.send("topic1")
					quiet()
					w.complete(subs[1])
				}
				for _, s := range subs {
					s.cancel()
				}
				w.end()
			}}, After: func(c *mc.C, res vsched.Result) {
				for _, b := range w.bad {
					c.Fail(b[0], "%s", b[1])
				}
				for _, x := range w.subs {
					for _, b := range x.bad {
						c.Fail("callback of another topic", "%s", b)
					}
				}
				c.Run().State(fmt.Sprint(c.Trace()))
			}}
		})
	}
	many("many", 0, mc.Sizes(mc.Q(r, 300, 1100)), []int{1, 2, 3, 7, 8, 9, 10, 16, 17, 31, 32, 33})
	// more than the channels hold, with a change of thread at every point
	many("more than there is room for", 1, mc.Q(r, []int{31, 33, 36}, []int{31, 32, 33, 34, 36, 64, 66, 70, 100}), []int{1, 2, 3})
}
