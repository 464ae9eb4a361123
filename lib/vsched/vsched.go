// Package vsched is a controlled scheduler: the goroutines of one execution run one at a time,
// and at every scheduling point a chooser decides which one goes on.
//
// The hand-over between goroutines is by plain memory and runtime.Gosched in functions that the
// race detector does not instrument, so it adds no happens-before edge: a data race of the code
// under test is reported in whichever order the explorer runs the two accesses. The process has
// to run with GOMAXPROCS=1.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

const maxThreads = 40

const (
	stReady = iota
	stBlocked
	stDone
)

type thread struct {
	id     int
	name   string
	state  int
	turn   bool // the thread may run
	parked bool // the thread has given control back
	on     unsafe.Pointer
	poll   func() bool
	daemon bool
	reqN   int // environment choice asked
	reqDev bool
	ans    int
	panicV any
	stack  string
	quiet  bool // its points do not yield
	sleep  int64
	val    any
}

type sched struct {
	th      [maxThreads]*thread
	n       int
	cur     *thread
	abort   bool
	steps   int
	points  int
	maxStep int
	now     int64
	join    byte
	trace   []int
	active  bool
}

var s *sched // current execution, nil when no scheduler is active

type killed struct{}

// Result of one execution.
type Result struct {
	Deadlock bool
	Stuck    string
	Horizon  bool
	Steps    int
	Points   int
	Panics   []string
	Stacks   []string
	Schedule []int
	Leaked   int // daemons still alive when every thread was done
}

// Active tells if a scheduler runs.
//
//go:norace
func Active() bool { return s != nil && s.cur != nil }

//go:norace
func current() *thread {
	if s == nil {
		return nil
	}
	return s.cur
}

// ID of the running thread, -1 outside.
//
//go:norace
func ID() int {
	if t := current(); t != nil {
		return t.id
	}
	return -1
}

//go:norace
func (t *thread) wait() {
	k := s
	for !t.turn {
		runtime.Gosched()
		if k.abort {
			break
		}
	}
	t.turn = false
	if k.abort {
		panic(killed{})
	}
}

//go:norace
func (t *thread) yield() {
	if s == nil || s.abort {
		panic(killed{})
	}
	t.parked = true
	t.wait()
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	t := current()
	if t == nil || t.quiet {
		return
	}
	s.points++
	t.yield()
}

// Quiet makes the running thread ignore its points while f runs.
//
//go:norace
func Quiet(f func()) {
	t := current()
	if t == nil {
		f()
		return
	}
	old := t.quiet
	t.quiet = true
	defer func() { t.quiet = old }()
	f()
}

// Block parks the running thread until Wake(on).
//
//go:norace
func Block(on unsafe.Pointer) {
	t := current()
	if t == nil {
		panic("vsched: block outside of a controlled thread")
	}
	t.state = stBlocked
	t.on = on
	t.yield()
}

// BlockPoll parks the running thread until Wake(on) or poll answers true.
//
//go:norace
func BlockPoll(on unsafe.Pointer, poll func() bool) {
	t := current()
	t.poll = poll
	Block(on)
	t.poll = nil
}

// Wake makes the threads blocked on p ready.
//
//go:norace
func Wake(p unsafe.Pointer) {
	k := s
	if k == nil {
		return
	}
	for i := 0; i < k.n; i++ {
		if t := k.th[i]; t.state == stBlocked && t.on == p {
			t.state = stReady
			t.on = nil
		}
	}
}

// Choose asks the environment for a value below n; dev makes a non-zero answer cost a deviation.
//
//go:norace
func Choose(n int, dev bool) int {
	t := current()
	if t == nil {
		return 0
	}
	if n <= 1 {
		return 0
	}
	t.reqN, t.reqDev = n, dev
	t.yield()
	return t.ans
}

// Now is the virtual time.
//
//go:norace
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

//go:norace
func (k *sched) start(name string, daemon bool, f func()) *thread {
	if k.n >= maxThreads {
		panic("vsched: too many threads")
	}
	t := &thread{id: k.n, name: name, daemon: daemon}
	k.th[k.n] = t
	k.n++
	go t.run(k, f)
	return t
}

//go:norace
func (t *thread) run(k *sched, f func()) {
	defer t.finish(k)
	t.wait()
	f()
}

//go:norace
func (t *thread) finish(k *sched) {
	if p := recover(); p != nil {
		if _, ok := p.(killed); !ok {
			t.panicV = p
			t.stack = string(debug.Stack())
		}
	}
	Release(unsafe.Pointer(&k.join))
	t.state = stDone
	t.parked = true
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	if current() == nil {
		go f()
		return
	}
	s.start("go", true, f)
	Point()
}

// GoThread starts a thread that must end before the execution does.
//
//go:norace
func GoThread(f func()) {
	if current() == nil {
		go f()
		return
	}
	s.start("go", false, f)
	Point()
}

//go:norace
func (k *sched) resume(t *thread) {
	t.parked = false
	k.cur = t
	t.turn = true
	for !t.parked {
		runtime.Gosched()
	}
	k.cur = nil
}

// Delays makes every choice of a thread that is not the first cost a deviation, also when the
// running thread cannot go on.
var Delays bool

// Selects makes every ready case of a select but the first cost a deviation.
var Selects bool

// Chooser decides: n alternatives, alternative 0 is to go on; dev: others cost a preemption.
type Chooser func(n int, dev bool) int

var mu sync.Mutex

// Run runs the bodies as threads under the chooser. setup runs first, as a thread alone: what it
// starts with go statements are daemons of the execution.
//
//go:norace
func Run(choose Chooser, horizon int, bodies ...func()) (res Result) {
	mu.Lock()
	defer mu.Unlock()
	if runtime.GOMAXPROCS(0) != 1 {
		panic("vsched: GOMAXPROCS must be 1")
	}
	k := &sched{maxStep: horizon}
	s = k
	resetChans()
	for i, b := range bodies {
		k.start(fmt.Sprint("t", i), false, b)
	}
	var last *thread
	for {
		// enabled threads, the running one first
		var en [maxThreads]*thread
		n := 0
		if last != nil && last.state == stReady {
			en[n] = last
			n++
		}
		alive := 0
		for i := 0; i < k.n; i++ {
			t := k.th[i]
			if t.state == stDone {
				continue
			}
			if !t.daemon {
				alive++
			}
			if t.state == stBlocked && t.poll != nil && t.poll() {
				t.state = stReady
			}
			if t.state == stReady && t != last {
				en[n] = t
				n++
			}
		}
		if n == 0 {
			// let time pass up to the next sleeper
			var next *thread
			for i := 0; i < k.n; i++ {
				t := k.th[i]
				if t.state == stBlocked && t.sleep > 0 && (next == nil || t.sleep < next.sleep) {
					next = t
				}
			}
			if next != nil {
				if next.sleep > k.now {
					k.now = next.sleep
				}
				next.sleep = 0
				next.state = stReady
				continue
			}
			if alive > 0 {
				res.Deadlock = true
				for i := 0; i < k.n; i++ {
					if t := k.th[i]; t.state == stBlocked && !t.daemon {
						res.Stuck += fmt.Sprintf("thread %d blocked; ", t.id)
					}
				}
			}
			for i := 0; i < k.n; i++ {
				if t := k.th[i]; t.state == stBlocked && t.daemon {
					res.Leaked++
				}
			}
			break
		}
		if k.steps >= k.maxStep {
			res.Horizon = true
			break
		}
		i := 0
		if n > 1 {
			i = choose(n, Delays || last != nil && en[0] == last)
		}
		t := en[i]
		k.steps++
		k.trace = append(k.trace, t.id)
		last = t
		for {
			k.resume(t)
			if t.reqN > 0 && t.state == stReady {
				rn := t.reqN
				t.reqN = 0
				t.ans = choose(rn, t.reqDev)
				continue
			}
			break
		}
	}
	// whatever is left is torn down
	k.abort = true
	for i := 0; i < k.n; i++ {
		for k.th[i].state != stDone {
			runtime.Gosched()
		}
	}
	s = nil
	Acquire(unsafe.Pointer(&k.join))
	for i := 0; i < k.n; i++ {
		if p := k.th[i].panicV; p != nil {
			res.Panics = append(res.Panics, fmt.Sprintf("thread %d: %v", i, p))
			res.Stacks = append(res.Stacks, k.th[i].stack)
		}
	}
	res.Steps, res.Points, res.Schedule = k.steps, k.points, k.trace
	return res
}
