package vsched

import (
	"iter"
	"time"
	"unsafe"
)

// Channels of controlled threads are modelled: nothing is ever put into the real channel, except
// by code that is not controlled (a context, for example), which is polled.

const chanCap = 64

type vchan struct {
	ptr    unsafe.Pointer
	cap    int
	n      int
	buf    [chanCap]any
	closed bool
	// rendezvous
	recvWaiting int
	handed      int // values put for waiting receivers of an unbuffered channel
	taken       int // values taken by receivers, so that senders may go on
	sent        int
}

var (
	chans  [2048]*vchan
	nchans int
)

//go:norace
func resetChans() {
	for i := 0; i < nchans; i++ {
		chans[i] = nil
	}
	nchans = 0
	ntickers = 0
	nafters = 0
	ntimers = 0
}

//go:norace
func chanOf(p unsafe.Pointer, c int) *vchan {
	for i := 0; i < nchans; i++ {
		if chans[i].ptr == p {
			return chans[i]
		}
	}
	if nchans == len(chans) {
		panic("vsched: too many channels")
	}
	if c > chanCap {
		c = chanCap
	}
	v := &vchan{ptr: p, cap: c}
	chans[nchans] = v
	nchans++
	return v
}

//go:norace
func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func (v *vchan) pop() any {
	x := v.buf[0]
	for i := 1; i < v.n; i++ {
		v.buf[i-1] = v.buf[i]
	}
	v.n--
	v.buf[v.n] = nil
	v.taken++
	return x
}

// tryRecv answers value, ok, done.
//
//go:norace
func tryRecv[T any](ch <-chan T, v *vchan) (x T, ok, done bool) {
	if v.n > 0 {
		y := v.pop()
		if y != nil {
			x = y.(T)
		}
		Acquire(v.ptr)
		Release(v.ptr)
		Wake(v.ptr)
		return x, true, true
	}
	if v.closed {
		Acquire(v.ptr)
		return x, false, true
	}
	select {
	case x, ok = <-ch:
		return x, ok, true
	default:
	}
	return x, false, false
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	Point()
	if ch == nil {
		Block(unsafe.Pointer(&nilChan))
	}
	v := chanOf(chanPtr(ch), cap(ch))
	for {
		if x, ok, done := tryRecv(ch, v); done {
			return x, ok
		}
		v.recvWaiting++
		Wake(v.ptr)
		recvPark(ch, v)
		v.recvWaiting--
	}
}

var nilChan byte

//go:norace
func recvPark[T any](ch <-chan T, v *vchan) {
	BlockPoll(v.ptr, func() bool { return pollReal(ch, v) })
}

// pollReal moves a value of the real channel into the model.
//
//go:norace
func pollReal[T any](ch <-chan T, v *vchan) bool {
	select {
	case x, ok := <-ch:
		if !ok {
			v.closed = true
		} else {
			v.buf[v.n] = x
			v.n++
		}
		return true
	default:
		return false
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	x, _ := Recv2(ch)
	return x
}

//go:norace
func sendReady(v *vchan) bool {
	if v.closed {
		return true
	}
	if v.cap > 0 {
		return v.n < v.cap
	}
	return v.n < v.recvWaiting
}

// Send is ch <- x.
//
//go:norace
func Send[T any](ch chan<- T, x T) {
	if !Active() {
		ch <- x
		return
	}
	Point()
	if ch == nil {
		Block(unsafe.Pointer(&nilChan))
	}
	v := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	for !sendReady(v) {
		Block(v.ptr)
	}
	if v.closed {
		panic("send on closed channel")
	}
	Release(v.ptr)
	v.buf[v.n] = x
	v.n++
	Wake(v.ptr)
	if v.cap == 0 {
		for v.n > 0 && !v.closed {
			Block(v.ptr)
		}
		Acquire(v.ptr)
	}
}

// Close is close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	Point()
	v := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	if v.closed {
		panic("close of closed channel")
	}
	Release(v.ptr)
	v.closed = true
	Wake(v.ptr)
}

// Range is for x := range ch.
func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			x, ok := Recv2(ch)
			if !ok || !yield(x) {
				return
			}
		}
	}
}

// Case of a select.
type Case struct {
	try  func() bool
	v    *vchan
	poll func() bool
	recv bool
	real func() (any, bool) // blocking form outside the scheduler
}

type selected struct {
	x  any
	ok bool
}

// RecvCase is case <-ch.
//
//go:norace
func RecvCase[T any](ch <-chan T) Case {
	if ch == nil || !Active() {
		return Case{recv: true, real: func() (any, bool) {
			select {
			case x, ok := <-ch:
				return selected{x, ok}, true
			default:
				return nil, false
			}
		}}
	}
	v := chanOf(chanPtr(ch), cap(ch))
	return Case{recv: true, v: v, try: func() bool { return selRecv(ch, v) }, poll: func() bool { return pollReal(ch, v) }}
}

//go:norace
func selRecv[T any](ch <-chan T, v *vchan) bool {
	x, ok, done := tryRecv(ch, v)
	if done {
		current().val = selected{x, ok}
	}
	return done
}

// SendCase is case ch <- x.
//
//go:norace
func SendCase[T any](ch chan<- T, x T) Case {
	if ch == nil || !Active() {
		return Case{real: func() (any, bool) {
			select {
			case ch <- x:
				return nil, true
			default:
				return nil, false
			}
		}}
	}
	v := chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	return Case{v: v, try: func() bool { return selSend(v, x) }}
}

//go:norace
func selSend(v *vchan, x any) bool {
	if !sendReady(v) {
		return false
	}
	if v.closed {
		panic("send on closed channel")
	}
	Release(v.ptr)
	v.buf[v.n] = x
	v.n++
	Wake(v.ptr)
	return true
}

var outsideVal any

// Select is a select statement; the answer is the index of the case, -1 the default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	if !Active() {
		for {
			for i, c := range cases {
				if v, ok := c.real(); ok {
					outsideVal = v
					return i
				}
			}
			if hasDefault {
				return -1
			}
			time.Sleep(100 * time.Microsecond)
		}
	}
	Point()
	for {
		// start with a chosen case: when several are ready any may be taken
		ready := 0
		var idx [16]int
		for i := range cases {
			if cases[i].v == nil {
				continue
			}
			if caseReady(&cases[i]) {
				idx[ready] = i
				ready++
			}
		}
		if ready > 0 {
			k := idx[Choose(ready, Selects)]
			if cases[k].try() {
				return k
			}
			continue
		}
		if hasDefault {
			return -1
		}
		for i := range cases {
			if cases[i].v != nil && cases[i].recv {
				cases[i].v.recvWaiting++
				Wake(cases[i].v.ptr)
			}
		}
		blockAny(cases)
		for i := range cases {
			if cases[i].v != nil && cases[i].recv {
				cases[i].v.recvWaiting--
			}
		}
	}
}

//go:norace
func caseReady(c *Case) bool {
	if c.recv {
		return c.v.n > 0 || c.v.closed || c.poll()
	}
	return sendReady(c.v)
}

//go:norace
func blockAny(cases []Case) {
	var on byte
	BlockPoll(unsafe.Pointer(&on), func() bool { return anyReady(cases) })
}

//go:norace
func anyReady(cases []Case) bool {
	for i := range cases {
		if cases[i].v != nil && caseReady(&cases[i]) {
			return true
		}
	}
	return false
}

// Val is the value received by the last Select of this thread on a channel of ch's type.
//
//go:norace
func Val[T any](ch <-chan T) T {
	x, _ := Val2(ch)
	return x
}

// Val2 is Val with the ok flag.
//
//go:norace
func Val2[T any](ch <-chan T) (T, bool) {
	var v any
	if t := current(); t != nil {
		v = t.val
	} else {
		v = outsideVal
	}
	sel, _ := v.(selected)
	var x T
	if sel.x != nil {
		x = sel.x.(T)
	}
	return x, sel.ok
}

// Sleep blocks until the virtual clock has advanced by d.
//
//go:norace
func Sleep(d time.Duration) {
	t := current()
	if t == nil {
		if SleepHook != nil {
			SleepHook(d)
			return
		}
		time.Sleep(d)
		return
	}
	SleepLog(d)
	t.sleep = s.now + int64(d)
	if d <= 0 {
		t.sleep = 0
		Point()
		return
	}
	var on byte
	Block(unsafe.Pointer(&on))
}

// SleepHook replaces sleeping outside of the scheduler.
var SleepHook func(d time.Duration)

// SleepLog sees every sleep.
var SleepLog = func(d time.Duration) {}

// Ticker models time.Ticker: it ticks only when the harness says so.
type Ticker struct {
	C       <-chan time.Time
	c       chan time.Time
	Stopped bool
	Period  time.Duration
}

var (
	tickers  [64]*Ticker
	ntickers int
)

// NewTicker is time.NewTicker.
//
//go:norace
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, Period: d}
	if ntickers < len(tickers) {
		tickers[ntickers] = t
		ntickers++
	}
	return t
}

var (
	afters  [64]chan time.Time
	nafters int
)

// ByClock makes After and timers fire by the clock that Sleep goes by, not when the harness says so.
var ByClock bool

// After is time.After: it fires only when the harness says so, or with ByClock.
//
//go:norace
func After(d time.Duration) <-chan time.Time {
	if ByClock {
		return NewTimer(d).C
	}
	c := make(chan time.Time, 1)
	if Active() && nafters < len(afters) {
		afters[nafters] = c
		nafters++
	}
	return c
}

// Expire fires what After has made and is still waited for.
//
//go:norace
func Expire() {
	Point()
	n := nafters
	nafters = 0
	for i := 0; i < n; i++ {
		v := chanOf(chanPtr((<-chan time.Time)(afters[i])), 1)
		v.buf[0] = time.Unix(0, s.now)
		v.n = 1
		Wake(v.ptr)
	}
	fireTimers()
}

// Timer models time.Timer: it fires only when the harness says so, with Tick or Expire.
type Timer struct {
	C     <-chan time.Time
	c     chan time.Time
	f     func()
	armed bool
	known bool
	gen   int
}

var (
	timers  [64]*Timer
	ntimers int
)

//go:norace
func (t *Timer) arm(d time.Duration) {
	t.armed = true
	if ByClock {
		t.byClock(d)
		return
	}
	if !t.known && Active() && ntimers < len(timers) {
		t.known = true
		timers[ntimers] = t
		ntimers++
	}
}

// NewTimer is time.NewTimer.
//
//go:norace
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
//
//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// NewTick is time.Tick.
func NewTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// Stop is time.Timer.Stop: nothing is received from the channel afterwards.
//
//go:norace
func (t *Timer) Stop() bool {
	Point()
	Release(unsafe.Pointer(t))
	was := t.armed
	t.armed = false
	t.gen++
	if t.C != nil && !Active() {
		select {
		case <-t.C:
			was = true
		default:
		}
	} else if t.C != nil {
		if v := chanOf(chanPtr(t.C), 1); v.n > 0 {
			v.n = 0
			was = true
		}
	}
	return was
}

// Reset is time.Timer.Reset.
//
//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// fire lets an armed timer go off.
//
//go:norace
func (t *Timer) fire() {
	t.armed = false
	if t.f != nil {
		Acquire(unsafe.Pointer(t))
		Go(t.f)
		return
	}
	v := chanOf(chanPtr(t.C), 1)
	v.buf[0] = time.Unix(0, s.now)
	v.n = 1
	Wake(v.ptr)
}

//go:norace
func (t *Timer) byClock(d time.Duration) {
	if !Active() {
		if SleepHook != nil {
			SleepHook(d)
		} else {
			time.Sleep(d)
		}
		t.armed = false
		if t.f != nil {
			t.f()
		} else {
			t.c <- time.Now()
		}
		return
	}
	SleepLog(d)
	t.gen++
	gen, at := t.gen, s.now+int64(d)
	Go(func() {
		if k := current(); at > s.now {
			k.sleep = at
			var on byte
			Block(unsafe.Pointer(&on))
		}
		if t.armed && t.gen == gen {
			t.fire()
		}
	})
}

// fireTimers fires the timers that are armed and answers how many.
//
//go:norace
func fireTimers() int {
	n := 0
	k := ntimers
	ntimers = 0
	var due [64]*Timer
	for i := 0; i < k; i++ {
		due[i] = timers[i]
		due[i].known = false
	}
	for i := 0; i < k; i++ {
		t := due[i]
		if !t.armed {
			continue
		}
		n++
		t.fire()
	}
	return n
}

// Stop is time.Ticker.Stop.
//
//go:norace
func (t *Ticker) Stop() {
	Point()
	Release(unsafe.Pointer(t))
	t.Stopped = true
}

// Reset is time.Ticker.Reset.
//
//go:norace
func (t *Ticker) Reset(d time.Duration) {
	Point()
	t.Stopped = false
	t.Period = d
}

// Tick fires every ticker that is not stopped, and what After and NewTimer have made; a tick is
// dropped if the last one was not taken.
// It answers how many were delivered.
//
//go:norace
func Tick() int {
	Point()
	n := 0
	for i := 0; i < ntickers; i++ {
		t := tickers[i]
		if t.Stopped {
			continue
		}
		v := chanOf(chanPtr(t.C), 1)
		if v.n == 0 {
			v.buf[0] = time.Unix(0, s.now)
			v.n = 1
			n++
			Wake(v.ptr)
		}
	}
	k := nafters
	nafters = 0
	for i := 0; i < k; i++ {
		v := chanOf(chanPtr((<-chan time.Time)(afters[i])), 1)
		v.buf[0] = time.Unix(0, s.now)
		v.n = 1
		n++
		Wake(v.ptr)
	}
	return n + fireTimers()
}
