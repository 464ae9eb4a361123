// Package mc is a small stateless model checker: it enumerates, completely and in a
// deterministic order, every sequence of choices a harness asks for, runs the real code once
// per sequence, and reports what was covered.
package mc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one invocation of a check.
type Run struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	start    time.Time
	deadline time.Time

	execs       atomic.Int64
	transitions atomic.Int64
	evals       atomic.Int64
	points      atomic.Int64
	maxDepth    atomic.Int64

	states   [64]shard
	outcomes [64]shard

	mu         sync.Mutex
	samples    []any
	violations map[string]*Violation
	rule       string
	assume     []string
	extra      map[string]any
	incomplete []string
	parts      []string
	worker     *worker
	raceSeen   int
	known      []Known
	first      atomic.Int64 // when the first violation was found
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func (s *shard) add(h uint64) {
	s.mu.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	s.m[h] = struct{}{}
	s.mu.Unlock()
}

// Violation is a reported disagreement.
type Violation struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Key      string   `json:"key"`
	What     string   `json:"what"`
	Trace    []string `json:"trace"`
	Choices  []int    `json:"choices"`
	Count    int      `json:"count"`
	Cost     int      `json:"cost"`
	Replayed int      `json:"replayed"`
}

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Q returns q in the quick tier, t in the thorough tier.
func Q[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

// Hash of a string.
func Hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// State records a distinct canonical state.
func (r *Run) State(s string) {
	h := Hash(s)
	r.states[h%64].add(h)
}

// Outcome records a distinct observed outcome.
func (r *Run) Outcome(s string) {
	h := Hash(s)
	r.outcomes[h%64].add(h)
}

// Step counts transitions.
func (r *Run) Step(n int) { r.transitions.Add(int64(n)) }

// Eval counts evaluations outside an exploration.
func (r *Run) Eval(n int) { r.evals.Add(int64(n)) }

// Rule describes how cases are made.
func (r *Run) Rule(s string) { r.rule = s }

// Assume records an assumption.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Extra records an additional coverage figure.
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[k] = v
}

// Incomplete records that a part was cut.
func (r *Run) Incomplete(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.incomplete = append(r.incomplete, s)
}

// Sample keeps a few cases.
func (r *Run) Sample(s any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, s)
	}
}

// TimeLeft until the internal deadline.
func (r *Run) TimeLeft() time.Duration { return time.Until(r.deadline) }

// Report records a violation directly.
func (r *Run) Report(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v.Property = r.ID
	k := v.Part + "|" + v.Key
	if old, ok := r.violations[k]; ok {
		old.Count++
		if len(v.Choices) < len(old.Choices) || (len(v.Choices) == len(old.Choices) && v.Cost < old.Cost) {
			v.Count = old.Count
			*old = v
		}
		return
	}
	v.Count = 1
	r.violations[k] = &v
	if strings.HasPrefix(v.Key, "data race") {
		return // not confirmed yet
	}
	for _, kf := range r.known {
		if kf.Part == v.Part && kf.Key == v.Key {
			return
		}
	}
	if r.first.Load() == 0 {
		r.first.Store(time.Now().UnixNano())
	}
}

// decided tells that a violation was found some time ago: more of them do not change the verdict.
func (r *Run) decided() bool {
	f := r.first.Load()
	return f != 0 && time.Since(time.Unix(0, f)) > 15*time.Second
}

// nviol counts distinct violations.
func (r *Run) nviol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations)
}

// C is the chooser handed to one execution.
type C struct {
	r       *Run
	part    string
	prefix  []int
	choices []int
	arity   []int
	costs   []bool // whether a non-zero choice costs a deviation
	cost    int
	bound   int
	trace   []string
	viol    []Violation
	diverge string
	cut     bool
	nontriv bool
	steps   int
}

// abort is thrown to stop one execution early.
type abort struct{ why string }

// Pick returns 0..n-1; every value is explored.
func (c *C) Pick(n int) int { return c.choose(n, false) }

// Dev returns 0..n-1; a value other than 0 costs one deviation of the bound.
func (c *C) Dev(n int) int { return c.choose(n, true) }

// Flag explores both truth values.
func (c *C) Flag() bool { return c.choose(2, false) == 1 }

func (c *C) choose(n int, dev bool) int {
	if n <= 0 {
		panic("mc: choose from nothing")
	}
	if n == 1 {
		return 0
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.diverge = fmt.Sprintf("replay diverged at %d: choice %d of %d", i, v, n)
			panic(abort{"diverge"})
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	c.costs = append(c.costs, dev)
	if dev && v != 0 {
		c.cost++
	}
	return v
}

// Log appends to the human-readable trace.
func (c *C) Log(f string, a ...any) {
	if len(a) == 0 {
		c.trace = append(c.trace, f)
	} else {
		c.trace = append(c.trace, Short(fmt.Sprintf(f, a...)))
	}
}

// Trace so far.
func (c *C) Trace() []string { return c.trace }

// Step counts one transition of this execution.
func (c *C) Step() { c.steps++ }

// Nontrivial marks this execution as a non-trivial one.
func (c *C) Nontrivial() { c.nontriv = true }

// Fail records a violation of this execution; key identifies the kind of failure.
func (c *C) Fail(key, f string, a ...any) {
	c.viol = append(c.viol, Violation{Part: c.part, Key: key, What: Short(fmt.Sprintf(f, a...))})
}

// Failed tells if this execution already failed.
func (c *C) Failed() bool { return len(c.viol) > 0 }

// Stop ends this execution.
func (c *C) Stop() { panic(abort{"stop"}) }

// Run gives the run.
func (c *C) Run() *Run { return c.r }

// Opt of an exploration.
type Opt struct {
	Part    string
	Bound   int           // deviation bound
	Serial  bool          // code under test has global state
	Max     int64         // cap on executions, 0 none
	Timeout time.Duration // cap on wall time, 0: the run's deadline
	Hang    time.Duration // an execution longer than this is a hang; default 60s
	Selects bool          // with schedules: every ready case of a select but the first costs a deviation
	Delays  bool          // with schedules: every thread but the first costs a deviation, not only preemptions
	Procs   bool          // explore in worker processes, one execution at a time in each
	Recycle int64         // with Procs: a worker process ends after so many executions and another goes on
}

func (r *Run) exec(opt *Opt, prefix []int, body func(c *C)) (c *C) {
	c = &C{r: r, part: opt.Part, prefix: prefix, bound: opt.Bound}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(abort); ok {
					return
				}
				st := string(debug.Stack())
				c.Fail("panic: "+firstLine(fmt.Sprint(p)), "panic: %v\n%s", p, trimStack(st))
			}
		}()
		body(c)
	}()
	if c.diverge == "" && len(c.choices) < len(prefix) {
		c.diverge = fmt.Sprintf("replay diverged: %d choices asked, %d in prefix", len(c.choices), len(prefix))
	}
	return c
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Explore runs body for every choice sequence within the bound.
func (r *Run) Explore(opt Opt, body func(c *C)) {
	if r.worker != nil && r.worker.Part != opt.Part {
		return
	}
	if r.worker == nil && r.decided() {
		r.Incomplete(opt.Part + ": violations found before")
		return
	}
	workers := runtime.GOMAXPROCS(0)
	if opt.Serial || opt.Procs {
		workers = 1
	}
	split := opt.Procs && r.worker == nil
	if opt.Hang == 0 {
		opt.Hang = 60 * time.Second
	}
	deadline := r.deadline
	if opt.Timeout > 0 {
		if d := time.Now().Add(opt.Timeout); d.Before(deadline) {
			deadline = d
		}
	}
	started := time.Now()
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		stack   = [][]int{{}}
		handout [][]int
		left    [][]int
		busy    int
		stopped string
		execs   int64
		ntriv   int64
		maxd    int
		hash    = sha256.New()
		_       = hash
	)
	if r.worker != nil {
		stack = r.worker.Prefixes
		if !r.worker.Deadline.IsZero() {
			deadline = r.worker.Deadline
		}
	}
	type slot struct {
		start  atomic.Int64
		prefix atomic.Pointer[[]int]
	}
	slots := make([]slot, workers)
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				for i := range slots {
					st := slots[i].start.Load()
					if st != 0 && time.Since(time.Unix(0, st)) > opt.Hang {
						p := slots[i].prefix.Load()
						buf := make([]byte, 1<<16)
						n := runtime.Stack(buf, true)
						r.Report(Violation{Part: opt.Part, Key: "hang", What: "execution does not terminate\n" + string(buf[:n]), Choices: *p, Replayed: 1})
						if r.worker != nil {
							r.workerDone(1, 0, 0, "hang", nil)
						}
						r.finish()
					}
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(stack) == 0 && busy > 0 && stopped == "" {
					cond.Wait()
				}
				if stopped != "" || len(stack) == 0 {
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				if split {
					// breadth first, so that what is handed out is large and even
					p = stack[0]
					stack = stack[1:]
				} else {
					stack = stack[:len(stack)-1]
				}
				busy++
				mu.Unlock()

				slots[w].prefix.Store(&p)
				slots[w].start.Store(time.Now().UnixNano())
				c := r.exec(&opt, p, body)
				slots[w].start.Store(0)
				if c.diverge != "" {
					fmt.Fprintf(os.Stderr, "HARD ERROR: %s part %s: %s prefix=%v choices=%v trace=%v\n", r.ID, opt.Part, c.diverge, p, c.choices, c.trace)
					os.Exit(3)
				}
				// alternatives: the deepest last so that LIFO order is depth first
				var kids [][]int
				cost := 0
				for i := 0; i < len(c.choices); i++ {
					if i >= len(p) {
						for alt := c.arity[i] - 1; alt >= 1; alt-- {
							if c.costs[i] && cost+1 > opt.Bound {
								break
							}
							k := make([]int, i+1)
							copy(k, c.choices[:i])
							k[i] = alt
							kids = append(kids, k)
						}
					}
					if c.costs[i] && c.choices[i] != 0 {
						cost++
					}
				}
				if r.worker != nil && r.worker.NoExpand {
					kids = nil
				}
				for _, v := range c.viol {
					v.Choices = append([]int{}, c.choices...)
					v.Trace = append([]string{}, c.trace...)
					v.Cost = c.cost
					r.Report(v)
				}
				r.transitions.Add(int64(c.steps))
				r.points.Add(int64(len(c.choices)))

				mu.Lock()
				busy--
				execs++
				if c.nontriv {
					ntriv++
				}
				if len(c.choices) > maxd {
					maxd = len(c.choices)
				}
				if execs <= 2 || execs == 1000 || execs == 20000 {
					r.Sample(map[string]any{"part": opt.Part, "trace": c.trace, "choices": c.choices})
				}
				stack = append(stack, kids...)
				if split && (len(stack) >= 400 || execs >= 300) {
					handout, stack = stack, nil
				}
				if opt.Max > 0 && execs >= opt.Max && stopped == "" && len(stack)+busy > 0 {
					stopped = "execution cap"
				}
				if execs%64 == 0 && time.Now().After(deadline) && stopped == "" && len(stack)+busy > 0 {
					stopped = "time cap"
				}
				if r.worker != nil && opt.Recycle > 0 && execs >= opt.Recycle && busy == 0 && stopped == "" && len(stack) > 0 {
					left, stack = stack, nil
				}
				if r.nviol() > 12 && stopped == "" {
					stopped = "many violations"
				}
				if stopped == "" && r.decided() {
					stopped = "violations found"
				}
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	close(done)
	if len(handout) > 0 {
		n, t, d, stop := r.handOut(&opt, handout, deadline)
		execs += n
		ntriv += t
		if d > maxd {
			maxd = d
		}
		if stopped == "" {
			stopped = stop
		}
	}
	r.execs.Add(execs)
	r.mu.Lock()
	if ntriv > 0 {
		n, _ := r.extra["nontrivial_executions"].(int64)
		r.extra["nontrivial_executions"] = n + ntriv
	}
	r.mu.Unlock()
	if int64(maxd) > r.maxDepth.Load() {
		r.maxDepth.Store(int64(maxd))
	}
	part := fmt.Sprintf("%s: executions=%d bound=%d max_choices=%d wall=%.1fs", opt.Part, execs, opt.Bound, maxd, time.Since(started).Seconds())
	if stopped != "" {
		part += " STOPPED: " + stopped
		r.Incomplete(opt.Part + ": " + stopped)
	}
	r.mu.Lock()
	r.parts = append(r.parts, part)
	// replay every new violation twice: it must fail the same way
	var todo []*Violation
	for _, v := range r.violations {
		if v.Part == opt.Part && v.Replayed == 0 && v.Key != "hang" && !strings.HasPrefix(v.Key, "data race") {
			todo = append(todo, v)
		}
	}
	r.mu.Unlock()
	for _, v := range todo {
		tries := 0
		for tries = 0; tries < 2 || (v.Replayed == 0 && tries < 50); tries++ {
			c := r.exec(&opt, v.Choices, body)
			for _, w := range c.viol {
				if w.Key == v.Key {
					v.Replayed++
					break
				}
			}
		}
		if v.Replayed != tries {
			v.What += fmt.Sprintf(" [replay reproduced it %d of %d times]", v.Replayed, tries)
		}
		if v.Replayed == 0 {
			v.Replayed = -1
		}
	}
	if r.worker != nil {
		r.workerDone(execs, ntriv, maxd, stopped, left)
	}
	if opt.Procs {
		r.confirmRaces(&opt)
	}
}

// Deadline moves the internal deadline.
func (r *Run) Deadline(d time.Duration) { r.deadline = r.start.Add(d) }

var finishing atomic.Bool

func evidenceDir() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return "/verif/evidence"
}

// Known finding as listed in known_findings.json.
type Known struct {
	Property string `json:"property"`
	Part     string `json:"part"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(id string) []Known {
	f := os.Getenv("VERIF_KNOWN")
	if f == "" {
		f = "/verif/known_findings.json"
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(3)
	}
	var res []Known
	for _, k := range doc.Findings {
		if k.Property == id {
			res = append(res, k)
		}
	}
	return res
}

func (r *Run) finish() {
	if !finishing.CompareAndSwap(false, true) {
		select {}
	}
	known := r.known
	r.mu.Lock()
	defer r.mu.Unlock()

	var states, outs int64
	for i := range r.states {
		states += int64(len(r.states[i].m))
		outs += int64(len(r.outcomes[i].m))
	}
	var real []*Violation
	seenKnown := map[string]bool{}
	var keys []string
	for k := range r.violations {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	code := 0
	unstable := 0
	for _, k := range keys {
		v := r.violations[k]
		hit := false
		for _, n := range known {
			if n.Part == v.Part && n.Key == v.Key {
				hit = true
				if !seenKnown[k] {
					seenKnown[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.ID, n.Key, n.What)
				}
			}
		}
		if hit {
			continue
		}
		if v.Replayed == -1 {
			// never trust a failure that its own replay does not reproduce
			fmt.Fprintf(os.Stderr, "UNSTABLE: %s %s: %s trace=%v\n", v.Part, v.Key, v.What, v.Trace)
			unstable++
			continue
		}
		real = append(real, v)
	}
	exhaustive := len(r.incomplete) == 0
	cov := map[string]any{
		"exhaustive": exhaustive,
		"samples":    r.samples,
		"rule":       r.rule,
	}
	execs := r.execs.Load()
	switch r.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = r.transitions.Load()
		cov["traces_validated_against_impl"] = execs + r.evals.Load()
		cov["distinct_outcomes"] = outs
		cov["choice_points"] = r.points.Load()
	default:
		cov["evaluations"] = execs + r.evals.Load()
		cov["distinct_nontrivial"] = outs
		cov["transitions"] = r.transitions.Load()
		cov["choice_points"] = r.points.Load()
		if states > 0 {
			cov["states"] = states
		}
	}
	cov["max_choices_in_one_execution"] = r.maxDepth.Load()
	cov["parts"] = r.parts
	if !exhaustive {
		cov["not_completed"] = r.incomplete
	}
	if unstable > 0 {
		cov["unstable_failures_discarded"] = unstable
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(real),
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if r.worker != nil {
		fmt.Fprintf(os.Stderr, "HARD ERROR: worker for part %q found no such part\n", r.worker.Part)
		os.Exit(3)
	}
	_ = os.MkdirAll(evidenceDir(), 0o755)
	if err := os.WriteFile(filepath.Join(evidenceDir(), r.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for i, v := range real {
		p := filepath.Join(evidenceDir(), fmt.Sprintf("replay-%s-%d.json", r.ID, i))
		vb, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(p, vb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
		fmt.Printf("  part=%s key=%s count=%d\n  what: %s\n  trace: %s\n", v.Part, v.Key, v.Count, v.What, strings.Join(v.Trace, " ; "))
		code = 1
	}
	fmt.Printf("%s tier=%s level=%s executions=%d evals=%d states=%d transitions=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n",
		r.ID, r.Tier, r.Level, execs, r.evals.Load(), states, r.transitions.Load(), outs, exhaustive, len(real), time.Since(r.start).Seconds())
	for _, p := range r.parts {
		fmt.Println("  ", p)
	}
	os.Stdout.Sync()
	os.Exit(code)
}

// Main runs a check.
func Main(id, level string, body func(r *Run)) {
	r := &Run{ID: id, Level: level, Tier: "quick", Seed: 1, start: time.Now(),
		violations: map[string]*Violation{}, extra: map[string]any{}, known: loadKnown(id)}
	r.loadWorker()
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		r.Tier = t
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		r.Seed = s
	}
	d := 240 * time.Second
	if r.Thorough() {
		d = 700 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE")); err == nil {
		d = time.Duration(s) * time.Second
	}
	r.deadline = r.start.Add(d)
	func() {
		defer func() {
			if p := recover(); p != nil {
				fmt.Fprintf(os.Stderr, "HARD ERROR: %s: %v\n%s\n", id, p, debug.Stack())
				os.Exit(3)
			}
		}()
		body(r)
	}()
	r.finish()
}

// U64 helper for hashing.
func U64(v uint64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return string(b[:])
}

// Sizes are numbers up to max where the size of things may begin to matter: small ones, and
// both sides of powers of two and of round numbers.
func Sizes(max int) (l []int) {
	for i := 0; i <= 12 && i <= max; i++ {
		l = append(l, i)
	}
	seen := map[int]bool{}
	for p := 16; p-1 <= max; p *= 2 {
		for _, q := range []int{p - 1, p, p + 1, p * 10 / 16, p*10/16*10 + 1} {
			seen[q] = true
		}
	}
	for p := 50; p-1 <= max; p *= 10 {
		for _, q := range []int{p - 1, p, p + 1, 2*p - 1, 2 * p, 2*p + 1} {
			seen[q] = true
		}
	}
	for i := 13; i <= max; i++ {
		if seen[i] {
			l = append(l, i)
		}
	}
	return
}

// Short cuts a text for a message.
func Short(s string) string {
	if len(s) > 1200 {
		return s[:600] + " ... " + s[len(s)-500:]
	}
	return s
}
