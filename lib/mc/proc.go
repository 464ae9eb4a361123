package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/vlib/vsched"
)

// worker is the job of a worker process.
type worker struct {
	Part     string
	Prefixes [][]int
	Deadline time.Time
	NoExpand bool
	Out      string
}

type workerResult struct {
	Execs, Ntriv, Transitions, Points int64
	MaxDepth                          int
	Stopped                           string
	States, Outcomes                  []uint64
	Violations                        []*Violation
	Samples                           []any
	Extra                             map[string]int64
	Left                              [][]int // given back, see Opt.Recycle
}

func (r *Run) loadWorker() {
	f := os.Getenv("MC_WORKER")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.worker = &worker{}
	if err := json.Unmarshal(b, r.worker); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func dump(sh *[64]shard) []uint64 {
	var l []uint64
	for i := range sh {
		for h := range sh[i].m {
			l = append(l, h)
		}
	}
	return l
}

func (r *Run) workerDone(execs, ntriv int64, maxd int, stopped string, left [][]int) {
	res := workerResult{Execs: execs, Ntriv: ntriv, Transitions: r.transitions.Load(), Points: r.points.Load(), MaxDepth: maxd, Stopped: stopped,
		States: dump(&r.states), Outcomes: dump(&r.outcomes), Samples: r.samples, Left: left}
	for _, v := range r.violations {
		res.Violations = append(res.Violations, v)
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(r.worker.Out, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func scratchDir() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func spawn(w worker, name string) (*workerResult, error) {
	dir := scratchDir()
	in := filepath.Join(dir, name+".in")
	w.Out = filepath.Join(dir, name+".out")
	_ = os.Remove(w.Out)
	b, _ := json.Marshal(w)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_WORKER="+in)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("worker: %v %s", err, out)
	}
	ob, err := os.ReadFile(w.Out)
	if err != nil {
		return nil, fmt.Errorf("worker left no result: %v %s", err, out)
	}
	var res workerResult
	return &res, json.Unmarshal(ob, &res)
}

func (r *Run) handOut(opt *Opt, prefixes [][]int, deadline time.Time) (execs, ntriv int64, maxd int, stopped string) {
	// several batches per processor so that an uneven batch does not hold up the others
	n := runtime.NumCPU()
	batches := n * 6
	if batches > len(prefixes) {
		batches = len(prefixes)
	}
	jobs := make([][][]int, batches)
	for i, p := range prefixes {
		jobs[i%batches] = append(jobs[i%batches], p)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	cond := sync.NewCond(&mu)
	next, busy := 0, 0
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				mu.Lock()
				for next >= len(jobs) && busy > 0 {
					cond.Wait()
				}
				if next >= len(jobs) {
					mu.Unlock()
					return
				}
				if r.decided() {
					next, stopped = len(jobs), "violations found"
					cond.Broadcast()
					mu.Unlock()
					return
				}
				j := next
				next++
				busy++
				job := jobs[j]
				mu.Unlock()
				// depth first within a batch: the last prefix first
				res, err := spawn(worker{Part: opt.Part, Prefixes: job, Deadline: deadline}, fmt.Sprintf("w-%s-%d", sanitize(opt.Part), j))
				if err != nil {
					fmt.Fprintln(os.Stderr, "HARD ERROR:", err)
					os.Exit(3)
				}
				mu.Lock()
				execs += res.Execs
				ntriv += res.Ntriv
				if res.MaxDepth > maxd {
					maxd = res.MaxDepth
				}
				if res.Stopped != "" {
					stopped = res.Stopped
				}
				if len(res.Left) > 0 {
					jobs = append(jobs, res.Left)
				}
				busy--
				cond.Broadcast()
				mu.Unlock()
				r.transitions.Add(res.Transitions)
				r.points.Add(res.Points)
				for _, h := range res.States {
					r.states[h%64].add(h)
				}
				for _, h := range res.Outcomes {
					r.outcomes[h%64].add(h)
				}
				for _, s := range res.Samples {
					r.Sample(s)
				}
				for _, v := range res.Violations {
					r.Report(*v)
				}
			}
		}(k)
	}
	wg.Wait()
	return
}

func sanitize(s string) string {
	return strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			return c
		}
		return '_'
	}, s)
}

// confirmRaces re-runs the schedule of every data race report in fresh processes (the detector
// reports a pair of code positions only once per process).
func (r *Run) confirmRaces(opt *Opt) {
	r.mu.Lock()
	var todo []*Violation
	for _, v := range r.violations {
		if v.Part == opt.Part && v.Replayed == 0 && strings.HasPrefix(v.Key, "data race") {
			todo = append(todo, v)
		}
	}
	r.mu.Unlock()
	for i, v := range todo {
		for k := 0; k < 5; k++ {
			res, err := spawn(worker{Part: opt.Part, Prefixes: [][]int{v.Choices}, NoExpand: true}, fmt.Sprintf("race-%s-%d-%d", sanitize(opt.Part), i, k))
			if err != nil {
				fmt.Fprintln(os.Stderr, "HARD ERROR:", err)
				os.Exit(3)
			}
			for _, w := range res.Violations {
				if strings.HasPrefix(w.Key, "data race") {
					v.Replayed++
					break
				}
			}
			if k == 1 && v.Replayed == 2 {
				break
			}
		}
		if v.Replayed == 0 {
			v.Replayed = -1
		}
	}
}

// Sched is one concurrent harness.
type Sched struct {
	Threads []func()
	// After judges the outcome; it is not called when the execution deadlocked.
	After func(c *C, res vsched.Result)
	// Horizon bounds the scheduling decisions of an execution (default 20000).
	Horizon int
	// LeakOK allows daemons to stay blocked.
	LeakOK bool
}

// ExploreSched explores every interleaving within opt.Bound preemptions of what mk builds.
// mk is called afresh for each execution, outside of the scheduler.
func (r *Run) ExploreSched(opt Opt, mk func(c *C) Sched) {
	opt.Procs = true
	runtime.GOMAXPROCS(1)
	r.Explore(opt, func(c *C) {
		vsched.Delays = opt.Delays
		vsched.Selects = opt.Selects
		h := mk(c)
		if h.Horizon == 0 {
			h.Horizon = 20000
		}
		res := vsched.Run(func(n int, dev bool) int {
			if dev {
				return c.Dev(n)
			}
			return c.Pick(n)
		}, h.Horizon, h.Threads...)
		c.steps += res.Steps
		c.Log("schedule %v", compact(res.Schedule))
		if n := vsched.RaceErrors(); n > r.raceSeen {
			r.raceSeen = n
			key, text := raceReport()
			c.Fail("data race"+key, "%s", text)
		}
		for i, p := range res.Panics {
			c.Fail("panic: "+firstLine(p), "%s\n%s", p, trimStack(res.Stacks[i]))
		}
		if res.Deadlock {
			c.Fail("deadlock", "no thread can go on: %s", res.Stuck)
			return
		}
		if res.Horizon {
			c.Fail("no termination", "still running after %d scheduling steps", h.Horizon)
			return
		}
		if res.Leaked > 0 && !h.LeakOK {
			c.Fail("goroutine leak", "%d background goroutines are blocked for ever", res.Leaked)
		}
		if h.After != nil {
			h.After(c, res)
		}
		c.r.Outcome(fmt.Sprint(res.Schedule))
	})
}

func compact(s []int) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && s[j] == s[i] {
			j++
		}
		fmt.Fprintf(&b, "t%d*%d ", s[i], j-i)
		i = j
	}
	return b.String()
}

// raceReport reads the newest report of the race detector.
func raceReport() (key, text string) {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if err != nil {
				return "", err.Error()
			}
			parts := strings.Split(string(b), "==================")
			for i := len(parts) - 1; i >= 0; i-- {
				if strings.Contains(parts[i], "DATA RACE") {
					text = parts[i]
					break
				}
			}
		}
	}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if (strings.Contains(l, "rite at 0x") || strings.Contains(l, "ead at 0x")) && i+1 < len(lines) {
			fn := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndexByte(fn, '/'); k >= 0 {
				fn = fn[k+1:]
			}
			key += " " + fn
		}
	}
	if len(text) > 3500 {
		text = text[:3500]
	}
	return key, text
}
