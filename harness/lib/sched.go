//go:build go1.24

package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"recengine/internal/zzverif/mc"
)

// Scenario is a concurrent program whose schedules are explored.
type Scenario struct {
	Name  string
	Bound int  // deviations from the default schedule allowed
	Delay bool // count departures at blocking points as well
	// New prepares one execution.
	New func() Program
	// QueueCap, if not 0, is the capacity of channels made with 32 or more.
	QueueCap int
	// OnlyRaces says that only unordered accesses count.
	OnlyRaces bool
	// Cold asks for the first schedule and all that deviate from it once to be
	// run in fresh processes as well, where nothing has been initialised yet.
	Cold bool
	// Group, if not empty, names the scenarios reported together.
	Group string
}

// Program is one execution of a scenario.
type Program struct {
	Body    func()                         // the main thread
	After   func(e *mc.Exec)               // checks the final state; panics with Failed
	OnTimer func(e *mc.Exec, owner string) // a virtual timer expires
}

type schedReq struct {
	Scenario int     `json:"s"`
	Bound    int     `json:"b"`
	Prefixes [][]int `json:"p"`
	BudgetMS int     `json:"t"`
	Trace    bool    `json:"trace"` // execute the first prefix only, with a trace
}

type schedRes struct {
	Execs    int64    `json:"n"`
	Steps    int64    `json:"st"`
	Points   int64    `json:"pt"`
	Longest  int      `json:"lg"`
	Preempts []int64  `json:"pre"`
	Diverged int64    `json:"div"`
	Left     [][]int  `json:"left"`
	Fail     bool     `json:"fail"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Stack    string   `json:"stack"`
	Path     []int    `json:"path"`
	Trace    []string `json:"tr"`
}

// execute runs one schedule of the scenario.
func (sc *Scenario) execute(prefix []int, bound int, trace bool) (*mc.Exec, *Failed) {
	pr := sc.New()
	var fail *Failed
	e := mc.Execute(prefix, bound, trace, pr.Body, func(e *mc.Exec) {
		f, st, _ := guard(func() {
			if pr.After != nil {
				pr.After(e)
			}
		})
		if f != nil {
			fail = f
			e.Fail = f.Msg
			e.Stack = st
		}
	}, func(e *mc.Exec) {
		e.Delay = sc.Delay
		if sc.QueueCap > 0 {
			e.ChanCap = func(n int) int {
				if n >= 32 {
					return sc.QueueCap
				}
				return n
			}
		}
		if pr.OnTimer != nil {
			e.OnTimer = func(o string) { pr.OnTimer(e, o) }
		}
	})
	if m, rep := races(); m != "" && (fail == nil && e.Fail == "" || sc.OnlyRaces) {
		e.Fail, e.Stack = m, rep
		return e, &Failed{"race", m}
	}
	if sc.OnlyRaces && !strings.Contains(e.Fail, "VERIF-INTERNAL") {
		return e, nil
	}
	if fail == nil && e.Fail != "" {
		key := "schedule"
		for _, k := range []string{"deadlock", "panic"} {
			if strings.HasPrefix(e.Fail, k) {
				key = k
			}
		}
		if strings.Contains(e.Fail, "VERIF-INTERNAL") {
			panic(e.Fail + "\n" + e.Stack)
		}
		fail = &Failed{key, e.Fail}
	}
	return e, fail
}

func schedWorker(scs []Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	log.SetOutput(io.Discard)
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	mc.MaxSteps = 50000
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	enc := json.NewEncoder(out)
	for {
		var q schedReq
		if dec.Decode(&q) != nil {
			os.Exit(0)
		}
		sc := &scs[q.Scenario]
		var res schedRes
		if q.Trace {
			e, f := sc.execute(q.Prefixes[0], q.Bound, true)
			res.Path, res.Trace = e.Choices, e.Trace
			if f != nil {
				res.Fail, res.Key, res.Msg, res.Stack = true, f.Key, f.Msg, e.Stack
			}
			enc.Encode(&res)
			continue
		}
		res.Preempts = make([]int64, q.Bound+1)
		stack := q.Prefixes
		end := time.Now().Add(time.Duration(q.BudgetMS) * time.Millisecond)
		for len(stack) > 0 {
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			e, f := sc.execute(p, q.Bound, false)
			if e.Diverged {
				res.Diverged++
				continue
			}
			res.Execs++
			res.Steps += int64(e.Steps)
			if e.Steps > res.Longest {
				res.Longest = e.Steps
			}
			if e.Preempt <= q.Bound {
				res.Preempts[e.Preempt]++
			}
			if f != nil {
				res.Fail, res.Key, res.Msg, res.Stack, res.Path = true, f.Key, f.Msg, e.Stack, append([]int{}, e.Choices...)
				break
			}
			for i := len(e.Choices) - 1; i >= len(p); i-- {
				res.Points++
				for v := e.Arity[i] - 1; v > 0; v-- {
					stack = append(stack, append(append(make([]int, 0, i+1), e.Choices[:i]...), v))
				}
			}
			if time.Now().After(end) {
				break
			}
		}
		res.Left = stack
		enc.Encode(&res)
	}
}

type schedProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
	err tail
}

func (r *Run) startWorker(i int) *schedProc {
	p := &schedProc{}
	p.cmd = exec.Command(os.Args[0], os.Args[1:]...)
	dir := fmt.Sprintf("%s/w%d", os.Getenv("VERIF_SCRATCH"), i)
	os.MkdirAll(dir, 0755)
	p.cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "VERIF_SCRATCH="+dir, "GOMEMLIMIT=2GiB")
	p.cmd.Dir = dir
	p.cmd.Stderr = &p.err
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-INTERNAL worker:", err)
		os.Exit(3)
	}
	p.enc = json.NewEncoder(p.in)
	p.dec = json.NewDecoder(bufio.NewReaderSize(o, 1<<16))
	return p
}

// ask sends a request; fail is set if the worker died or did not answer.
func (p *schedProc) ask(q *schedReq) (res *schedRes, fail *Failed, stack string) {
	type ans struct {
		r   schedRes
		err error
	}
	c := make(chan ans, 1)
	go func() {
		var a ans
		if a.err = p.enc.Encode(q); a.err == nil {
			a.err = p.dec.Decode(&a.r)
		}
		c <- a
	}()
	select {
	case a := <-c:
		if a.err == nil {
			return &a.r, nil, ""
		}
		p.cmd.Wait()
		out := string(p.err.all())
		if strings.Contains(out, "VERIF-INTERNAL") || !strings.Contains(out, "panic: ") && !strings.Contains(out, "fatal error: ") {
			fmt.Fprintln(os.Stderr, "VERIF-INTERNAL worker ended:", a.err, out)
			os.Exit(3)
		}
		return nil, &Failed{"process-crash", "the process under test died"}, out
	case <-time.After(hangAfter):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return nil, &Failed{"hang", fmt.Sprintf("an execution did not end within %v", hangAfter)}, ""
	}
}

// Schedules explores every schedule of the check's scenarios within bounds.
func (r *Run) Schedules() {
	scs := r.check.Scenarios(r.Thorough)
	if r.Replay != nil {
		log.SetOutput(io.Discard)
		for i := range scs {
			if scs[i].Name != r.Replay.Explorer {
				continue
			}
			bound := scs[i].Bound
			if e, f := scs[i].execute(r.Replay.Path, bound, true); f != nil {
				r.Fail(&Violation{Explorer: scs[i].Name, Path: e.Choices, Key: f.Key, Message: f.Msg, Steps: trim(e.Trace), Stack: e.Stack})
			}
		}
		return
	}
	n := Workers()
	procs := make([]*schedProc, n)
	for i := range procs {
		procs[i] = r.startWorker(i)
	}
	defer func() {
		for _, p := range procs {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}()
	maxBound := 0
	for _, sc := range scs {
		if sc.Bound > maxBound {
			maxBound = sc.Bound
		}
	}
	if o := os.Getenv("VERIF_ONLY"); o != "" { // for debugging
		for i := range scs {
			if !strings.Contains(scs[i].Name, o) {
				scs[i].Bound, scs[i].Cold = -1, false
			}
		}
	}
	r.cold(scs)
	// Shallow bounds of every scenario first; what takes long is set aside
	// and resumed when the others are done.
	var jobs []*job
	for b := 0; b <= maxBound; b++ {
		for i := range scs {
			if b <= scs[i].Bound {
				jobs = append(jobs, &job{si: i, sc: &scs[i], bound: b, queue: [][]int{{}}, pre: make([]int64, b+1)})
			}
		}
	}
	for slice := r.Left() / 24; len(jobs) > 0; slice *= 2 {
		var later []*job
		for _, j := range jobs {
			if !r.stopped.Load() && !r.TimeUp() {
				r.schedule(procs, j, time.Now().Add(slice))
			}
			switch {
			case r.stopped.Load() || r.TimeUp():
				r.report(procs, j)
			case len(j.queue) > 0:
				later = append(later, j)
			default:
				r.report(procs, j)
			}
		}
		jobs = later
	}
	for _, k := range r.groupNames {
		g := r.groups[k]
		r.Part(k, "programs", g.programs, "programs_complete", g.complete, "schedules", g.execs, "schedules_by_deviations", g.pre, "steps", g.steps,
			"decision_points", g.points, "longest_execution_steps", g.longest, "seconds", g.took.Seconds())
	}
}

// cold runs the scenarios marked Cold, each schedule in a process of its own.
func (r *Run) cold(scs []Scenario) {
	type run struct {
		si     int
		prefix []int
	}
	var todo, later []run
	for i := range scs {
		if scs[i].Cold {
			todo = append(todo, run{i, []int{}})
		}
	}
	if len(todo) == 0 {
		return
	}
	start, until := time.Now(), time.Now().Add(r.Left()/3)
	programs, execs, steps, left := len(todo), int64(0), int64(0), 0
	var mu sync.Mutex
	for len(todo) > 0 {
		var wg sync.WaitGroup
		var next atomic.Int64
		for w := 0; w < Workers(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= len(todo) {
						return
					}
					if r.stopped.Load() || time.Now().After(until) {
						mu.Lock()
						left++
						mu.Unlock()
						continue
					}
					t := todo[i]
					sc := &scs[t.si]
					ask := func(q *schedReq) (*schedRes, *Failed, string) {
						p := r.startWorker(Workers() + w)
						defer func() {
							p.in.Close()
							p.cmd.Process.Kill()
							p.cmd.Wait()
						}()
						return p.ask(q)
					}
					res, f, st := ask(&schedReq{Scenario: t.si, Bound: sc.Bound, Prefixes: [][]int{t.prefix}})
					if f != nil {
						r.Fail(&Violation{Explorer: sc.Name, Path: t.prefix, Key: f.Key, Message: f.Msg, Stack: st})
						continue
					}
					if res.Fail {
						v := &Violation{Explorer: sc.Name, Path: res.Path, Key: res.Key, Message: sc.Name + ": " + res.Msg + " (when first used in a process)", Stack: res.Stack}
						if x, f, _ := ask(&schedReq{Scenario: t.si, Bound: sc.Bound, Prefixes: [][]int{res.Path}, Trace: true}); f == nil {
							v.Steps = trim(x.Trace)
						}
						r.Fail(v)
						continue
					}
					mu.Lock()
					execs += res.Execs
					steps += res.Steps
					if len(t.prefix) == 0 {
						for _, l := range res.Left {
							later = append(later, run{t.si, l})
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		slices.SortFunc(later, func(a, b run) int {
			if c := len(a.prefix) - len(b.prefix); c != 0 {
				return c
			}
			return a.si - b.si
		})
		todo, later = later, nil
	}
	if left > 0 && !r.stopped.Load() {
		r.Incomplete(fmt.Sprintf("%d schedules not run in fresh processes (deadline)", left))
	}
	r.Transitions.Add(steps)
	r.Traces.Add(execs)
	r.Part("schedules run in fresh processes, one deviation", "programs", programs, "schedules", execs, "steps", steps, "not_run", left, "seconds", time.Since(start).Seconds())
}

// group sums up the exploration of several programs.
type group struct {
	programs, complete, longest int
	execs, steps, points        int64
	pre                         []int64
	took                        time.Duration
}

// job is the exploration of one scenario up to one bound.
type job struct {
	si                        int
	sc                        *Scenario
	bound                     int
	queue                     [][]int
	execs, steps, points, div int64
	longest                   int
	pre                       []int64
	last                      []int
	took                      time.Duration
}

func trim(t []string) []string {
	if len(t) > 400 {
		return append(append(append([]string{}, t[:200]...), "..."), t[len(t)-200:]...)
	}
	return t
}

// schedule works on the job until it is done or the time is over.
func (r *Run) schedule(procs []*schedProc, j *job, until time.Time) {
	start := time.Now()
	defer func() { j.took += time.Since(start) }()
	over := func() bool { return r.Stop() || time.Now().After(until) }
	si, sc, bound := j.si, j.sc, j.bound
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy := 0
	var wg sync.WaitGroup
	for w := range procs {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(j.queue) == 0 && busy > 0 && !r.stopped.Load() {
					cond.Wait()
				}
				if len(j.queue) == 0 || over() {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				k := 1
				if len(j.queue) > 8*len(procs) {
					k = 8
				}
				q := &schedReq{Scenario: si, Bound: bound, BudgetMS: 250, Prefixes: append([][]int{}, j.queue[len(j.queue)-k:]...)}
				j.queue = j.queue[:len(j.queue)-k]
				if len(j.queue) < len(procs) {
					q.BudgetMS = 15
				}
				busy++
				mu.Unlock()
				res, f, st := procs[w].ask(q)
				if f != nil {
					r.Fail(&Violation{Explorer: sc.Name, Path: q.Prefixes[0], Key: f.Key, Message: f.Msg, Stack: st})
				} else if res.Fail {
					v := &Violation{Explorer: sc.Name, Path: res.Path, Key: res.Key, Message: sc.Name + ": " + res.Msg, Stack: res.Stack}
					if !r.Fail(v) {
						same := 0
						for i := 0; i < 5; i++ {
							x, f, _ := procs[w].ask(&schedReq{Scenario: si, Bound: bound, Prefixes: [][]int{res.Path}, Trace: true})
							if f != nil {
								break
							}
							if x.Fail {
								same++
								v.Steps = trim(x.Trace)
							}
						}
						v.Rerun = fmt.Sprintf("%d/5 reruns failed again", same)
					}
				}
				mu.Lock()
				busy--
				if res != nil {
					j.execs += res.Execs
					j.steps += res.Steps
					j.points += res.Points
					j.div += res.Diverged
					j.longest = max(j.longest, res.Longest)
					for i, n := range res.Preempts {
						j.pre[i] += n
					}
					j.queue = append(j.queue, res.Left...)
					if len(res.Left) > 0 {
						j.last = res.Left[0]
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
}

// finish reports what has been explored.
func (r *Run) report(procs []*schedProc, j *job) {
	si, sc, bound := j.si, j.sc, j.bound
	switch {
	case len(j.queue) == 0 || r.stopped.Load():
	case j.execs == 0:
		r.Incomplete(fmt.Sprintf("%s: bound %d not started", sc.Name, bound))
		return
	default:
		r.Incomplete(fmt.Sprintf("%s: bound %d, %d schedules done (deadline)", sc.Name, bound, j.execs))
	}
	if j.div > 0 {
		r.Incomplete(fmt.Sprintf("%s: %d schedules did not repeat", sc.Name, j.div))
	}
	r.States.Add(j.points)
	r.Transitions.Add(j.steps)
	r.Traces.Add(j.execs)
	if bound == sc.Bound && j.last != nil && !r.stopped.Load() {
		if x, f, _ := procs[0].ask(&schedReq{Scenario: si, Bound: bound, Prefixes: [][]int{j.last}, Trace: true}); f == nil {
			r.Sample(map[string]any{"scenario": sc.Name, "schedule": x.Path, "trace": trimTo(x.Trace, 60)})
		}
	}
	kind := "preemption bound"
	if sc.Delay {
		kind = "delay bound"
	}
	if sc.Group != "" {
		k := fmt.Sprintf("%s, %s %d", sc.Group, kind, bound)
		g := r.groups[k]
		if g == nil {
			g = &group{pre: make([]int64, bound+1)}
			r.groups[k] = g
			r.groupNames = append(r.groupNames, k)
		}
		g.programs++
		if len(j.queue) == 0 {
			g.complete++
		}
		g.execs, g.steps, g.points = g.execs+j.execs, g.steps+j.steps, g.points+j.points
		g.longest, g.took = max(g.longest, j.longest), g.took+j.took
		for i, n := range j.pre {
			g.pre[i] += n
		}
		return
	}
	r.Part(sc.Name, kind, bound, "schedules", j.execs, "schedules_by_deviations", j.pre, "steps", j.steps, "decision_points", j.points, "longest_execution_steps", j.longest,
		"complete", len(j.queue) == 0, "seconds", j.took.Seconds())
}

func trimTo(t []string, n int) []string {
	if len(t) > n {
		return append(append([]string{}, t[:n]...), "...")
	}
	return t
}
