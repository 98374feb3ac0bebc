//go:build go1.24

// Package lib holds what every check shares: the run record and its evidence
// file, violation and known-finding reporting, a watchdog, the two explorers
// and the simulated file.
package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is the body of one property's check.
type Check struct {
	Level       string // level reported in the evidence
	Rule        string
	Assumptions []string
	Fn          func(r *Run)
	Scenarios   func(thorough bool) []Scenario // for Run.Schedules
	// Procs makes Enumerate and ForEach divide their cases among processes
	// instead of goroutines: the code under test uses process-wide state.
	Procs bool
}

// Violation is one failing case.
type Violation struct {
	Property string   `json:"property"`
	Explorer string   `json:"explorer"`
	Start    int      `json:"start"`
	Path     []int    `json:"path"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Steps    []string `json:"steps"`
	Stack    string   `json:"stack,omitempty"`
	Rerun    string   `json:"reruns,omitempty"`
}

// Run is one run of one check.
type Run struct {
	ID, Tier string
	Seed     int
	Thorough bool
	Replay   *Violation
	Serial   bool // ForEach uses one worker

	check       Check
	start       time.Time
	deadline    time.Time
	evidence    string
	replayPath  string
	known       map[string]string
	knownHit    sync.Map
	stopped     atomic.Bool
	memory      atomic.Bool // exploring ends: the memory is used up
	mu          sync.Mutex
	violation   *Violation
	States      atomic.Int64
	Transitions atomic.Int64
	Traces      atomic.Int64
	Evals       atomic.Int64
	Nontrivial  atomic.Int64
	samples     []any
	extra       map[string]any
	incomplete  []string
	nincomplete int
	groups      map[string]*group
	groupNames  []string
	parts       []map[string]any
	slots       [64]slot
	shard       int
	shards      int // 0: not divided
	spaces      int
	ownSharing  bool
}

type slot struct {
	since atomic.Int64
	what  atomic.Pointer[func() string]
}

var realStdout *os.File

// Main runs the check selected on the command line.
func Main(checks map[string]Check) {
	a := map[string]string{}
	for i := 1; i+1 < len(os.Args); i += 2 {
		a[strings.TrimPrefix(os.Args[i], "-")] = os.Args[i+1]
	}
	id := a["prop"]
	c, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %q here\n", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_WORKER") != "" {
		schedWorker(c.Scenarios(a["tier"] == "thorough"))
	}
	if os.Getenv("VERIF_CHILD") == "" {
		if c.Procs && a["replaycase"] == "" {
			os.Exit(superviseAll(a, c))
		}
		os.Exit(supervise(a, c))
	}
	r := newRun(a, c)
	if r.shards > 0 {
		d := fmt.Sprintf("%s/s%d", os.Getenv("VERIF_SCRATCH"), r.shard)
		os.MkdirAll(d, 0755)
		os.Setenv("VERIF_SCRATCH", d)
		os.Setenv("TMPDIR", d)
		os.Chdir(d)
	}
	// The code under test prints to the standard output and logs.
	fd, err := syscall.Dup(1)
	if err == nil {
		realStdout = os.NewFile(uintptr(fd), "stdout")
		if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
	} else {
		realStdout = os.Stdout
	}
	log.SetOutput(io.Discard)
	go r.watch()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	if r.shards > 0 {
		debug.SetMemoryLimit(2 << 30)
	}
	c.Fn(r)
	os.Exit(r.finish())
}

func newRun(a map[string]string, c Check) *Run {
	r := &Run{ID: a["prop"], Tier: a["tier"], check: c, start: time.Now(), evidence: a["evidence"], replayPath: a["replay"], known: map[string]string{}, extra: map[string]any{}, groups: map[string]*group{}}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.Thorough = r.Tier == "thorough"
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &r.shard, &r.shards)
	budget := 240 * time.Second
	if r.Thorough {
		budget = 3000 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	r.deadline = r.start.Add(budget)
	if data, err := os.ReadFile(a["known"]); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			f := strings.SplitN(l, " ", 4)
			if len(f) == 4 && f[0] == "known:" && f[1] == "property="+r.ID && strings.HasPrefix(f[2], "key=") {
				r.known[strings.TrimPrefix(f[2], "key=")] = f[3]
			}
		}
	}
	if p := a["replaycase"]; p != "" {
		data, err := os.ReadFile(p)
		if err == nil {
			r.Replay = &Violation{}
			err = json.Unmarshal(data, r.Replay)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	return r
}

// supervise runs the check in a child process, so that a fatal error in the
// code under test (stack overflow, runaway allocation) is reported as well.
func supervise(a map[string]string, c Check) int {
	lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
	if os.Getenv("VERIF_NOLIMIT") == "" {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	var args []string
	for k, v := range a {
		if k != "shard" && k != "onstart" {
			args = append(args, "-"+k, v)
		}
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1")
	if s := a["shard"]; s != "" {
		cmd.Env = append(cmd.Env, "VERIF_SHARD="+s)
	}
	var errOut tail
	if a["shard"] == "" {
		cmd.Stdout = os.Stdout
	}
	cmd.Stderr = &errOut
	err := cmd.Start()
	if err == nil {
		if f := a["onstart"]; f != "" {
			os.WriteFile(f, []byte(strconv.Itoa(cmd.Process.Pid)), 0644)
		}
		err = cmd.Wait()
	}
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 {
		if os.Getenv("VERIF_STDERR") != "" {
			os.Stderr.Write(errOut.all())
		}
		return code
	}
	out := string(errOut.all())
	if code == 2 && (strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: ") || strings.Contains(out, "goroutine stack exceeds")) &&
		!strings.Contains(out, "VERIF-INTERNAL") {
		r := newRun(a, c)
		realStdout = os.Stdout
		msg := out
		if i := strings.Index(out, "fatal error: "); i >= 0 {
			msg = out[i:]
		} else if i := strings.Index(out, "panic: "); i >= 0 {
			msg = out[i:]
		}
		if len(msg) > 6000 {
			msg = msg[:6000]
		}
		r.violation = &Violation{Property: r.ID, Key: "process-crash", Message: "the process under test died", Stack: msg}
		return r.finish()
	}
	os.Stderr.WriteString(out)
	fmt.Fprintf(os.Stderr, "check process ended with %v\n", err)
	return 3
}

// superviseAll divides the check among processes and merges what they report.
func superviseAll(a map[string]string, c Check) int {
	n := Workers()
	dir := os.Getenv("VERIF_SCRATCH")
	codes := make(chan [2]int, n)
	args := make([]map[string]string, n)
	for i := range args {
		b := map[string]string{}
		for k, v := range a {
			b[k] = v
		}
		b["evidence"] = fmt.Sprintf("%s/evidence.%d", dir, i)
		b["replay"] = fmt.Sprintf("%s/replay.%d", dir, i)
		b["shard"] = fmt.Sprintf("%d/%d", i, n)
		b["onstart"] = fmt.Sprintf("%s/pid.%d", dir, i)
		args[i] = b
		go func() { codes <- [2]int{i, supervise(b, c)} }()
	}
	r := newRun(a, c)
	realStdout = os.Stdout
	bad := 0
	for range args {
		x := <-codes
		switch {
		case x[1] == 0 || r.violation != nil:
		case x[1] == 1:
			data, err := os.ReadFile(args[x[0]]["replay"])
			v := &Violation{}
			if err == nil {
				err = json.Unmarshal(data, v)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "VERIF-INTERNAL", err)
				return 3
			}
			r.violation = v
			for i, b := range args {
				if data, err := os.ReadFile(b["onstart"]); err == nil && i != x[0] {
					if pid, err := strconv.Atoi(string(data)); err == nil {
						syscall.Kill(pid, syscall.SIGKILL)
					}
				}
			}
		default:
			bad = x[1]
		}
	}
	if r.violation == nil && bad != 0 {
		return bad
	}
	parts := map[string]map[string]any{}
	var order []string
	seenIncomplete := map[string]bool{}
	for _, b := range args {
		data, err := os.ReadFile(b["evidence"])
		if err != nil {
			continue
		}
		var ev struct{ Coverage map[string]any }
		if json.Unmarshal(data, &ev) != nil {
			continue
		}
		num := func(k string) int64 { f, _ := ev.Coverage[k].(float64); return int64(f) }
		r.States.Add(num("states"))
		r.Transitions.Add(num("transitions"))
		r.Traces.Add(num("traces_validated_against_impl"))
		r.Evals.Add(num("evaluations"))
		r.Nontrivial.Add(num("distinct_nontrivial"))
		if l, ok := ev.Coverage["samples"].([]any); ok {
			for i, s := range l {
				if i < 3 {
					r.Sample(s)
				}
			}
		}
		if l, ok := ev.Coverage["not_covered"].([]any); ok {
			for _, s := range l {
				if t := fmt.Sprint(s); !seenIncomplete[t] {
					seenIncomplete[t] = true
					r.Incomplete(t)
				}
			}
		}
		l, _ := ev.Coverage["parts"].([]any)
		for _, p := range l {
			m := p.(map[string]any)
			name := fmt.Sprint(m["part"])
			have := parts[name]
			if have == nil {
				parts[name] = m
				order = append(order, name)
				continue
			}
			for k, v := range m {
				switch x := v.(type) {
				case float64:
					if y, ok := have[k].(float64); ok && k != "of" {
						have[k] = x + y
					}
				case bool:
					if y, ok := have[k].(bool); ok {
						have[k] = x && y
					}
				}
			}
		}
	}
	for _, n := range order {
		r.parts = append(r.parts, parts[n])
	}
	r.Extra("processes", n)
	return r.finish()
}

// tail keeps the first and last part of what is written to it.
type tail struct{ head, last []byte }

func (t *tail) Write(b []byte) (int, error) {
	n := len(b)
	if k := 20000 - len(t.head); k > 0 {
		if k > len(b) {
			k = len(b)
		}
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.last = append(t.last, b...)
	if len(t.last) > 40000 {
		t.last = append([]byte(nil), t.last[len(t.last)-20000:]...)
	}
	return n, nil
}

func (t *tail) all() []byte { return append(append([]byte(nil), t.head...), t.last...) }

// Stop reports whether exploring should end (violation found or time is up).
func (r *Run) Stop() bool {
	if r.stopped.Load() || r.memory.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		return true
	}
	return false
}

// TimeUp reports whether the internal deadline has passed.
func (r *Run) TimeUp() bool { return time.Now().After(r.deadline) }

// Left returns the time left before the internal deadline.
func (r *Run) Left() time.Duration { return time.Until(r.deadline) }

// Incomplete notes that a part of the space was not covered.
func (r *Run) Incomplete(what string) {
	r.mu.Lock()
	r.nincomplete++
	if len(r.incomplete) < 60 {
		r.incomplete = append(r.incomplete, what)
	} else {
		r.incomplete[59] = fmt.Sprintf("and %d others", r.nincomplete-59)
	}
	r.mu.Unlock()
}

// Part records the measured coverage of one part of the exploration.
func (r *Run) Part(name string, kv ...any) {
	m := map[string]any{"part": name}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.mu.Lock()
	r.parts = append(r.parts, m)
	r.mu.Unlock()
}

// Extra adds a figure to the evidence.
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// Sample adds an example case to the evidence (the first few are kept).
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Fail reports a failing case. It returns true if the case is a listed known
// finding, so that exploring goes on.
func (r *Run) Fail(v *Violation) bool {
	if _, ok := r.known[v.Key]; ok && v.Key != "" {
		r.knownHit.Store(v.Key, true)
		return true
	}
	r.mu.Lock()
	if r.violation == nil {
		v.Property = r.ID
		r.violation = v
	}
	r.mu.Unlock()
	r.stopped.Store(true)
	return false
}

// Begin and End mark a case for the watchdog.
func (r *Run) Begin(w int, what func() string) {
	r.slots[w&63].what.Store(&what)
	r.slots[w&63].since.Store(time.Now().UnixNano())
}

// End marks the end of a case.
func (r *Run) End(w int) { r.slots[w&63].since.Store(0) }

const hangAfter = 100 * time.Second

func (r *Run) watch() {
	for {
		time.Sleep(time.Second)
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(m)
		if m[0].Value.Uint64() > 9<<30 && !r.memory.Swap(true) {
			r.Incomplete("memory limit")
		}
		for i := range r.slots {
			s := r.slots[i].since.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangAfter {
				what := ""
				if f := r.slots[i].what.Load(); f != nil {
					what = (*f)()
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				r.Fail(&Violation{Key: "hang", Message: fmt.Sprintf("a call did not return within %v: %s", hangAfter, what), Stack: string(buf)})
				os.Exit(r.finish())
			}
		}
		if time.Since(r.deadline) > 120*time.Second {
			// A part did not look at the deadline in time: end the run.
			r.Incomplete("internal deadline")
			os.Exit(r.finish())
		}
	}
}

var finishOnce sync.Mutex

func (r *Run) finish() int {
	finishOnce.Lock()
	if r.TimeUp() && r.violation == nil {
		r.Incomplete("internal deadline reached")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{}
	for k, v := range r.extra {
		cov[k] = v
	}
	if s := r.States.Load(); s > 0 || r.check.Level == "model_checking" {
		cov["states"] = s
	}
	if s := r.Transitions.Load(); s > 0 || r.check.Level == "model_checking" {
		cov["transitions"] = s
	}
	if s := r.Traces.Load(); s > 0 || r.check.Level == "model_checking" {
		cov["traces_validated_against_impl"] = s
	}
	if s := r.Evals.Load(); s > 0 || r.check.Level == "fault_enumeration" || r.check.Level == "exploration" {
		cov["evaluations"] = s
	}
	if s := r.Nontrivial.Load(); s > 0 || r.check.Level == "fault_enumeration" || r.check.Level == "exploration" {
		cov["distinct_nontrivial"] = s
	}
	cov["rule"] = r.check.Rule
	if r.samples == nil {
		r.samples = []any{}
	}
	cov["samples"] = r.samples
	cov["parts"] = r.parts
	cov["exhaustive"] = len(r.incomplete) == 0 && r.violation == nil
	if len(r.incomplete) > 0 {
		cov["not_covered"] = r.incomplete
	}
	nv := 0
	if r.violation != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.check.Level,
		"coverage": cov, "assumptions": r.check.Assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": nv,
	}
	if r.check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-INTERNAL", err)
		return 3
	}
	if r.evidence != "" {
		if err := os.WriteFile(r.evidence, append(data, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "VERIF-INTERNAL", err)
			return 3
		}
	}
	var keys []string
	for k := range r.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(realStdout, "KNOWN-FINDING: property=%s %s\n", r.ID, r.known[k])
	}
	if v := r.violation; v != nil {
		b := &bytes.Buffer{}
		enc := json.NewEncoder(b)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", " ")
		enc.Encode(v)
		os.WriteFile(r.replayPath, b.Bytes(), 0644)
		fmt.Fprintf(realStdout, "%s: %s\n", r.ID, v.Message)
		for _, s := range v.Steps {
			fmt.Fprintf(realStdout, "    %s\n", s)
		}
		fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s\n", r.ID, r.replayPath)
		return 1
	}
	ex := "exhaustive within its bounds"
	if len(r.incomplete) > 0 {
		ex = "not exhaustive: " + strings.Join(r.incomplete, ", ")
	}
	fmt.Fprintf(realStdout, "OK property=%s states=%d transitions=%d executions=%d %s (%.1fs)\n", r.ID,
		r.States.Load(), r.Transitions.Load(), r.Traces.Load()+r.Evals.Load(), ex, time.Since(r.start).Seconds())
	return 0
}

// Workers is the number of parallel workers.
func Workers() int {
	if os.Getenv("VERIF_SHARD") != "" {
		return 1
	}
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}
