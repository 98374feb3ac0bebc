//go:build go1.24

package lib

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
)

// Failed is panicked by a case to report a violation.
type Failed struct{ Key, Msg string }

// Failf ends the current case with a violation.
func Failf(key, f string, a ...any) { panic(Failed{key, fmt.Sprintf(f, a...)}) }

// skip is panicked to abandon a case silently.
type skip struct{}

// Skip abandons the current case: it is not part of the space.
func Skip() { panic(skip{}) }

// guard runs f and turns a panic into a violation.
func guard(f func()) (fail *Failed, stack string, skipped bool) {
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case Failed:
				fail = &x
			case skip:
				skipped = true
			default:
				if strings.HasPrefix(fmt.Sprint(p), "VERIF-INTERNAL") {
					panic(p)
				}
				fail = &Failed{"panic", fmt.Sprintf("panic: %v", p)}
				stack = string(debug.Stack())
			}
		}
	}()
	f()
	return
}

// Guard runs f and returns a description of the violation it reports, if any.
func Guard(f func()) (msg string) {
	fail, _, _ := guard(f)
	if fail != nil {
		return fail.Msg
	}
	return ""
}

// System is a running instance of the real code with its reference model.
type System interface {
	// Do executes the operation and compares with the model; it panics with
	// Failed on a violation. It returns false if the operation is not enabled.
	Do(op int) bool
	// Hash adds the complete concrete state.
	Hash(h *Hasher)
}

// Space is a state space to search breadth-first.
type Space struct {
	Name   string
	Starts []string // names of the initial states
	New    func(start int) System
	Ops    []string
	Depth  int
	Max    int // cap on distinct states (0: none)
	// AtState, if set, is called once for every distinct state, on a fresh
	// instance in that state.
	AtState func(start int, path []int, s System)
}

type node struct {
	start int
	path  []int
}

// BFS explores every operation sequence up to the depth, merging equal states.
// Divided among processes, each space is searched by one of them.
func (r *Run) BFS(sp Space) {
	name := sp.Name
	if r.shards > 0 && r.Replay == nil {
		r.spaces++
		if (r.spaces-1)%r.shards != r.shard {
			return
		}
	}
	if r.Replay != nil {
		if r.Replay.Explorer == name {
			r.runPath(sp, node{r.Replay.Start, r.Replay.Path}, 0)
		}
		return
	}
	seen := make([]map[[16]byte]struct{}, 256)
	locks := make([]sync.Mutex, 256)
	for i := range seen {
		seen[i] = map[[16]byte]struct{}{}
	}
	var nstates, ntrans atomic.Int64
	add := func(s System) bool {
		h := NewHasher()
		s.Hash(h)
		sum := h.Sum()
		i := sum[0]
		locks[i].Lock()
		defer locks[i].Unlock()
		if _, ok := seen[i][sum]; ok {
			return false
		}
		seen[i][sum] = struct{}{}
		nstates.Add(1)
		return true
	}
	var frontier []node
	for i := range sp.Starts {
		n := node{start: i}
		s := r.runPath(sp, n, 0)
		if s == nil {
			if r.Stop() {
				break
			}
			continue
		}
		if add(s) {
			frontier = append(frontier, n)
			if sp.AtState != nil {
				r.guarded(sp, n, 0, func() { sp.AtState(n.start, n.path, s) })
			}
		}
	}
	depth := 0
	for depth < sp.Depth && len(frontier) > 0 && !r.Stop() {
		var next []node
		var mu sync.Mutex
		var idx atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < Workers(); w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				var local []node
				for !r.Stop() {
					i := int(idx.Add(1)) - 1
					if i >= len(frontier) {
						break
					}
					n := frontier[i]
					for op := range sp.Ops {
						if r.Stop() {
							break
						}
						c := node{n.start, append(append(make([]int, 0, len(n.path)+1), n.path...), op)}
						s := r.runPath(sp, c, w)
						if s == nil {
							continue
						}
						ntrans.Add(1)
						if add(s) {
							local = append(local, c)
							if nstates.Load()%5000 == 1 {
								r.Sample(sp.describe(c))
							}
							if sp.AtState != nil {
								r.guarded(sp, c, w, func() { sp.AtState(c.start, c.path, s) })
							}
						}
					}
				}
				mu.Lock()
				next = append(next, local...)
				mu.Unlock()
			}(w)
		}
		wg.Wait()
		if !r.Stop() {
			depth++
		} else if r.TimeUp() {
			r.Incomplete(fmt.Sprintf("%s: depth %d of %d (deadline)", name, depth+1, sp.Depth))
		}
		frontier = next
		if sp.Max > 0 && nstates.Load() > int64(sp.Max) && depth < sp.Depth {
			r.Incomplete(fmt.Sprintf("%s: stopped after depth %d of %d at the state cap", name, depth, sp.Depth))
			break
		}
	}
	r.States.Add(nstates.Load())
	r.Transitions.Add(ntrans.Load())
	r.Traces.Add(ntrans.Load())
	if len(frontier) > 0 {
		r.Sample(sp.describe(frontier[len(frontier)/2]))
	}
	r.Part(name, "states", nstates.Load(), "transitions", ntrans.Load(), "depth_completed", depth, "depth_bound", sp.Depth, "operations", len(sp.Ops), "initial_states", len(sp.Starts), "closed", len(frontier) == 0)
}

func (sp *Space) describe(n node) []string {
	out := []string{"start: " + sp.Starts[n.start]}
	for _, o := range n.path {
		out = append(out, sp.Ops[o])
	}
	return out
}

// runPath builds the state from scratch. nil: not enabled or violation.
func (r *Run) runPath(sp Space, n node, w int) System {
	var s System
	ok := true
	good := r.guarded(sp, n, w, func() {
		s = sp.New(n.start)
		for _, o := range n.path {
			if !s.Do(o) {
				ok = false
				return
			}
		}
	})
	if !good || !ok {
		return nil
	}
	return s
}

func (r *Run) guarded(sp Space, n node, w int, f func()) bool {
	r.Begin(w, func() string { return fmt.Sprint(sp.Name, sp.describe(n)) })
	fail, stack, skipped := guard(f)
	r.End(w)
	if fail == nil {
		return !skipped
	}
	v := &Violation{Explorer: sp.Name, Start: n.start, Path: n.path, Key: fail.Key, Message: fail.Msg, Steps: sp.describe(n), Stack: stack}
	if !r.Fail(v) && r.Replay == nil {
		same := 0
		for i := 0; i < 5; i++ {
			g, _, _ := guard(f)
			if g != nil {
				same++
			}
		}
		v.Rerun = fmt.Sprintf("%d/5 reruns failed again", same)
	}
	return false
}

// C is one execution of a choice tree.
type C struct {
	prefix  []int
	choices []int
	arity   []int
	Steps   []string
	quiet   bool
	r       *Run
	nontriv bool

	diverged bool
	shared   int // the length of the path at the call of Share, or -1
	foreign  bool
}

// Path describes the choices made so far.
func (c *C) Path() string { return fmt.Sprint(c.choices) }

// A Mark is a point of an execution that can be resumed from.
type Mark struct {
	choices, arity []int
	shared         int
	State          any
}

// Marks are the points executions can be resumed from.
type Marks map[string]*Mark

// Save makes the point resumable; state is what the caller needs to resume.
func (c *C) Save(m Marks, state any) {
	k := pathKey(c.choices)
	if m[k] == nil {
		m[k] = &Mark{append([]int(nil), c.choices...), append([]int(nil), c.arity...), c.shared, state}
	}
}

// Resume goes on from the latest saved point on the way, if there is one. It
// must be called before any choice. Executions that are reported start anew.
func (c *C) Resume(m Marks) (state any) {
	if !c.quiet || c.r.Replay != nil || len(m) == 0 {
		return nil
	}
	k := pathKey(c.prefix)
	for i := len(k); i > 0; i -= 2 {
		if s := m[k[:i]]; s != nil {
			c.choices = append([]int(nil), s.choices...)
			c.arity = append([]int(nil), s.arity...)
			c.shared = s.shared
			return s.State
		}
	}
	return nil
}

func pathKey(p []int) string {
	b := make([]byte, 0, 2*len(p))
	for _, x := range p {
		b = append(b, byte(x>>8), byte(x))
	}
	return string(b)
}

// Share divides what follows among the processes by the key: it ends the
// execution if another process explores it. Only the first call counts.
func (c *C) Share(key string) {
	if c.r.shards == 0 || c.r.Replay != nil || c.shared >= 0 {
		return
	}
	c.shared = len(c.choices)
	h := fnv.New32a()
	h.Write([]byte(key))
	c.foreign = int(h.Sum32()>>8)%c.r.shards != c.r.shard
	if c.foreign {
		Skip()
	}
}

// Replaying tells whether a single case is being replayed.
func (c *C) Replaying() bool { return c.r.Replay != nil }

// Choose returns a number below n, exploring all of them.
func (c *C) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			// The code under test took another path than last time. What is
			// observed is judged all the same, but it is not all there is.
			v = n - 1
			c.diverged = true
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	return v
}

// Note describes a step of the execution.
func (c *C) Note(f string, a ...any) {
	if !c.quiet {
		c.Steps = append(c.Steps, fmt.Sprintf(f, a...))
	}
}

// Interesting marks the execution as non-trivial for the evidence.
func (c *C) Interesting() { c.nontriv = true }

// Tree is a choice tree to enumerate completely.
type Tree struct {
	Name string
	Fn   func(c *C)
	// Split bounds how many leading choices are divided among workers.
}

// shardDepth is the number of leading choices that divide a tree among processes.
const shardDepth = 5

// EnumerateShared is Enumerate for a function that calls Share on (nearly)
// every path.
func (r *Run) EnumerateShared(name string, fn func(c *C)) {
	r.ownSharing = true
	defer func() { r.ownSharing = false }()
	r.Enumerate(name, fn)
}

// Enumerate executes every path of the tree.
func (r *Run) Enumerate(name string, fn func(c *C)) {
	one := func(prefix []int, quiet bool) (*C, *Failed, string, bool) {
		c := &C{prefix: prefix, quiet: quiet, r: r, shared: -1}
		f, st, sk := guard(func() { fn(c) })
		return c, f, st, sk
	}
	report := func(c *C, f *Failed) {
		// Again with notes.
		path := append([]int(nil), c.choices...)
		c2, f2, st, _ := one(path, false)
		if f2 == nil {
			f2 = f
		}
		v := &Violation{Explorer: name, Path: path, Key: f.Key, Message: f2.Msg, Steps: c2.Steps, Stack: st}
		if !r.Fail(v) && r.Replay == nil {
			same := 0
			for i := 0; i < 5; i++ {
				if _, g, _, _ := one(path, true); g != nil {
					same++
				}
			}
			v.Rerun = fmt.Sprintf("%d/5 reruns failed again", same)
		}
	}
	if r.Replay != nil {
		if r.Replay.Explorer == name {
			c, f, _, _ := one(r.Replay.Path, true)
			if f != nil {
				report(c, f)
			}
		}
		return
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{{}}
	busy := 0
	var runs, nontriv atomic.Int64
	var diverged atomic.Bool
	var wg sync.WaitGroup
	// mine tells whether the path belongs to this process: the paths are
	// divided by their first choices, the rest of a path follows them.
	mine := func(path []int) bool {
		if r.shards == 0 {
			return true
		}
		h := uint32(2166136261)
		for i := 0; i < len(path) && i < shardDepth; i++ {
			h = (h ^ uint32(path[i]+1)) * 16777619
		}
		return int(h>>8)%r.shards == r.shard
	}
	for w := 0; w < Workers(); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && busy > 0 {
					cond.Wait()
				}
				if len(stack) == 0 || r.Stop() {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				mu.Unlock()
				// Depth-first below p; hand out work when others are idle.
				local := [][]int{p}
				for len(local) > 0 && !r.Stop() {
					p := local[len(local)-1]
					local = local[:len(local)-1]
					r.Begin(w, func() string { return fmt.Sprint(name, p) })
					c, f, _, skipped := one(p, true)
					r.End(w)
					if c.diverged && !diverged.Swap(true) {
						r.Incomplete(name + ": the executions are not deterministic")
					}
					own, depth := mine(c.choices), shardDepth
					if c.shared >= 0 {
						own, depth = !c.foreign, c.shared
					} else if r.ownSharing {
						depth = len(c.choices)
					}
					n := int64(0)
					if own {
						n = runs.Add(1)
						if c.nontriv && !skipped {
							nontriv.Add(1)
						}
					}
					if f != nil {
						report(c, f)
					} else if n == 10 || n == 1000 || n == 30000 {
						c2, _, _, _ := one(c.choices, false)
						r.Sample(map[string]any{"explorer": name, "choices": c2.choices, "steps": c2.Steps})
					}
					for i := len(c.choices) - 1; i >= len(p); i-- {
						if i >= depth && !own {
							continue
						}
						for alt := c.arity[i] - 1; alt > c.choices[i]; alt-- {
							local = append(local, append(append(make([]int, 0, i+1), c.choices[:i]...), alt))
						}
					}
					if len(local) > 1 {
						mu.Lock()
						if len(stack) < Workers() {
							// The shallowest prefixes hold the most work.
							k := len(local) / 2
							if k > 64 {
								k = 64
							}
							stack = append(stack, local[:k]...)
							local = append([][]int(nil), local[k:]...)
							cond.Broadcast()
						}
						mu.Unlock()
					}
				}
				mu.Lock()
				busy--
				if len(local) > 0 {
					stack = append(stack, local...)
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	complete := len(stack) == 0
	if !complete && r.TimeUp() {
		r.Incomplete(name + ": deadline")
	}
	r.Evals.Add(runs.Load())
	r.Nontrivial.Add(nontriv.Load())
	r.Traces.Add(runs.Load())
	r.Part(name, "executions", runs.Load(), "nontrivial", nontriv.Load(), "complete", complete)
}

// ForEach runs fn for 0..n-1 in parallel, each as one case.
func (r *Run) ForEach(name string, n int, describe func(i int) string, fn func(i int)) {
	one := func(w, i int) {
		r.Begin(w, func() string { return name + ": " + describe(i) })
		f, st, _ := guard(func() { fn(i) })
		r.End(w)
		if f != nil {
			v := &Violation{Explorer: name, Path: []int{i}, Key: f.Key, Message: f.Msg, Steps: []string{describe(i)}, Stack: st}
			if !r.Fail(v) && r.Replay == nil {
				same := 0
				for j := 0; j < 5; j++ {
					if g, _, _ := guard(func() { fn(i) }); g != nil {
						same++
					}
				}
				v.Rerun = fmt.Sprintf("%d/5 reruns failed again", same)
			}
		}
	}
	if r.Replay != nil {
		if r.Replay.Explorer == name && len(r.Replay.Path) == 1 {
			one(0, r.Replay.Path[0])
		}
		return
	}
	var idx, done, skipped atomic.Int64
	var wg sync.WaitGroup
	workers := Workers()
	if r.Serial {
		workers = 1
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !r.Stop() {
				i := int(idx.Add(1)) - 1
				if i >= n {
					return
				}
				if r.shards > 0 && i%r.shards != r.shard {
					skipped.Add(1)
					continue
				}
				one(w, i)
				done.Add(1)
			}
		}(w)
	}
	wg.Wait()
	if int(done.Load()+skipped.Load()) < n && r.TimeUp() {
		r.Incomplete(name + ": deadline")
	}
	for _, i := range []int{0, n / 3, n - 1} {
		if i >= 0 && i < n {
			r.Sample(name + ": " + describe(i))
		}
	}
	r.Evals.Add(done.Load())
	r.Traces.Add(done.Load())
	r.Part(name, "cases", done.Load(), "of", n)
}
