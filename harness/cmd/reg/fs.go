//go:build go1.24

package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"recengine/internal/zzverif/lib"
)

var errIO = &os.PathError{Op: "injected", Path: "file", Err: syscall.EIO}

// answer is the decision about one file-system call.
type answer struct {
	crash bool // the process dies before the call, or after n bytes of a write
	fail  bool // the call fails, a write after n bytes
	n     int
}

// world is the file system below one directory as the code under test sees it.
type world struct {
	root   string
	decide func(op *os.VerifOp) answer
	after  func(op *os.VerifOp)
	// outside, if set, gets the calls that would change something elsewhere;
	// they fail.
	outside func(op *os.VerifOp)
	dead    bool
	trace   []string
	c       *lib.C
	mu      sync.Mutex
}

var current *world

// mutates tells whether the call can change what is stored.
func mutates(op *os.VerifOp) bool {
	switch op.Kind {
	case "read", "readat", "seek", "close", "sync":
		return false
	case "open":
		return op.Flag&(os.O_CREATE|os.O_TRUNC) != 0
	}
	return true
}

func (w *world) path(op *os.VerifOp) string {
	p := op.Path
	if op.F != nil {
		p = op.F.Name()
	}
	if !filepath.IsAbs(p) {
		d, err := syscall.Getwd()
		if err != nil {
			return p
		}
		p = filepath.Join(d, p)
	}
	return filepath.Clean(p)
}

// show describes the call.
func (w *world) show(op *os.VerifOp) string {
	p := w.path(op)
	if r, err := filepath.Rel(w.root, p); err == nil {
		p = r
	}
	s := op.Kind + " " + p
	switch op.Kind {
	case "write", "read":
		s += fmt.Sprintf(" (%d bytes)", len(op.Data))
	case "rename", "link", "symlink":
		s += " to " + filepath.Base(op.Path2)
	case "ftruncate", "truncate", "seek":
		s += fmt.Sprintf(" %d", op.Off)
	}
	return s
}

func (w *world) under(op *os.VerifOp) bool {
	return strings.HasPrefix(w.path(op)+"/", w.root+"/")
}

// begin installs the hook; end removes it.
func (w *world) begin() { current = w; os.VerifHook = hook }
func (w *world) end()   { os.VerifHook = nil }

func hook(op *os.VerifOp) (bool, int, error) {
	w := current
	if w == nil {
		return false, 0, nil
	}
	if !w.under(op) {
		if w.outside != nil && op.F == nil && mutates(op) {
			w.outside(op)
			return true, 0, errIO
		}
		return false, 0, nil
	}
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		if op.Kind == "close" {
			return false, 0, nil
		}
		return true, 0, errIO
	}
	a := answer{}
	if w.decide != nil {
		a = w.decide(op)
	}
	if a.crash || a.fail {
		if (op.Kind == "write" || op.Kind == "writeat") && a.n > 0 {
			os.VerifHook = nil
			if op.Kind == "write" {
				op.F.Write(op.Data[:a.n])
			} else {
				op.F.WriteAt(op.Data[:a.n], op.Off)
			}
			os.VerifHook = hook
		}
		if a.crash {
			w.dead = true
			w.mu.Unlock()
			runtime.Goexit()
		}
		w.mu.Unlock()
		if op.Kind == "close" {
			// The descriptor is released whatever close answers.
			os.VerifHook = nil
			op.F.Close()
			os.VerifHook = hook
		}
		n := 0
		if op.Kind == "write" || op.Kind == "writeat" {
			n = a.n
		}
		return true, n, errIO
	}
	if w.after != nil {
		w.after(op)
	}
	w.mu.Unlock()
	return false, 0, nil
}

// run executes the code under test in a goroutine of its own, which a crash
// ends, and waits for every goroutine it started. panics are passed on.
func (w *world) run(f func()) (died bool) {
	done := make(chan any, 1)
	w.begin()
	go func() {
		ok := false
		defer func() {
			if ok {
				done <- nil
				return
			}
			if p := recover(); p != nil {
				done <- p
				return
			}
			done <- nil // ended by a crash
		}()
		f()
		ok = true
	}()
	p := <-done
	if !w.dead {
		w.end()
	}
	if w.dead {
		settle()
		w.end()
	}
	if p != nil {
		panic(p)
	}
	return w.dead
}

var errUnsettled = errors.New("goroutines left")

// calm is a number of goroutines with which none of the code under test runs.
// It may be too small, which only costs time. It is raised after several waits
// in a row ended, by what the goroutines execute, with the same number: one that
// is about to end, like a finalizer's, does not pass for one that stays.
var calm, calmer, calmerSeen int

// calmDown measures calm at the start of a check.
func calmDown() {
	calm = runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		time.Sleep(100 * time.Microsecond)
		calm = min(calm, runtime.NumGoroutine())
	}
}

// settle waits until no goroutine of the code under test is left.
func settle() error {
	for i := 0; ; i++ {
		if n := runtime.NumGoroutine(); n <= calm {
			calm = n
			return nil
		}
		switch {
		case i < 200:
			runtime.Gosched()
		case i%50 == 0:
			n := others()
			if n < 0 {
				continue
			}
			if n != calmer {
				calmer, calmerSeen = n, 0
			}
			if calmerSeen++; calmerSeen == 10 {
				calm, calmer = n, 0
			}
			return nil
		case i > 20000:
			return errUnsettled
		default:
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// others counts the goroutines, and returns -1 if one other than the caller's
// executes the code under test or was started by it, or executes an operation of
// a world.
func others() int {
	buf := make([]byte, 1<<16)
	for {
		if n := runtime.Stack(buf, true); n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	all := strings.Split(strings.TrimSpace(string(buf)), "\n\n")
	for _, g := range all[1:] {
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			if strings.HasPrefix(l, "recengine/") && !strings.HasPrefix(l, "recengine/internal/zzverif/") ||
				strings.HasPrefix(l, "main.(*world).run") || strings.Contains(l, "stack unavailable") {
				return -1
			}
		}
	}
	return len(all)
}

// emptyDir makes the directory exist and removes what is in it.
func emptyDir(dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	l, err := os.ReadDir(dir)
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	for _, e := range l {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

// scratch returns an empty directory of this process.
func scratch(name string) string {
	d := filepath.Join(os.Getenv("VERIF_SCRATCH"), name)
	emptyDir(d)
	return d
}

// crashPoints is a decision function that lets the process die before any
// call that changes something, and after every part of a write, while on.
func crashPoints(c *lib.C, w *world, on *bool, all bool) func(op *os.VerifOp) answer {
	return func(op *os.VerifOp) answer {
		if !*on || !mutates(op) {
			return answer{}
		}
		torn := torns(op, all)
		k := c.Choose(1 + len(torn))
		if k == 0 {
			return answer{}
		}
		n := torn[k-1]
		if op.Kind == "write" || op.Kind == "writeat" {
			c.Note("  the process dies after %d bytes of: %s", n, w.show(op))
		} else {
			c.Note("  the process dies before: %s", w.show(op))
		}
		c.Interesting()
		return answer{crash: true, n: n}
	}
}

// torns lists the lengths at which the call can be cut.
func torns(op *os.VerifOp, all bool) []int {
	if op.Kind != "write" && op.Kind != "writeat" {
		return []int{0}
	}
	n := len(op.Data)
	if all || n <= 4 {
		l := make([]int, 0, n)
		for i := 0; i <= n; i++ {
			l = append(l, i)
		}
		return l
	}
	return []int{0, 1, n / 2, n - 1, n}
}

// failPoints is a decision function that lets any call fail while on; once it
// has failed, persistent failures go on until healed.
type failing struct {
	c      *lib.C
	w      *world
	on     bool
	always bool // failures persist
	hit    bool
	all    bool
}

func (f *failing) decide(op *os.VerifOp) answer {
	if !f.on {
		return answer{}
	}
	if f.hit {
		return answer{fail: f.always && op.Kind != "close"}
	}
	torn := []int{0}
	if op.Kind == "write" || op.Kind == "writeat" {
		torn = torns(op, f.all)
		torn = torn[:len(torn)-1]
		if len(torn) == 0 {
			torn = []int{0}
		}
	}
	k := f.c.Choose(1 + 2*len(torn))
	if k == 0 {
		return answer{}
	}
	k--
	f.hit = true
	f.always = k%2 == 1
	n := torn[k/2]
	what := "once"
	if f.always {
		what = "from now on"
	}
	f.c.Note("  fails %s after %d bytes: %s", what, n, f.w.show(op))
	f.c.Interesting()
	return answer{fail: true, n: n}
}
