//go:build go1.24

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/lib"
)

// errFactory is what a failing storage factory returns.
var errFactory = errors.New("injected storage failure")

// likeFactory stands in for the like storage, which the code does not have. It
// hands out the storages it is given.
type likeFactory struct {
	fail    error
	opened  int
	closed  int
	delta   domain.DeltaStorage
	index   domain.IndexStorage
	batches int
	st      *nsState
}

type likeStandIn struct {
	f    *likeFactory
	file domain.RandomAccessFile
}

func (f *likeFactory) Recover(domain.RandomAccessFile) error { return nil }

func (f *likeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	if f.fail != nil {
		return nil, f.fail
	}
	// It marks every start at the end of its file.
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		return nil, err
	}
	data, err := io.ReadAll(file)
	if err != nil {
		return nil, err
	}
	if f.st == nil {
		f.st = &nsState{like: []string{string(data)}}
	}
	if got := string(data); !slices.Contains(f.st.like, got) {
		lib.Failf("profiles", "the profile storage is given a file with content %q; possible is one of %q", got, f.st.like)
	}
	f.st.like = []string{string(data), string(data) + "L"}
	if _, err := file.Write([]byte("L")); err != nil {
		return nil, err
	}
	f.st.like = f.st.like[1:]
	f.opened++
	f.delta, f.index = d, i
	return &likeStandIn{f, file}, nil
}

func (f *likeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, i)
}

func (s *likeStandIn) Close() error {
	s.f.closed++
	return s.file.Close()
}

func (s *likeStandIn) ProcessActions(actions []domain.Action) error {
	s.f.batches++
	for _, a := range actions {
		a.Error <- nil
	}
	return nil
}

// The real factories, possibly failing, counting what is opened and closed.
type deltaFactory struct {
	domain.DeltaStorageFactory
	fail           error
	opened, closed int
}

type countedDelta struct {
	domain.DeltaStorage
	f *deltaFactory
}

func (s *countedDelta) Close() error {
	s.f.closed++
	return s.DeltaStorage.Close()
}

func (f *deltaFactory) wrap(s domain.DeltaStorage, err error) (domain.DeltaStorage, error) {
	if err != nil || s == nil {
		return s, err
	}
	f.opened++
	return &countedDelta{s, f}, nil
}

func (f *deltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if f.fail != nil {
		return nil, f.fail
	}
	return f.wrap(f.DeltaStorageFactory.Open(file))
}

func (f *deltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if f.fail != nil {
		return nil, f.fail
	}
	return f.wrap(f.DeltaStorageFactory.OpenMaybeRecover(file))
}

type indexFactory struct {
	domain.IndexStorageFactory
	fail           error
	opened, closed int
}

type countedIndex struct {
	domain.IndexStorage
	f *indexFactory
}

func (s *countedIndex) Close() error {
	s.f.closed++
	return s.IndexStorage.Close()
}

func (f *indexFactory) wrap(s domain.IndexStorage, err error) (domain.IndexStorage, error) {
	if err != nil || s == nil {
		return s, err
	}
	f.opened++
	return &countedIndex{s, f}, nil
}

func (f *indexFactory) OpenFile(path string) (domain.IndexStorage, error) {
	if f.fail != nil {
		return nil, f.fail
	}
	return f.wrap(f.IndexStorageFactory.OpenFile(path))
}

func (f *indexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if f.fail != nil {
		// As the real one does.
		if closer != nil {
			closer.Close()
		}
		return nil, f.fail
	}
	return f.wrap(f.IndexStorageFactory.Open(file, closer))
}

// openFiles lists the descriptors of this process on files below the directory.
func openFiles(dir string) map[string]string {
	out := map[string]string{}
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, dir+"/") {
			out[e.Name()] = filepath.Base(t)
		}
	}
	return out
}

// leaked lists the files opened since.
func leaked(dir string, before map[string]string) []string {
	var out []string
	for fd, f := range openFiles(dir) {
		if _, ok := before[fd]; !ok {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

// nsState is what is known about a namespace's files.
type nsState struct {
	// may holds for every pair the operations the change log may report;
	// 0 is none.
	delta map[[2]uint64]string
	// The index must be one of these.
	index []map[uint64]uint64
	// The profile storage's file holds one of these.
	like []string
}

func (s nsState) clone() nsState {
	d := map[[2]uint64]string{}
	for k, v := range s.delta {
		d[k] = v
	}
	return nsState{d, append([]map[uint64]uint64{}, s.index...), append([]string{}, s.like...)}
}

var pairs = [][2]uint64{{1, 1}, {1, 2}, {2, 1}}
var ids = []uint64{1, 2}

func (s *nsState) key() string {
	var b strings.Builder
	for _, p := range pairs {
		fmt.Fprintf(&b, "%q ", s.delta[p])
	}
	for _, m := range s.index {
		fmt.Fprintf(&b, "%v;", m)
	}
	fmt.Fprintf(&b, "%q", s.like)
	return b.String()
}

// maybe takes into account that the operations may have been written.
func (l *life) maybe(pending map[[2]uint64]string) {
	for p, ops := range pending {
		for _, o := range ops {
			if !strings.ContainsRune(l.st.delta[p], o) {
				l.st.delta[p] += string(o)
			}
		}
	}
}

func sameIndex(a, b map[uint64]uint64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func (s *nsState) allowIndex(m map[uint64]uint64) {
	for _, k := range s.index {
		if sameIndex(k, m) {
			return
		}
	}
	s.index = append(s.index, m)
}

// wop is a step of work on the storages of a running namespace.
type wop struct {
	title string
	op    byte // '+', '-', 'f' flush, 'p' put, 'r' remove
	a, b  uint64
}

var workOps = []wop{
	{"add + 1 1", '+', 1, 1}, {"add - 1 1", '-', 1, 1}, {"add + 1 2", '+', 1, 2}, {"add + 2 1", '+', 2, 1},
	{"flush", 'f', 0, 0}, {"put 1 -> 7", 'p', 1, 7}, {"put 2 -> 0", 'p', 2, 0}, {"remove 1", 'r', 1, 0},
}

// life runs a namespace over a directory.
type life struct {
	c       *lib.C
	w       *world
	st      nsState
	ns      domain.Namespace
	like    *likeFactory
	df      *deltaFactory
	xf      *indexFactory
	stop    context.CancelFunc
	crashes int
	fds     bool // descriptors are looked at
}

func newLife(c *lib.C, w *world) *life {
	l := &life{c: c, w: w}
	l.st.delta = map[[2]uint64]string{}
	for _, p := range pairs {
		l.st.delta[p] = "0"
	}
	l.st.index = []map[uint64]uint64{{}}
	l.st.like = []string{""}
	return l
}

func (l *life) make() {
	l.like = &likeFactory{st: &l.st}
	l.df = &deltaFactory{DeltaStorageFactory: delta.NewStorageFactory()}
	l.xf = &indexFactory{IndexStorageFactory: index.NewStorageFactory()}
	l.ns = domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: parseName("ns"), BasePath: l.w.root + "/",
		DeltaStorageFactory: l.df, IndexStorageFactory: l.xf, LikeStorageFactory: l.like})
}

// start starts a new namespace; it tells whether the process died.
func (l *life) start() (err error, died bool) {
	l.make()
	ctx, cancel := context.WithCancel(context.Background())
	l.stop = cancel
	died = l.w.run2(func() { err = l.ns.Start(ctx) })
	return err, died
}

// read compares what the running namespace's storages hold with what is known,
// and makes it known.
func (l *life) read(when string) {
	d, x := l.like.delta, l.like.index
	if d == nil || x == nil {
		lib.Failf("start", "%s the namespace runs without a change log or an index", when)
	}
	for _, p := range pairs {
		op, ok := d.Get(p[0], p[1])
		got := byte('0')
		if ok {
			got = byte(op)
		}
		if strings.IndexByte(l.st.delta[p], got) < 0 {
			lib.Failf("delta", "%s the change log reports %q for user %d, item %d; possible is one of %q (0: nothing)", when, got, p[0], p[1], l.st.delta[p])
		}
		l.st.delta[p] = string(got)
	}
	m := map[uint64]uint64{}
	for _, id := range ids {
		if i, ok := x.Get(id); ok {
			m[id] = i
		}
	}
	ok := false
	for _, k := range l.st.index {
		ok = ok || sameIndex(k, m)
	}
	if !ok {
		lib.Failf("index", "%s the index holds %v; possible is one of %v", when, m, l.st.index)
	}
	l.st.index = []map[uint64]uint64{m}
}

// run2 is run, but in a world where the code's goroutines go on.
func (w *world) run2(f func()) bool {
	done := make(chan any, 1)
	w.begin()
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	p := <-done
	w.mu.Lock()
	dead := w.dead
	w.mu.Unlock()
	if !dead {
		w.end()
	}
	if p != nil {
		panic(p)
	}
	return dead
}

// end ends what may still run.
func (l *life) end() {
	if l.stop == nil || runtime.NumGoroutine() <= calm {
		return
	}
	l.w.dead = true
	l.w.begin()
	l.stop()
	settle()
	l.w.end()
	l.w.dead = false
}

// bury ends what is left of a dead process.
func (l *life) bury() {
	l.w.mu.Lock()
	l.w.dead = true
	l.w.mu.Unlock()
	l.w.begin()
	l.stop()
	if settle() != nil {
		l.w.end()
		lib.Skip()
	}
	l.w.end()
	l.w.dead = false
	// Its descriptors are closed when the garbage is collected.
	if deaths++; deaths%64 == 0 {
		runtime.GC()
	}
}

var deaths int

// session is one run of the namespace: start, work, stop or death. It tells
// whether the namespace can go on (nothing else to explore otherwise).
func (l *life) session(maxWork int, ops []wop, all bool) {
	c, w := l.c, l.w
	on := true
	mayCrash := l.crashes > 0
	w.decide = nil
	if mayCrash {
		w.decide = crashPoints(c, w, &on, all)
	}
	c.Note("start")
	var fds map[string]string
	if l.fds {
		fds = openFiles(w.root)
	}
	err, died := l.start()
	if died {
		l.crashes--
		l.bury()
		l.st.allowIndex(map[uint64]uint64{})
		return
	}
	if err != nil {
		lib.Failf("start", "the namespace does not start: %v", err)
	}
	l.read("after the start")
	wasIndex := l.st.index[0]
	now := map[uint64]uint64{}
	for k, v := range wasIndex {
		now[k] = v
	}
	pending := map[[2]uint64]string{} // in order; the last one counts
	ends := 2
	if mayCrash {
		ends = 3
	}
	opts := len(ops) + ends
	for n := 0; ; n++ {
		k := 0
		if n < maxWork {
			k = c.Choose(opts)
		} else {
			k = len(ops) + c.Choose(ends)
		}
		switch {
		case k == len(ops)+2:
			c.Note("the process dies")
			l.crashes--
			l.bury()
			l.maybe(pending)
			l.st.index = []map[uint64]uint64{{}}
			return
		case k >= len(ops):
			// Stop, or cancel the context.
			w.begin()
			if k == len(ops) {
				c.Note("stop")
				l.ns.Stop()
			} else {
				c.Note("cancel")
				if n > 0 {
					on = false // as with stop
				}
				l.stop()
			}
			if settle() != nil {
				w.end()
				lib.Skip()
			}
			w.end()
			l.stop()
			if w.dead {
				l.crashes--
				l.bury()
				l.maybe(pending)
				l.st.index = []map[uint64]uint64{{}}
				l.st.allowIndex(now)
				return
			}
			if l.df.closed != 1 || l.xf.closed != 1 || l.like.closed != 1 {
				lib.Failf("close", "after the stop the storages have been closed %d, %d and %d times", l.df.closed, l.xf.closed, l.like.closed)
			}
			if f := leaked(w.root, fds); l.fds && len(f) > 0 {
				lib.Failf("close", "after the stop files are still open: %v", f)
			}
			for p, o := range pending {
				l.st.delta[p] = o[len(o)-1:]
			}
			l.st.index = []map[uint64]uint64{now}
			return
		}
		o := ops[k]
		c.Note("%s", o.title)
		d, x := l.like.delta, l.like.index
		var err error
		died := w.run2(func() {
			switch o.op {
			case '+', '-':
				d.Add(domain.DeltaOp(o.op), o.a, o.b)
				p := [2]uint64{o.a, o.b}
				pending[p] = strings.ReplaceAll(pending[p], string(o.op), "") + string(o.op)
			case 'f':
				err = d.Flush()
			case 'p':
				err = x.Put(o.a, o.b)
				now[o.a] = o.b
			case 'r':
				err = x.Remove(o.a)
				delete(now, o.a)
			}
		})
		if died {
			l.crashes--
			l.bury()
			l.maybe(pending)
			l.st.index = []map[uint64]uint64{{}}
			return
		}
		if err != nil {
			lib.Failf("work", "%s fails: %v", o.title, err)
		}
		if o.op == 'f' {
			for p, o := range pending {
				l.st.delta[p] = o[len(o)-1:]
			}
			pending = map[[2]uint64]string{}
		}
	}
}

// final starts the namespace once more, reads it and stops it.
func (l *life) final(when string) {
	l.w.decide = nil
	err, _ := l.start()
	if err != nil {
		lib.Failf("start", "%s the namespace does not start: %v", when, err)
	}
	l.read(when)
	l.ns.Stop()
	if settle() != nil {
		lib.Skip()
	}
	l.stop()
}

func init() {
	checks["C19"] = lib.Check{Level: "fault_enumeration", Procs: true,
		Rule: "Every history of sessions of the real namespace over real files (start, work on the change log and the index, stop or cancel), the process dying before any file-system call that changes something and after parts of every write, also while starting over what an earlier death left, up to the stated numbers of sessions, operations and deaths; then a start that must succeed and show what was flushed. And every start over several kinds of files in which a storage factory fails or any file-system call fails, once or from then on.",
		Assumptions: []string{
			"the process dies, the machine does not: what was written is not lost",
			"the like storage, which the code does not have, is a stand-in that keeps a mark of every start in its file",
		},
		Fn: checkC19,
	}
}

func checkC19(r *lib.Run) {
	dir := scratch("data")
	w := &world{root: dir}
	seen := map[string]string{}
	marks := lib.Marks{}
	type saved struct {
		i, crashes int
		st         nsState
		files      map[string][]byte
	}
	run := func(title string, sessions, work, crashes int, ops []wop, all bool) {
		clear(seen)
		clear(marks)
		r.EnumerateShared(title, func(c *lib.C) {
			emptyDir(dir)
			w.decide, w.dead = nil, false
			l := newLife(c, w)
			defer l.end()
			l.crashes, l.fds = crashes, sessions == 1
			first := 0
			if s, ok := c.Resume(marks).(saved); ok {
				// What follows depends on the files and what is known only.
				first, l.crashes, l.st = s.i, s.crashes, s.st.clone()
				for f, data := range s.files {
					if err := os.WriteFile(filepath.Join(dir, f), data, 0644); err != nil {
						panic("VERIF-INTERNAL: " + err.Error())
					}
				}
			}
			for i := first; i < sessions; i++ {
				l.session(work, ops, all)
				files := map[string][]byte{}
				h := fmt.Sprint(l.crashes, sessions-i-1, l.st.key())
				for _, f := range []string{"ns.delta", "ns.index", "ns.recdb"} {
					if data, err := os.ReadFile(filepath.Join(dir, f)); err == nil {
						files[f] = data
						h += fmt.Sprintf(" %s %x", f, data)
					}
				}
				c.Note("-- %s", contents(dir))
				c.Share(h)
				if at := c.Path(); !c.Replaying() {
					if p, ok := seen[h]; ok && p != at {
						lib.Skip()
					}
					seen[h] = at
				}
				c.Save(marks, saved{i + 1, l.crashes, l.st.clone(), files})
			}
			c.Interesting()
			l.final("at last")
		})
	}
	if r.Thorough {
		run("three sessions, two operations each, two deaths", 3, 2, 2, workOps, false)
		run("two sessions, three operations each, two deaths, every partial write", 2, 3, 2, workOps, true)
		run("four sessions, one operation each, three deaths", 4, 1, 3, workOps, false)
	} else {
		few := []wop{workOps[0], workOps[1], workOps[3], workOps[4], workOps[5], workOps[7]}
		run("two sessions, two operations each, two deaths", 2, 2, 2, few, false)
		run("three sessions, one operation each, two deaths", 3, 1, 2, few, false)
		run("one session, two operations, one death, every partial write", 1, 2, 1, workOps, true)
		run("one session, three operations, one death", 1, 3, 1, workOps, false)
	}
	checkFailures(r, w)
}

// checkFailures lets the storages fail while a namespace starts.
func checkFailures(r *lib.Run, w *world) {
	type kind struct {
		title string
		make  func(l *life)
	}
	// A run that is ended as told by how: stop, kill, or death after some
	// bytes of the first write to a file with that suffix.
	session := func(l *life, how string, at int) {
		w.decide = nil
		if how == ".delta" || how == ".index" {
			w.decide = func(op *os.VerifOp) answer {
				if op.Kind == "write" && strings.HasSuffix(w.path(op), how) {
					return answer{crash: true, n: min(at, len(op.Data))}
				}
				return answer{}
			}
		}
		err, died := l.start()
		if died {
			l.crashes = 0
			l.bury()
			l.st.allowIndex(map[uint64]uint64{})
			return
		}
		if err != nil {
			lib.Failf("start", "the namespace does not start: %v", err)
		}
		l.read("after the start")
		d, x := l.like.delta, l.like.index
		d.Add('+', 1, 1)
		d.Add('-', 2, 1)
		x.Put(1, 7)
		if err := d.Flush(); err != nil {
			lib.Failf("work", "flushing fails: %v", err)
		}
		l.st.delta[[2]uint64{1, 1}], l.st.delta[[2]uint64{2, 1}] = "+", "-"
		if how == "kill" {
			l.bury()
			l.st.index = []map[uint64]uint64{{}}
			return
		}
		l.st.index = []map[uint64]uint64{{1: 7}}
		l.ns.Stop()
		if settle() != nil {
			lib.Skip()
		}
		l.stop()
	}
	kinds := []kind{
		{"no files", func(l *life) {}},
		{"files of a clean shutdown", func(l *life) { session(l, "stop", 0) }},
		{"files of a killed run", func(l *life) { session(l, "kill", 0) }},
		{"files of two killed runs", func(l *life) { session(l, "kill", 0); session(l, "kill", 0) }},
		{"an empty change log", func(l *life) { session(l, ".delta", 0) }},
		{"an incomplete change log", func(l *life) { session(l, ".delta", 3) }},
		{"an empty index", func(l *life) { session(l, ".index", 0) }},
		{"an incomplete index", func(l *life) { session(l, ".index", 3) }},
	}
	after := func(l *life, must bool, err error, fds map[string]string, clean bool) {
		c := l.c
		if err == nil {
			if must {
				lib.Failf("error", "the start reports no error though a storage cannot be opened")
			}
			l.read("after a start that succeeded in spite of failures")
			l.ns.Stop()
			if settle() != nil {
				lib.Skip()
			}
			l.stop()
			l.st.allowIndex(map[uint64]uint64{})
		} else {
			c.Note("  error: %v", err)
			if settle() != nil {
				lib.Failf("goroutines", "the start reports error %v, but leaves goroutines running", err)
			}
			l.stop()
			if l.df.opened > l.df.closed || l.xf.opened > l.xf.closed || l.like.opened > l.like.closed {
				lib.Failf("close", "the start reports error %v, but leaves storages open: change logs %d of %d closed, indexes %d of %d, like storages %d of %d", err, l.df.closed, l.df.opened, l.xf.closed, l.xf.opened, l.like.closed, l.like.opened)
			}
			if clean {
				if f := leaked(w.root, fds); len(f) > 0 {
					lib.Failf("close", "the start reports error %v, but leaves files open: %v", err, f)
				}
			}
			if !must {
				l.st.allowIndex(map[uint64]uint64{})
			}
		}
		w.decide = nil
		c.Interesting()
		l.final("after the failures were over")
	}
	r.Enumerate("failing file-system calls while starting", func(c *lib.C) {
		emptyDir(w.root)
		w.decide, w.dead = nil, false
		l := newLife(c, w)
		defer l.end()
		k := kinds[c.Choose(len(kinds))]
		c.Note("%s", k.title)
		k.make(l)
		f := &failing{c: c, w: w, on: true, all: true}
		w.decide = f.decide
		fds := openFiles(w.root)
		c.Note("start")
		err, _ := l.start()
		f.on = false
		if !f.hit {
			c.Note("  nothing fails")
			if err != nil {
				lib.Failf("start", "over %s the namespace does not start: %v", k.title, err)
			}
		}
		after(l, false, err, fds, !f.always)
	})
	corrupted := fmt.Errorf("injected: %w", domain.NewCorruptedFileError())
	r.Enumerate("failing storages while starting", func(c *lib.C) {
		emptyDir(w.root)
		w.decide, w.dead = nil, false
		l := newLife(c, w)
		defer l.end()
		k := kinds[c.Choose(len(kinds))]
		c.Note("%s", k.title)
		k.make(l)
		w.decide = nil
		l.make()
		var fails []string
		if c.Choose(2) == 1 {
			l.df.fail = errFactory
			fails = append(fails, "the change log")
		}
		switch c.Choose(3) {
		case 1:
			l.xf.fail = errFactory
			fails = append(fails, "the index")
		case 2:
			l.xf.fail = corrupted
			fails = append(fails, "the index (corrupted)")
			l.st.allowIndex(map[uint64]uint64{})
		}
		var lf domain.LikeStorageFactory = l.like
		switch c.Choose(3) {
		case 1:
			l.like.fail = errFactory
			fails = append(fails, "the like storage")
		case 2:
			lf = nil
			fails = append(fails, "no like storage")
		}
		// Files that cannot be opened.
		if b := c.Choose(4); b > 0 {
			s := []string{".delta", ".index", ".recdb"}[b-1]
			fails = append(fails, "opening "+s)
			w.decide = func(op *os.VerifOp) answer {
				return answer{fail: op.Kind == "open" && strings.HasSuffix(op.Path, s)}
			}
		}
		if len(fails) == 0 {
			lib.Skip()
		}
		c.Note("start, failing: %s", strings.Join(fails, ", "))
		l.ns = domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: parseName("ns"), BasePath: l.w.root + "/",
			DeltaStorageFactory: l.df, IndexStorageFactory: l.xf, LikeStorageFactory: lf})
		fds := openFiles(w.root)
		ctx, cancel := context.WithCancel(context.Background())
		l.stop = cancel
		var err error
		w.run2(func() { err = l.ns.Start(ctx) })
		after(l, true, err, fds, true)
	})
}

// contents describes the files.
func contents(dir string) string {
	var b strings.Builder
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		data, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		fmt.Fprintf(&b, "%s %x ", e.Name(), data)
	}
	return b.String()
}
