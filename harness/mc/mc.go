//go:build go1.24

// Package mc is the controlled scheduler: instrumented code runs one thread at a
// time and every scheduling decision, channel choice and timer expiry is taken by
// the explorer. Without an active execution the operations are the real ones.
package mc

import (
	"cmp"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- map order

// MapDesc makes instrumented map iteration descend instead of ascend.
var MapDesc atomic.Bool

// Keys returns the keys of a map in a fixed order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortAny(keys)
	if MapDesc.Load() {
		slices.Reverse(keys)
	}
	return keys
}

func sortAny[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []uint64:
		slices.Sort(ks)
		return
	case []string:
		slices.Sort(ks)
		return
	case []int:
		slices.Sort(ks)
		return
	}
	slices.SortFunc(keys, func(a, b K) int {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		switch va.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return cmp.Compare(va.Int(), vb.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return cmp.Compare(va.Uint(), vb.Uint())
		case reflect.String:
			return cmp.Compare(va.String(), vb.String())
		}
		return cmp.Compare(fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b))
	})
}

// ---------------------------------------------------------------- scheduler

type tstate int

const (
	running tstate = iota
	ready
	blocked
	done
)

type thread struct {
	id     int
	name   string
	st     tstate
	wake   chan struct{}
	cond   func() bool // blocked: becomes ready when true
	what   string
	steps  int
	inChan *waiter
}

type timer struct {
	at     time.Duration
	owner  string
	seq    int
	fire   func()
	active bool
	set    token // what the thread that set it did before
}

// Exec is one controlled execution.
type Exec struct {
	threads   []*thread
	cur       *thread
	prefix    []int
	Choices   []int
	Arity     []int
	Cost      []int // cost of taking a non-first alternative at this choice
	now       time.Duration
	timers    []*timer
	tseq      int
	chans     []*mchan
	aborting  bool
	abortAck  chan struct{}
	Steps     int
	Preempt   int
	Bound     int
	Fail      string
	Stack     string
	Deadlock  bool
	main      *thread
	finished  chan struct{}
	mainDone  bool
	Trace     []string
	tracing   bool
	hooks     []func()
	lateFires int
	firing    *timer
	all       token // what every thread did until it was last switched away

	// Delay makes every departure from round-robin order cost one, also when
	// the running thread blocks.
	Delay bool
	// Diverged is set when the prefix did not fit the execution.
	Diverged bool
	// ChanCap, if set, replaces the capacity of channels.
	ChanCap func(n int) int
	// OnTimer, if set, is called when a timer expires, with the name of the
	// thread that set it.
	OnTimer func(owner string)
	// NoForeign says that nothing outside our control touches channels.
	NoForeign bool
}

var ex *Exec

// Active reports whether an execution is under control.
func Active() bool { return ex != nil }

// MaxSteps bounds the length of an execution.
var MaxSteps = 200000

type abortToken struct{}

func (e *Exec) note(f string, a ...any) {
	if e.tracing {
		e.Trace = append(e.Trace, fmt.Sprintf(f, a...))
	}
}

// Log adds a line to the trace of the execution.
func Log(f string, a ...any) {
	if e := ex; e != nil && e.tracing {
		e.note("[%s] %s", e.cur.name, fmt.Sprintf(f, a...))
	}
}

// Choose lets the explorer take a decision that costs nothing.
func Choose(n int) int {
	if ex == nil {
		return 0
	}
	return ex.choose(n, 0)
}

func (e *Exec) choose(n, cost int) int {
	if n <= 1 {
		return 0
	}
	i := len(e.Choices)
	v := 0
	if i < len(e.prefix) {
		v = e.prefix[i]
		if v >= n {
			e.Diverged = true
			v = 0
		}
	}
	e.Choices = append(e.Choices, v)
	e.Arity = append(e.Arity, n)
	e.Cost = append(e.Cost, cost)
	if v != 0 {
		if cost == each {
			cost = v
		}
		e.Preempt += cost
	}
	return v
}

// each is the cost of a choice whose alternative n costs n.
const each = -1

func (e *Exec) isReady(t *thread) bool {
	switch t.st {
	case running, ready:
		return true
	case blocked:
		if t.cond != nil {
			return t.cond()
		}
		if t.inChan != nil {
			return t.inChan.poll()
		}
	}
	return false
}

func (e *Exec) nextTimer() *timer {
	var best *timer
	for _, t := range e.timers {
		if t.active && (best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (e *Exec) fireNext() {
	t := e.nextTimer()
	t.active = false
	e.timers = slices.DeleteFunc(e.timers, func(x *timer) bool { return x == t })
	if t.at > e.now {
		e.now = t.at
	}
	e.note("time %v", e.now)
	if e.OnTimer != nil {
		e.OnTimer(t.owner)
	}
	raceOff()
	e.firing = t
	t.fire()
	e.firing = nil
	raceOn()
}

// schedule picks the next thread and switches to it. The caller's state has
// been set. It returns when the caller runs again.
func (e *Exec) schedule(self *thread) {
	grace := 0
	for {
		var opts []*thread
		selfReady := false
		if self.st != done && e.isReady(self) {
			selfReady = true
			opts = append(opts, self)
		}
		first := 0
		if e.Delay {
			first = self.id + 1
		}
		for i := range e.threads {
			t := e.threads[(first+i)%len(e.threads)]
			if t != self && t.st != done && e.isReady(t) {
				opts = append(opts, t)
				if e.Delay && len(opts) > e.Bound-e.Preempt {
					break
				}
			}
		}
		tm := e.nextTimer()
		if len(opts) == 0 {
			if tm != nil && (!e.mainDone || e.lateFires < 200) {
				if e.mainDone {
					e.lateFires++ // periodic timers go on forever
				}
				e.fireNext()
				continue
			}
			// Nothing can run. A channel may yet be touched by code outside
			// our control; give it a moment of real time.
			if grace < 4 && !e.aborting && !e.NoForeign && e.foreignWait() {
				grace++
				time.Sleep(time.Duration(grace*grace) * 5 * time.Millisecond)
				continue
			}
			e.quiesce(self)
			return
		}
		n := len(opts)
		if tm != nil {
			n++
		}
		cost := 0
		if selfReady {
			cost = 1
		}
		fair := selfReady && self.steps > 3000
		if fair && len(opts) > 1 {
			// The thread polls: let the others go on.
			opts = append(opts[1:], opts[0])
			self.steps = 0
		}
		var k int
		switch {
		case n == 1:
			k = 0
		case (selfReady || e.Delay) && e.Preempt >= e.Bound:
			k = 0
		case e.Delay:
			if tm != nil && e.choose(2, 1) == 1 {
				k = len(opts)
			} else if m := e.Bound - e.Preempt + 1; len(opts) > 1 && m > 1 {
				k = e.choose(min(m, len(opts)), each)
			}
		case tm != nil && !selfReady && len(opts) >= 1:
			// Choosing among ready threads is free, an early timer is not.
			if len(opts) > 1 {
				k = e.choose(len(opts), 0)
			}
			if e.Preempt < e.Bound {
				if e.choose(2, 1) == 1 {
					k = len(opts)
				}
			}
		default:
			k = e.choose(n, cost)
		}
		if k == len(opts) {
			e.fireNext()
			continue
		}
		t := opts[k]
		e.switchTo(self, t)
		return
	}
}

func (e *Exec) foreignWait() bool {
	for _, t := range e.threads {
		if t.st == blocked && t.inChan != nil {
			return true
		}
	}
	return false
}

func (e *Exec) switchTo(self, t *thread) {
	t.st = running
	t.cond = nil
	t.inChan = nil
	if t == self {
		return
	}
	self.steps = 0
	e.cur = t
	if e.tracing {
		e.note("-- switch to %s", t.name)
	}
	selfDone := self.st == done
	release(&e.all)
	signal(t.wake)
	if selfDone {
		return
	}
	await(self.wake)
	if e.aborting {
		acquire(&e.all)
		runtime.Goexit()
	}
}

// signal and await pass control on. That orders the threads in this execution
// but is not something the program does.
func signal(c chan struct{}) {
	raceOff()
	c <- struct{}{}
	raceOn()
}

func await(c chan struct{}) {
	raceOff()
	<-c
	raceOn()
}

// quiesce is called by the last thread able to act when nothing can run.
func (e *Exec) quiesce(self *thread) {
	if !e.mainDone {
		e.Deadlock = true
	}
	release(&e.all)
	signal(e.finished)
	if self.st == done {
		return
	}
	await(self.wake)
	acquire(&e.all)
	runtime.Goexit()
}

// Blocked describes the threads that have not ended.
func (e *Exec) Blocked() []string {
	var out []string
	for _, t := range e.threads {
		if t.st != done {
			out = append(out, t.name+": "+t.what)
		}
	}
	return out
}

// point is a scheduling point of the running thread.
func (e *Exec) point(what string) {
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	t.what = what
	e.Steps++
	t.steps++
	if e.Steps > MaxSteps {
		e.fail("the execution did not end within %d steps", MaxSteps)
	}
	t.st = ready
	e.schedule(t)
	t.st = running
}

// fail ends the execution with a violation.
func (e *Exec) fail(f string, a ...any) {
	if e.Fail == "" {
		e.Fail = fmt.Sprintf(f, a...)
		e.Stack = string(debug.Stack())
	}
	t := e.cur
	release(&e.all)
	signal(e.finished)
	await(t.wake)
	acquire(&e.all)
	runtime.Goexit()
}

// Failf reports a violation from within the execution and ends it.
func Failf(f string, a ...any) {
	if ex != nil {
		ex.fail(f, a...)
	}
	panic(fmt.Sprintf(f, a...))
}

// Point is a scheduling point.
func Point() {
	if ex != nil {
		ex.point("")
	}
}

// Yield is a scheduling point at which the running thread is not preferred.
func block(what string, cond func() bool) {
	e := ex
	t := e.cur
	t.what = what
	t.st = blocked
	t.cond = cond
	e.schedule(t)
	t.st = running
}

// WaitUntil blocks the thread until cond holds.
func WaitUntil(what string, cond func() bool) {
	if ex == nil {
		panic("VERIF-INTERNAL: WaitUntil outside an execution")
	}
	ex.point(what)
	for !cond() {
		block(what, cond)
	}
	acquire(&ex.all)
}

// Go starts a thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) {
	e := ex
	if e == nil {
		go f()
		return
	}
	if e.aborting {
		runtime.Goexit()
	}
	e.spawn(name, f)
}

func (e *Exec) spawn(name string, f func()) *thread {
	t := &thread{id: len(e.threads), name: name, st: ready, wake: make(chan struct{})}
	if name == "" {
		t.name = fmt.Sprintf("goroutine%d", t.id)
	}
	e.threads = append(e.threads, t)
	go e.body(t, f)
	return t
}

func (e *Exec) body(t *thread, f func()) {
	await(t.wake)
	defer func() {
		p := recover()
		if e.aborting {
			t.st = done
			release(&e.all)
			signal(e.abortAck)
			return
		}
		t.st = done
		t.what = "done"
		if p != nil {
			if e.Fail == "" {
				e.Fail = fmt.Sprintf("panic in %s: %v", t.name, p)
				e.Stack = string(debug.Stack())
			}
			release(&e.all)
			signal(e.finished)
			return
		}
		if t == e.main {
			e.mainDone = true
		}
		e.note("[%s] ends", t.name)
		e.schedule(t)
	}()
	if e.aborting {
		acquire(&e.all)
		runtime.Goexit()
	}
	f()
}

// Execute runs body as the main thread under the choices in prefix and then the
// first alternative everywhere. after runs when nothing can move any more.
func Execute(prefix []int, bound int, trace bool, body func(), after func(e *Exec), opts ...func(e *Exec)) *Exec {
	e := &Exec{prefix: prefix, Bound: bound, finished: make(chan struct{}, 4), abortAck: make(chan struct{}), tracing: trace}
	for _, o := range opts {
		o(e)
	}
	ex = e
	e.main = e.spawn("main", body)
	e.cur = e.main
	e.main.st = running
	signal(e.main.wake)
	await(e.finished)
	acquire(&e.all)
	if e.Fail == "" {
		if e.Deadlock {
			e.Fail = "deadlock: " + strings.Join(e.Blocked(), "; ")
		} else if after != nil {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if s := fmt.Sprint(p); strings.Contains(s, "VERIF-INTERNAL") {
							panic(p)
						}
						e.Fail = fmt.Sprint(p)
					}
				}()
				ex = nil
				after(e)
				ex = e
			}()
			ex = e
		}
	}
	// End the threads that are still waiting.
	e.aborting = true
	for _, t := range e.threads {
		if t.st != done {
			e.cur = t
			release(&e.all)
			signal(t.wake)
			await(e.abortAck)
			acquire(&e.all)
		}
	}
	ex = nil
	for _, h := range e.hooks {
		h()
	}
	return e
}

// AtEnd registers a function to run when the execution is over.
func AtEnd(f func()) {
	if ex != nil {
		ex.hooks = append(ex.hooks, f)
	}
}

// ThreadName returns the running thread's name.
func ThreadName() string {
	if ex == nil {
		return ""
	}
	return ex.cur.name
}

// Waiting returns what the thread of that name waits for, "" if it does not.
func (e *Exec) Waiting(name string) string {
	for _, t := range e.threads {
		if t.name == name && t.st == blocked {
			return t.what
		}
	}
	return ""
}

// Unnamed lists the threads the code under test started that have not ended.
func (e *Exec) Unnamed() []string {
	var out []string
	for _, t := range e.threads {
		if t.st != done && (strings.HasPrefix(t.name, "goroutine") || t.name == "timer func") {
			out = append(out, t.name+": "+t.what)
		}
	}
	return out
}

// Ended reports whether the thread of that name has ended.
func (e *Exec) Ended(name string) bool {
	for _, t := range e.threads {
		if t.name == name {
			return t.st == done
		}
	}
	return false
}

// Clock is the virtual time.
func Clock() time.Duration {
	if ex == nil {
		return 0
	}
	return ex.now
}

// AddTimer calls fire after d of virtual time; the result cancels it.
func AddTimer(d time.Duration, fire func()) (cancel func() bool) {
	e := ex
	if d < 0 {
		d = 0
	}
	e.tseq++
	t := &timer{at: e.now + d, seq: e.tseq, fire: fire, active: true, owner: e.cur.name}
	release(&t.set)
	e.timers = append(e.timers, t)
	return func() bool {
		was := t.active
		t.active = false
		e.timers = slices.DeleteFunc(e.timers, func(x *timer) bool { return x == t })
		return was
	}
}

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	if ex == nil {
		time.Sleep(d)
		return
	}
	ex.point("sleep")
	if d <= 0 {
		return
	}
	fired := false
	AddTimer(d, func() { fired = true })
	block("time.Sleep", func() bool { return fired })
}

// Spawn starts f as a new thread from a timer.
func Spawn(name string, f func()) {
	t := ex.firing
	ex.spawn(name, func() {
		if t != nil {
			acquire(&t.set)
		}
		f()
	})
}

// ---------------------------------------------------------------- memory

// Assign returns a function storing to *p, with a scheduling point before the store.
func Assign[T any](p *T) func(T) {
	return func(v T) {
		Point()
		*p = v
	}
}

// AssignMap is Assign for a map element.
func AssignMap[M ~map[K]V, K comparable, V any](m M, k K) func(V) {
	return func(v V) {
		Point()
		m[k] = v
	}
}

// ---------------------------------------------------------------- channels

type mchan struct {
	ref    any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	poll   func() (v any, ok, got bool)

	// Orderings: what each sender did before it sent the buffered values, what
	// each receiver did before it received, and what the closing thread did.
	ordered []*token
	back    []*token
	seen    func() // orders the running thread after a foreign close
	sends   int
	end     token
}

// waiter is a thread waiting on one or more channels.
type waiter struct {
	t     *thread
	fired bool
	idx   int
	val   any
	ok    bool
	pan   bool
	cases []*scase
	out   token // what the thread did before it waited
	in    token // what its partner did before

	foreign *mchan // completed by code outside our control
}

type scase struct {
	c    *mchan
	send bool
	val  any
}

func (w *waiter) poll() bool {
	if w.fired {
		return true
	}
	for i, c := range w.cases {
		if c.c == nil || c.send || c.c.poll == nil {
			continue
		}
		v, ok, got := c.c.poll()
		if got {
			if !ok {
				c.c.closed = true
			}
			w.complete(i, v, ok)
			w.foreign = c.c
			return true
		}
	}
	return false
}

func (w *waiter) complete(idx int, v any, ok bool) {
	w.fired = true
	w.idx, w.val, w.ok = idx, v, ok
}

func chanOf[T any](c chan T) *mchan {
	if c == nil {
		return nil
	}
	return lookUp(c, cap(c), func() (any, bool, bool) {
		select {
		case v, ok := <-c:
			return v, ok, true
		default:
			return nil, false, false
		}
	})
}

func lookUp(c any, capacity int, poll func() (any, bool, bool)) *mchan {
	e := ex
	for _, m := range e.chans {
		if m.ref == c {
			return m
		}
	}
	m := &mchan{ref: c, cap: capacity}
	if e.ChanCap != nil {
		m.cap = e.ChanCap(m.cap)
	}
	m.poll = func() (any, bool, bool) {
		raceOff()
		defer raceOn()
		return poll()
	}
	m.seen = func() { poll() }
	e.chans = append(e.chans, m)
	return m
}

// norm turns any direction of channel into the bidirectional one used as key.
func normR[T any](c <-chan T) chan T {
	if c == nil {
		return nil
	}
	return *(*chan T)(ptr(&c))
}

func normS[T any](c chan<- T) chan T {
	if c == nil {
		return nil
	}
	return *(*chan T)(ptr(&c))
}

func (m *mchan) pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.fired {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.fired {
			return true
		}
	}
	return false
}

func (m *mchan) canRecv() bool {
	if len(m.buf) > 0 || m.closed || live(m.sendq) {
		return true
	}
	if v, ok, got := m.poll(); got {
		if !ok {
			m.closed = true
		} else {
			m.buf = append(m.buf, v)
			o := &token{}
			release(o)
			m.ordered = append(m.ordered, o)
		}
		return true
	}
	return false
}

func (m *mchan) canSend() bool {
	return m.closed || len(m.buf) < m.cap || live(m.recvq)
}

func (m *mchan) recv() (any, bool) {
	if len(m.buf) > 0 {
		v := m.buf[0]
		m.buf = m.buf[1:]
		acquire(m.ordered[0])
		m.ordered = m.ordered[1:]
		b := &token{}
		release(b)
		m.back = append(m.back, b)
		if w := m.pop(&m.sendq); w != nil {
			i := w.caseOf(m, true)
			m.buf = append(m.buf, w.cases[i].val)
			m.ordered = append(m.ordered, &w.out)
			m.sends++
			release(&w.in)
			w.complete(i, nil, true)
		}
		return v, true
	}
	if w := m.pop(&m.sendq); w != nil {
		i := w.caseOf(m, true)
		acquire(&w.out)
		release(&w.in)
		w.complete(i, nil, true)
		return w.cases[i].val, true
	}
	acquire(&m.end)
	m.seen()
	return nil, false // closed
}

func (m *mchan) send(v any) {
	if m.closed {
		panic("send on closed channel")
	}
	if m.cap > 0 {
		// The receive that made room comes before.
		if n := m.sends - m.cap; n >= 0 && n < len(m.back) {
			acquire(m.back[n])
		}
		m.sends++
	}
	if w := m.pop(&m.recvq); w != nil {
		if m.cap > 0 {
			m.back = append(m.back, &w.out)
		} else {
			acquire(&w.out)
		}
		release(&w.in)
		w.complete(w.caseOf(m, false), v, true)
		return
	}
	m.buf = append(m.buf, v)
	o := &token{}
	release(o)
	m.ordered = append(m.ordered, o)
}

func (w *waiter) caseOf(m *mchan, send bool) int {
	for i, c := range w.cases {
		if c.c == m && c.send == send {
			return i
		}
	}
	panic("VERIF-INTERNAL: waiter without the case")
}

func (e *Exec) selectOp(hasDefault bool, cases []*scase, what string) (int, any, bool) {
	e.point(what)
	var rdy []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[e.choose(len(rdy), 0)]
		c := cases[k]
		if c.send {
			c.c.send(c.val)
			return k, nil, true
		}
		v, ok := c.c.recv()
		return k, v, ok
	}
	if hasDefault {
		return -1, nil, false
	}
	w := &waiter{t: e.cur, cases: cases}
	for _, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	t := e.cur
	t.what = what
	t.st = blocked
	t.inChan = w
	t.cond = nil
	release(&w.out)
	e.schedule(t)
	t.st = running
	acquire(&w.in)
	if w.foreign != nil && !w.ok {
		w.foreign.seen()
	}
	if w.pan {
		panic("send on closed channel")
	}
	return w.idx, w.val, w.ok
}

func as[T any](v any) (t T) {
	if v != nil {
		t = v.(T)
	}
	return
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	if ex == nil {
		return <-c
	}
	_, v, _ := ex.selectOp(false, []*scase{{c: chanOf(normR(c))}}, "channel receive")
	return as[T](v)
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if ex == nil {
		v, ok := <-c
		return v, ok
	}
	_, v, ok := ex.selectOp(false, []*scase{{c: chanOf(normR(c))}}, "channel receive")
	return as[T](v), ok
}

// Send is c <- v.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if ex == nil {
			c <- v
			return
		}
		ex.selectOp(false, []*scase{{c: chanOf(normS(c)), send: true, val: v}}, "channel send")
	}
}

// Close is close(c).
func Close[T any](c chan<- T) {
	if ex == nil {
		close(c)
		return
	}
	ex.point("close")
	m := chanOf(normS(c))
	if m == nil {
		panic("close of nil channel")
	}
	if m.closed {
		panic("close of closed channel")
	}
	m.closed = true
	release(&m.end)
	close(c)
	for _, w := range m.recvq {
		if !w.fired {
			release(&w.in)
			w.complete(w.caseOf(m, false), nil, false)
		}
	}
	m.recvq = nil
	for _, w := range m.sendq {
		if !w.fired {
			release(&w.in)
			w.complete(w.caseOf(m, true), nil, false)
			w.pan = true
		}
	}
	m.sendq = nil
}

// Len is len(c).
func Len[T any](c <-chan T) int {
	if ex == nil {
		return len(c)
	}
	ex.point("len")
	if m := chanOf(normR(c)); m != nil {
		return len(m.buf)
	}
	return 0
}

// Cap is cap(c).
func Cap[T any](c <-chan T) int {
	if ex == nil {
		return cap(c)
	}
	if m := chanOf(normR(c)); m != nil {
		return m.cap
	}
	return 0
}

// Case is one communication of a select.
type Case interface {
	scase() *scase
	set(v any, ok bool)
	real() reflect.SelectCase
	setReal(v reflect.Value, ok bool)
}

// RCase is a receiving case; V and OK hold the result.
type RCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// RecvCase prepares a receiving case.
func RecvCase[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

func (r *RCase[T]) scase() *scase { return &scase{c: chanOf(normR(r.c))} }
func (r *RCase[T]) set(v any, ok bool) {
	r.V, r.OK = as[T](v), ok
}
func (r *RCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RCase[T]) setReal(v reflect.Value, ok bool) {
	r.OK = ok
	if v.IsValid() {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

type wcase[T any] struct {
	c chan<- T
	v T
}

// SendCase prepares a sending case.
func SendCase[T any](c chan<- T) func(T) Case {
	return func(v T) Case { return &wcase[T]{c, v} }
}

func (s *wcase[T]) scase() *scase      { return &scase{c: chanOf(normS(s.c)), send: true, val: s.v} }
func (s *wcase[T]) set(v any, ok bool) {}
func (s *wcase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *wcase[T]) setReal(v reflect.Value, ok bool) {}

// Select performs the select statement and returns the index of the chosen
// case, -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	if ex == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.real())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].setReal(v, ok)
		return i
	}
	sc := make([]*scase, len(cases))
	for i, c := range cases {
		sc[i] = c.scase()
	}
	k, v, ok := ex.selectOp(hasDefault, sc, "select")
	if k >= 0 {
		cases[k].set(v, ok)
	}
	return k
}

// ---------------------------------------------------------------- locks

// Lock is the modelled state of a mutex.
type Lock struct {
	writer  bool
	readers int
	pending int
	owner   *Exec

	wrote *token // what was done before the last unlocking of a writer
	read  *token // what was done before the unlockings of readers
}

func (l *Lock) sync() {
	// A lock left over from an earlier execution starts afresh.
	if l.owner != ex {
		*l = Lock{owner: ex, wrote: &token{}, read: &token{}}
	}
}

// locked and rlocked order the thread after those that held the lock before.
func (l *Lock) locked() {
	acquire(l.wrote)
	acquire(l.read)
}

func (l *Lock) rlocked() { acquire(l.wrote) }

// Acquire locks for writing.
func (l *Lock) Acquire() {
	ex.point("lock")
	l.sync()
	l.pending++
	for l.writer || l.readers > 0 {
		block("mutex lock", func() bool { return !l.writer && l.readers == 0 })
	}
	l.pending--
	l.writer = true
	l.locked()
}

// TryAcquire locks if that is possible at once.
func (l *Lock) TryAcquire() bool {
	ex.point("trylock")
	l.sync()
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	l.locked()
	return true
}

// Release unlocks.
func (l *Lock) Release() {
	if ex.aborting {
		return
	}
	l.sync()
	if !l.writer {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	l.writer = false
	release(l.wrote)
}

// RAcquire locks for reading. As with sync.RWMutex a waiting writer keeps new
// readers out.
func (l *Lock) RAcquire() {
	ex.point("rlock")
	l.sync()
	for l.writer || l.pending > 0 {
		block("mutex rlock", func() bool { return !l.writer && l.pending == 0 })
	}
	l.readers++
	l.rlocked()
}

// TryRAcquire locks for reading if that is possible at once.
func (l *Lock) TryRAcquire() bool {
	ex.point("tryrlock")
	l.sync()
	if l.writer || l.pending > 0 {
		return false
	}
	l.readers++
	l.rlocked()
	return true
}

// RRelease unlocks for reading.
func (l *Lock) RRelease() {
	if ex.aborting {
		return
	}
	l.sync()
	if l.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	l.readers--
	release(l.read)
}

// Block waits for a condition; used by the shims.
func Block(what string, cond func() bool) {
	for !cond() {
		block(what, cond)
	}
}

// Aborting reports whether the execution is being torn down.
func Aborting() bool { return ex != nil && ex.aborting }

// Current returns a value identifying the current execution.
func Current() *Exec { return ex }

// SortedNames is a helper for stable output.
func SortedNames(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Deliver puts a value into a buffered channel if there is room (timers).
func Deliver[T any](c chan T, v T) {
	m := chanOf(c)
	if m.canSend() {
		m.send(v)
	}
}

// Drain empties a channel.
func Drain[T any](c chan T) {
	m := chanOf(c)
	m.buf, m.ordered = nil, nil
}

// Order is an ordering kept by the shims: what was done before a release comes
// before what is done after an acquisition.
type Order struct{ t token }

func (o *Order) Acquire() { acquire(&o.t) }
func (o *Order) Release() { release(&o.t) }
