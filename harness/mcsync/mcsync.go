//go:build go1.24

package mcsync

import (
	std "sync"

	"recengine/internal/zzverif/mc"
)

type Mutex struct {
	r std.Mutex
	l mc.Lock
}

func (m *Mutex) Lock() {
	if !mc.Active() {
		m.r.Lock()
		return
	}
	m.l.Acquire()
}

func (m *Mutex) Unlock() {
	if !mc.Active() {
		m.r.Unlock()
		return
	}
	m.l.Release()
}

func (m *Mutex) TryLock() bool {
	if !mc.Active() {
		return m.r.TryLock()
	}
	return m.l.TryAcquire()
}

type RWMutex struct {
	r std.RWMutex
	l mc.Lock
}

func (m *RWMutex) Lock() {
	if !mc.Active() {
		m.r.Lock()
		return
	}
	m.l.Acquire()
}

func (m *RWMutex) Unlock() {
	if !mc.Active() {
		m.r.Unlock()
		return
	}
	m.l.Release()
}

func (m *RWMutex) TryLock() bool {
	if !mc.Active() {
		return m.r.TryLock()
	}
	return m.l.TryAcquire()
}

func (m *RWMutex) RLock() {
	if !mc.Active() {
		m.r.RLock()
		return
	}
	m.l.RAcquire()
}

func (m *RWMutex) RUnlock() {
	if !mc.Active() {
		m.r.RUnlock()
		return
	}
	m.l.RRelease()
}

func (m *RWMutex) TryRLock() bool {
	if !mc.Active() {
		return m.r.TryRLock()
	}
	return m.l.TryRAcquire()
}

func (m *RWMutex) RLocker() std.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	r std.WaitGroup
	n int
	e *mc.Exec
	o mc.Order
}

func (w *WaitGroup) sync() {
	if w.e != mc.Current() {
		w.e, w.n = mc.Current(), 0
	}
}

func (w *WaitGroup) Add(d int) {
	if !mc.Active() {
		w.r.Add(d)
		return
	}
	mc.Point()
	w.sync()
	w.n += d
	w.o.Release()
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !mc.Active() {
		w.r.Wait()
		return
	}
	mc.Point()
	w.sync()
	mc.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	w.o.Acquire()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mc.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	o    mc.Order
}

func (o *Once) Do(f func()) {
	mc.Point()
	if o.done {
		o.o.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.o.Release()
		}()
		f()
	}
}

type Cond struct {
	L    std.Locker
	real *std.Cond
	q    []*bool
	o    mc.Order
}

func NewCond(l std.Locker) *Cond {
	return &Cond{L: l, real: std.NewCond(l)}
}

func (c *Cond) Wait() {
	if !mc.Active() {
		c.real.Wait()
		return
	}
	sig := false
	c.q = append(c.q, &sig)
	c.L.Unlock()
	mc.Block("Cond.Wait", func() bool { return sig })
	c.o.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !mc.Active() {
		c.real.Signal()
		return
	}
	mc.Point()
	c.o.Release()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if !mc.Active() {
		c.real.Broadcast()
		return
	}
	mc.Point()
	c.o.Release()
	for _, s := range c.q {
		*s = true
	}
	c.q = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
