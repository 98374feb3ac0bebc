//go:build go1.24

package mctime

import (
	std "time"

	"recengine/internal/zzverif/mc"
)

var epoch = std.Date(2024, 1, 1, 0, 0, 0, 0, std.UTC)

func Sleep(d std.Duration) { mc.Sleep(d) }

func Now() std.Time {
	if !mc.Active() {
		return std.Now()
	}
	return epoch.Add(mc.Clock())
}

func Since(t std.Time) std.Duration { return Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(Now()) }

func After(d std.Duration) <-chan std.Time { return NewTimer(d).C }

func Tick(d std.Duration) <-chan std.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C      <-chan std.Time
	c      chan std.Time
	f      func()
	real   *std.Timer
	cancel func() bool
}

func (t *Timer) start(d std.Duration) {
	t.cancel = mc.AddTimer(d, func() {
		if t.f != nil {
			mc.Spawn("timer func", t.f)
		} else {
			mc.Deliver(t.c, Now())
		}
	})
}

func NewTimer(d std.Duration) *Timer {
	if !mc.Active() {
		r := std.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan std.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d std.Duration, f func()) *Timer {
	if !mc.Active() {
		return &Timer{real: std.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	mc.Point()
	r := t.cancel()
	if t.c != nil {
		mc.Drain(t.c)
	}
	return r
}

func (t *Timer) Reset(d std.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	mc.Point()
	r := t.cancel()
	if t.c != nil {
		mc.Drain(t.c)
	}
	t.start(d)
	return r
}

type Ticker struct {
	C      <-chan std.Time
	c      chan std.Time
	d      std.Duration
	real   *std.Ticker
	cancel func() bool
}

func NewTicker(d std.Duration) *Ticker {
	if !mc.Active() {
		r := std.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan std.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

func (t *Ticker) start() {
	t.cancel = mc.AddTimer(t.d, func() {
		mc.Deliver(t.c, Now())
		t.start()
	})
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	mc.Point()
	t.cancel()
}

func (t *Ticker) Reset(d std.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	mc.Point()
	t.cancel()
	t.d = d
	t.start()
}
