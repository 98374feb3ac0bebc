//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"sync"
	"sync/atomic"

	"recengine/internal/domain"
	"recengine/internal/zzverif/lib"
)

// mut is one file operation of a dry run.
type fop struct {
	kind string
	n    int
	seq  int
}

// record runs f with every operation succeeding and returns the operations.
func record(e *lib.Env, f func()) (ops []fop) {
	e.Decide = func(o lib.Op) lib.Answer {
		ops = append(ops, fop{o.Kind, o.N, len(ops)})
		return lib.Answer{}
	}
	f()
	e.Decide = nil
	return ops
}

// cuts returns the lengths of the torn part of a write to explore.
func cuts(n int, dense bool) []int {
	var out []int
	for j := 0; j <= n; j++ {
		if n <= 80 || dense || j <= 20 || n-j <= 20 || j%dRec <= 1 || j%64 == 0 {
			out = append(out, j)
		}
	}
	return out
}

// nth makes the k-th operation from now on get the answer a.
func nth(e *lib.Env, k int, a lib.Answer, sticky bool) {
	i := -1
	e.Decide = func(o lib.Op) lib.Answer {
		i++
		if i == k || sticky && i > k {
			return a
		}
		return lib.Answer{}
	}
}

// observe reads every probe.
func observe(st domain.DeltaStorage, probes []pair) map[pair]string {
	m := map[pair]string{}
	for _, p := range probes {
		op, ok := st.Get(p.u, p.i)
		m[p] = opName(byte(op), ok)
	}
	return m
}

// verifyCrash opens the disk left by a crash and compares it with the model.
func verifyCrash(disk *lib.Disk, m *dmodel, probes []pair, what string) {
	st, err := dFactory.OpenMaybeRecover(lib.NewFile(disk, nil))
	if err != nil {
		lib.Failf("reopen", "%s: reopening with recovery failed: %v (file: % x)", what, err, headOf(disk.Data))
	}
	for _, p := range probes {
		op, ok := st.Get(p.u, p.i)
		got := opName(byte(op), ok)
		want, wok := m.acked(p)
		good := got == opName(want, wok)
		for _, t := range m.tried[p] {
			good = good || got == opName(t, true)
		}
		if !good {
			lib.Failf("crash-get", "%s: after recovery user=%#x item=%#x is %s; last flushed: %s, recorded since: %q (file: % x)", what, p.u, p.i, got, opName(want, wok), m.tried[p], headOf(disk.Data))
		}
	}
	// The reopened log is usable and loses nothing.
	before := observe(st, probes)
	np := pair{4242, 4243}
	st.Add('-', np.u, np.i)
	before[np] = "-"
	all := append(append([]pair(nil), probes...), np)
	if err := st.Flush(); err != nil {
		lib.Failf("after-recovery", "%s: flush after recovery failed: %v", what, err)
	}
	if n := int(st.GetFileSize()); n != len(disk.Data) {
		lib.Failf("after-recovery", "%s: after recovery and a flush the file has %d bytes, reported size %d", what, len(disk.Data), n)
	}
	same := func(st domain.DeltaStorage, when string) {
		after := observe(st, all)
		for _, p := range all {
			if after[p] != before[p] {
				lib.Failf("after-recovery", "%s: user=%#x item=%#x was %s after recovery and is %s %s", what, p.u, p.i, before[p], after[p], when)
			}
		}
	}
	killed := &lib.Disk{Data: clone(disk.Data)}
	st2, err := dFactory.OpenMaybeRecover(lib.NewFile(killed, nil))
	if err != nil {
		lib.Failf("after-recovery", "%s: reopening after another crash failed: %v", what, err)
	}
	same(st2, "after another crash")
	if err := st.Close(); err != nil {
		lib.Failf("after-recovery", "%s: close after recovery failed: %v", what, err)
	}
	st3, err := dFactory.Open(lib.NewFile(disk, nil))
	if err != nil {
		lib.Failf("after-recovery", "%s: plain reopening after recovery and close failed: %v", what, err)
	}
	same(st3, "after closing and reopening")
}

func headOf(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func (s *dsys) probesAll() []pair {
	set := map[pair]bool{}
	for _, p := range s.probes {
		set[p] = true
	}
	out := append([]pair(nil), s.probes...)
	for k, p := range s.m.pairs() {
		if !set[p] && (k%13 == 0 || len(set) < 60) {
			out = append(out, p)
		}
	}
	return out
}

// crashes explores every crash point and torn write of every operation enabled
// in the state reached by path, and of the recovery that follows.
func crashes(r *lib.Run, sp lib.Space, ops []dop, start int, path []int, nested bool) {
	build := func() *dsys {
		s := sp.New(start).(*dsys)
		for _, o := range path {
			s.Do(o)
		}
		return s
	}
	evals, interesting, same := 0, 0, 0
	for _, o := range ops {
		if o.kind == "add" || o.kind == "bulk" || o.kind == "kill" {
			continue
		}
		s := build()
		if o.kind == "open" && len(s.disk.Data) > dLock && s.disk.Data[dLock] != 0 {
			continue
		}
		enabled := false
		script := record(s.env, func() { _, enabled = s.call(o) })
		if !enabled {
			continue
		}
		for k, f := range script {
			if f.kind != "write" && f.kind != "truncate" && f.kind != "close" {
				continue
			}
			for _, j := range cuts(f.n, r.Thorough) {
				s := build()
				m := s.m
				nth(s.env, k, lib.Answer{Crash: true, N: j}, false)
				if !lib.Crash(func() { s.call(o) }) {
					continue // the script changed
				}
				evals++
				if j > 0 && j < f.n {
					interesting++
				}
				probes := s.probesAll()
				// What follows depends on the file and the model only.
				h := lib.NewHasher()
				h.Bytes(s.disk.Data)
				m.hash(h)
				h.Int(int64(len(probes)))
				for _, p := range probes {
					h.Int(int64(p.u))
					h.Int(int64(p.i))
				}
				if nested {
					h.Int(1)
				}
				if _, dup := crashSeen.LoadOrStore(h.Sum(), true); dup {
					same++
					continue
				}
				at := fmt.Sprintf("crash in %s, file operation %d (%s of %d bytes, %d done)", o.name, k, f.kind, f.n, j)
				if nested {
					// Crash in the recovery as well.
					dry := &lib.Disk{Data: clone(s.disk.Data)}
					env := &lib.Env{}
					rec := record(env, func() { dFactory.OpenMaybeRecover(lib.NewFile(dry, env)) })
					for k2, f2 := range rec {
						if f2.kind != "write" && f2.kind != "truncate" {
							continue
						}
						for _, j2 := range cuts(f2.n, false) {
							d2 := &lib.Disk{Data: clone(s.disk.Data)}
							e2 := &lib.Env{}
							nth(e2, k2, lib.Answer{Crash: true, N: j2}, false)
							if !lib.Crash(func() { dFactory.OpenMaybeRecover(lib.NewFile(d2, e2)) }) {
								continue
							}
							evals++
							interesting++
							verifyCrash(d2, m, probes, at+fmt.Sprintf(", then crash in the recovery, file operation %d (%s of %d bytes, %d done)", k2, f2.kind, f2.n, j2))
						}
					}
				}
				verifyCrash(s.disk, m, probes, at)
			}
		}
	}
	r.Evals.Add(int64(evals))
	r.Nontrivial.Add(int64(interesting))
	crashSame.Add(int64(same))
}

var (
	crashSeen sync.Map
	crashSame atomic.Int64
)

func deltaCrash(r *lib.Run) {
	depth := 5
	if r.Thorough {
		depth = 6
	}
	run := func(name string, ops []dop, starts []dstart, depth int, nested bool) {
		sp := dspace(name, "C03", ops, starts, depth)
		sp.AtState = func(start int, path []int, s lib.System) { crashes(r, sp, ops, start, path, nested) }
		r.BFS(sp)
	}
	bothOrders(r, func(sfx string) {
		crashSeen.Clear()
		run("crash points"+sfx, dops([]pair{dP[0], dP[2]}, "flush", "close", "open", "openrec", "kill"), dstarts(0)[:3], depth, true)
		run("crash points of marked files"+sfx, dops(dP[1:2], "flush", "close", "openrec", "kill"), append(dstarts(1)[1:3], dstart{"marked file with a torn record", append(dfile(1, 9, drec{'+', dU1, dU1}, drec{'-', dU1, dU2}), '+', 0, 0, 0, 0, 0, 0, 0, 9)}), 3, true)
	})
	// More data than one buffer holds.
	big := append(dops(dP[1:2], "flush", "close", "open", "openrec", "kill"), dop{"Add 300 operations", "bulk", '+', pair{dU1, 5000}, 300})
	bigDepth := 3
	if r.Thorough {
		bigDepth = 4
	}
	run("crash points of large logs", big, []dstart{dstarts(0)[0], dstarts(0)[3]}, bigDepth, false)
	r.Extra("crash_outcomes_equal_to_an_explored_one", crashSame.Load())
}

// ---------------------------------------------------------------- C05

// faults explores every failing file operation of every operation enabled in
// the state, each followed by several ways to go on.
func faults(r *lib.Run, sp lib.Space, ops []dop, start int, path []int, large bool) {
	build := func() *dsys {
		s := sp.New(start).(*dsys)
		for _, o := range path {
			s.Do(o)
		}
		return s
	}
	conts := []string{"flush", "close", "add+flush", "kill", "fail+flush"}
	for _, o := range ops {
		if o.kind == "add" || o.kind == "bulk" || o.kind == "kill" {
			continue
		}
		s := build()
		if o.kind == "open" && len(s.disk.Data) > dLock && s.disk.Data[dLock] != 0 {
			continue
		}
		enabled := false
		script := record(s.env, func() { _, enabled = s.call(o) })
		if !enabled {
			continue
		}
		for k, f := range script {
			var parts []int
			switch f.kind {
			case "write":
				parts = cuts(f.n, false)
				parts = parts[:len(parts)-1]
				if len(parts) > 30 {
					step := len(parts)/30 + 1
					var p []int
					for i := 0; i < len(parts); i += step {
						p = append(p, parts[i])
					}
					parts = append(p, f.n-1)
				}
			case "read":
				parts = []int{0}
				if f.n > 1 {
					parts = append(parts, 1)
				}
			default:
				parts = []int{0}
			}
			for _, j := range parts {
				for _, sticky := range []bool{false, true} {
					for _, cont := range conts {
						if large && cont != "flush" && cont != "close" && cont != "kill" {
							continue
						}
						hadStore, ran := false, false
						body := func(stored bool) func() {
							return func() {
								s := build()
								nth(s.env, k, lib.Answer{Fail: true, N: j}, sticky)
								s.env.Fails = 0
								hadStore = s.st != nil
								err, _ := s.call(o)
								failed := s.env.Fails
								s.env.Decide = nil
								if failed == 0 {
									return
								}
								ran = true
								at := fmt.Sprintf("%s with file operation %d (%s of %d bytes) failing after %d bytes", o.name, k, f.kind, f.n, j)
								if sticky {
									at += " and all later ones"
								}
								if err == nil {
									lib.Failf("no-error", "%s reported success", at)
								}
								if stored {
									s.m.storedAnyway()
								}
								s.afterFault(o, at, cont, hadStore)
							}
						}
						// The failure may have come before or after the
						// operations were stored.
						if msg := lib.Guard(body(false)); msg != "" && (!hadStore || lib.Guard(body(true)) != "") {
							body(false)()
						}
						if !ran {
							continue
						}
						r.Evals.Add(1)
						if j > 0 {
							r.Nontrivial.Add(1)
						}
						if !hadStore {
							break // the continuations differ for an open log only
						}
					}
				}
			}
		}
	}
}

func (s *dsys) afterFault(o dop, at, cont string, hadStore bool) {
	probes := s.probesAll()
	if !hadStore {
		// The open failed: another attempt on the healed file succeeds.
		verifyCrash(s.disk, s.m, probes, at+", then another attempt")
		return
	}
	// Reading the log is not affected.
	old := s.probes
	s.probes = probes
	s.checkGet()
	s.checkCounts()
	s.probes = old
	if s.file.Closed {
		cont = "kill"
	}
	at += ", then " + cont
	step := func(d dop) {
		err, _ := s.call(d)
		if err != nil {
			lib.Failf("retry", "%s: %s failed: %v", at, d.kind, err)
		}
		s.apply(d)
	}
	switch cont {
	case "flush":
		step(dop{kind: "flush"})
		s.checkFileMsg(1, at)
		step(dop{kind: "close"})
		s.checkFileMsg(0, at)
	case "close":
		step(dop{kind: "close"})
		s.checkFileMsg(0, at)
	case "add+flush":
		step(dop{kind: "add", op: '-', p: dP[0]})
		step(dop{kind: "add", op: '-', p: dP[3]})
		step(dop{kind: "flush"})
		s.checkFileMsg(1, at)
	case "fail+flush":
		nth(s.env, 0, lib.Answer{}, false)
		n := 0
		s.env.Decide = func(f lib.Op) lib.Answer {
			if f.Kind == "write" {
				n++
				if n == 2 {
					return lib.Answer{Fail: true, N: f.N / 2}
				}
			}
			return lib.Answer{}
		}
		s.env.Fails = 0
		err, _ := s.call(dop{kind: "flush"})
		s.env.Decide = nil
		if err == nil && s.env.Fails > 0 {
			lib.Failf("no-error", "%s: a second failing flush reported success", at)
		}
		if s.env.Fails == 0 {
			s.apply(dop{kind: "flush"})
		}
		step(dop{kind: "add", op: '+', p: dP[1]})
		step(dop{kind: "flush"})
		s.checkFileMsg(1, at)
	case "kill":
		verifyCrash(s.disk, s.m, probes, at)
		return
	}
	s.checkCounts()
	s.checkGet()
	// And the file can be opened again.
	st, err := dFactory.OpenMaybeRecover(lib.NewFile(&lib.Disk{Data: clone(s.disk.Data)}, nil))
	if err != nil {
		lib.Failf("reopen", "%s: reopening failed: %v", at, err)
	}
	for _, p := range probes {
		got, ok := st.Get(p.u, p.i)
		want, wok := s.m.acked(p)
		if ok != wok || ok && byte(got) != want {
			lib.Failf("get", "%s: reopened log has %s for user=%#x item=%#x, want %s", at, opName(byte(got), ok), p.u, p.i, opName(want, wok))
		}
	}
}

func (s *dsys) checkFileMsg(locked int, at string) {
	if msg := lib.Guard(func() { s.checkFile(locked) }); msg != "" {
		lib.Failf("file", "%s: %s", at, msg)
	}
	if int(s.disk.Data[dLock]) != locked {
		lib.Failf("file", "%s: in-use mark is %d", at, s.disk.Data[dLock])
	}
}

func deltaFaults(r *lib.Run) {
	depth := 5
	if r.Thorough {
		depth = 6
	}
	run := func(name string, ops []dop, starts []dstart, depth int, large bool) {
		sp := dspace(name, "C05", ops, starts, depth)
		sp.AtState = func(start int, path []int, s lib.System) { faults(r, sp, ops, start, path, large) }
		r.BFS(sp)
	}
	bothOrders(r, func(sfx string) {
		run("failing operations"+sfx, dops([]pair{dP[0], dP[2]}, "flush", "close", "open", "openrec", "kill"), dstarts(0)[:3], depth, false)
		run("failing operations on marked files"+sfx, dops(dP[1:2], "flush", "close", "openrec", "kill"), append(dstarts(1)[1:3], dstart{"marked file with a torn record", append(dfile(1, 9, drec{'+', dU1, dU1}, drec{'-', dU1, dU2}), '+', 0, 0, 0, 0, 0, 0, 0, 9)}), 3, false)
	})
	big := append(dops(dP[1:2], "flush", "close", "open", "openrec", "kill"), dop{"Add 300 operations", "bulk", '+', pair{dU1, 5000}, 300})
	bigDepth := 3
	run("failing operations on large logs", big, []dstart{dstarts(0)[0], dstarts(0)[3]}, bigDepth, true)
}

// ---------------------------------------------------------------- C04

// dref is the file that recovery must produce.
func dref(b []byte) []byte {
	recs := dparse(b)
	return dfile(0, uint32(len(recs)), recs...)
}

func checkRecover(b []byte) {
	want := dref(b)
	disk := &lib.Disk{Data: clone(b)}
	f := lib.NewFile(disk, nil)
	if err := dFactory.Recover(f); err != nil {
		lib.Failf("recover", "Recover failed: %v (file % x)", err, headOf(b))
	}
	if !bytes.Equal(disk.Data, want) {
		lib.Failf("recover-bytes", "recovered file is\n  % x\nwant\n  % x\nfor\n  % x", disk.Data, want, b)
	}
	if err := dFactory.Recover(f); err != nil {
		lib.Failf("recover-again", "second Recover failed: %v", err)
	}
	if !bytes.Equal(disk.Data, want) {
		lib.Failf("recover-again", "recovering again changed the file to\n  % x\nfrom\n  % x", disk.Data, want)
	}
	st, err := dFactory.Open(lib.NewFile(disk, nil))
	if err != nil {
		lib.Failf("recover-open", "the recovered file does not open: %v", err)
	}
	m := newDModel()
	recs := dparse(b)
	for _, d := range recs {
		m.stored[pair{d.u, d.i}] = append(m.stored[pair{d.u, d.i}], d.op)
	}
	if st.GetTotalItemCount() != len(recs) {
		lib.Failf("recover-count", "the recovered log has %d operations, want %d", st.GetTotalItemCount(), len(recs))
	}
	for _, p := range m.pairs() {
		got, ok := st.Get(p.u, p.i)
		want, wok := m.acked(p)
		if ok != wok || byte(got) != want {
			lib.Failf("recover-get", "the recovered log has %s for user=%#x item=%#x, want %s", opName(byte(got), ok), p.u, p.i, opName(want, wok))
		}
	}
	// Refused by plain opening, then recovered through the same handle.
	if len(b) >= dHead && b[dLock] != 0 {
		d2 := &lib.Disk{Data: clone(b)}
		f2 := lib.NewFile(d2, nil)
		if _, err := dFactory.Open(f2); err == nil {
			lib.Failf("open-marked", "a file carrying the in-use mark was opened")
		}
		if err := dFactory.Recover(f2); err != nil {
			lib.Failf("recover-handle", "Recover after a refused open failed: %v", err)
		}
		if !bytes.Equal(d2.Data, want) {
			lib.Failf("recover-handle", "Recover after a refused open produced\n  % x\nwant\n  % x", d2.Data, want)
		}
	}
	// Through opening with recovery.
	if len(b) < dHead || b[dLock] != 0 {
		d3 := &lib.Disk{Data: clone(b)}
		st, err := dFactory.OpenMaybeRecover(lib.NewFile(d3, nil))
		if err != nil {
			lib.Failf("openrec", "OpenMaybeRecover failed: %v", err)
		}
		w := clone(want)
		w[dLock] = 1
		if !bytes.Equal(d3.Data, w) {
			lib.Failf("openrec", "OpenMaybeRecover left\n  % x\nwant\n  % x", d3.Data, w)
		}
		for _, p := range m.pairs() {
			got, ok := st.Get(p.u, p.i)
			want, wok := m.acked(p)
			if ok != wok || byte(got) != want {
				lib.Failf("openrec", "the recovered log has %s for user=%#x item=%#x, want %s", opName(byte(got), ok), p.u, p.i, opName(want, wok))
			}
		}
	}
}

func deltaRecover(r *lib.Run) {
	base := dfile(1, 5, drec{'+', dU1, dU2}, drec{'-', dU2, dU1}, drec{'+', 0, 0}, drec{'-', dU1, dU2}, drec{'+', ^uint64(0), 255})
	n := len(base)
	vals := func(old byte, full bool) (out []byte) {
		if full {
			for v := 0; v < 256; v++ {
				out = append(out, byte(v))
			}
			return
		}
		return []byte{0, 1, '+', '-', ',', 0xff, old + 1, old - 1, old ^ 0x80}
	}
	r.ForEach("every truncation", n+1, func(i int) string { return fmt.Sprintf("file cut to %d bytes", i) }, func(i int) {
		checkRecover(base[:i])
		checkRecover(append(clone(base[:i]), make([]byte, 40)...))
	})
	r.ForEach("every byte, every value", n*256, func(i int) string { return fmt.Sprintf("byte %d set to %#x", i/256, byte(i)) }, func(i int) {
		b := clone(base)
		b[i/256] = byte(i)
		checkRecover(b)
	})
	// Two damaged bytes (compensating changes keep the checksum right).
	r.ForEach("every pair of bytes", n*n, func(i int) string { return fmt.Sprintf("bytes %d and %d damaged", i/n, i%n) }, func(i int) {
		a, c := i/n, i%n
		if a >= c {
			return
		}
		for _, va := range vals(base[a], false) {
			for _, vc := range []byte{0, base[c] + (base[a] - va), base[c] + 1, base[c] - 1, 0xff, '+'} {
				b := clone(base)
				b[a], b[c] = va, vc
				checkRecover(b)
				r.Evals.Add(1)
			}
		}
	})
	r.ForEach("every zeroed, filled or removed range", n*n, func(i int) string { return fmt.Sprintf("bytes %d..%d", i/n, i%n) }, func(i int) {
		a, c := i/n, i%n+1
		if a >= c {
			return
		}
		for _, fill := range []byte{0, 0xff, '+'} {
			b := clone(base)
			for k := a; k < c; k++ {
				b[k] = fill
			}
			checkRecover(b)
			r.Evals.Add(1)
		}
		checkRecover(append(clone(base[:a]), base[c:]...))
		checkRecover(append(append(clone(base[:c]), make([]byte, c-a)...), base[c:]...))
	})
	counts := []uint32{0, 1, 2, 4, 5, 6, 255, 256, 65536, 1 << 31, ^uint32(0)}
	r.ForEach("announced counts", len(counts)*6*3, func(i int) string {
		return fmt.Sprintf("count %d, %d records, mark %d", counts[i/18], i/3%6, i%3)
	}, func(i int) {
		b := clone(base[:dHead+dRec*(i/3%6)])
		c := counts[i/18]
		b[10], b[11], b[12], b[13] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
		b[dLock] = []byte{0, 1, 0xff}[i%3]
		checkRecover(b)
		for t := 1; t < 20; t++ {
			checkRecover(append(clone(b), bytes.Repeat([]byte{'+'}, t)...))
			checkRecover(append(clone(b), make([]byte, t)...))
		}
		r.Evals.Add(38)
	})
	// Every record sequence over a small alphabet of good and bad records.
	alpha := [][]byte{
		drec{'+', dU1, dU1}.bytes(), drec{'-', dU1, dU1}.bytes(), drec{'+', dU2, dU1}.bytes(),
		make([]byte, dRec), drec{0, dU1, dU1}.bytes(), drec{'*', dU1, dU1}.bytes(),
		append(drec{'+', dU1, dU1}.bytes()[:17], 7), bytes.Repeat([]byte{0xff}, dRec),
	}
	depth := 5
	if r.Thorough {
		depth = 6
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(alpha) + 1
	}
	r.ForEach("record sequences", total, func(i int) string { return fmt.Sprintf("sequence %d", i) }, func(i int) {
		b := dfile(1, 3)
		for k := 0; k < depth; k++ {
			d := i % (len(alpha) + 1)
			i /= len(alpha) + 1
			if d == len(alpha) {
				if i != 0 && k < depth-1 {
					return // counted as a shorter sequence
				}
				break
			}
			b = append(b, alpha[d]...)
		}
		checkRecover(b)
		r.Nontrivial.Add(1)
	})
	// Large files: the copy back takes several chunks.
	var many []drec
	for k := 0; k < 4200; k++ {
		many = append(many, drec{"+-"[k%2], uint64(k % 7), uint64(k)})
	}
	big := dfile(1, 3, many...)
	r.ForEach("large files", 40, func(i int) string { return fmt.Sprintf("4200 records, record %d damaged, cut by %d", i*101, i) }, func(i int) {
		b := clone(big)
		b[dHead+dRec*i*101+3]++
		checkRecover(b[:len(b)-i])
	})
	recoverSizes(r)
}

func init() {
	checks["C03"] = lib.Check{Level: "fault_enumeration",
		Rule:        "every operation history up to the depth (merged on the complete state) x every file operation of the next operation x every length of the torn write, then recovery, itself crashed at every point and torn write; non-trivial: torn in the middle or crashed twice",
		Assumptions: []string{"the process dies between or inside file writes; what was written stays (no power failure)", "a torn write leaves a prefix of the data"},
		Fn:          deltaCrash}
	checks["C05"] = lib.Check{Level: "fault_enumeration",
		Rule:        "every operation history up to the depth x every file operation of the next operation failing (writes and reads after every partial length explored, once or from then on) x five continuations; non-trivial: part of the transfer was done",
		Assumptions: []string{"a failed write leaves a prefix of the data and reports how much was written"},
		Fn:          deltaFaults}
	checks["C04"] = lib.Check{Level: "fault_enumeration",
		Rule: "exhaustive damage of small change logs: all truncations, all values of every byte, all pairs of bytes with nine values, all zeroed, filled, removed and duplicated ranges, wrong counts, all sequences of good and bad records; compared byte for byte with an independent parser; non-trivial: record sequences",
		Fn:   deltaRecover}
}
