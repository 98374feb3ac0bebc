//go:build go1.24

package main

import (
	"bytes"
	"fmt"

	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
)

// ---------------------------------------------------------------- C32

// amounts are the partial lengths of a transfer to try.
func amounts(n int, all bool) []int {
	var l []int
	for j := 0; j < n; j++ {
		if all || j < 2 || j == n/2 || j >= n-2 {
			l = append(l, j)
		}
	}
	if len(l) == 0 {
		l = []int{0}
	}
	return l
}

// faulty is an iterator over a database whose file fails now and then.
type faulty struct {
	c     *lib.C
	r     *lib.Run
	disk  *lib.Disk
	env   *lib.Env
	left  int  // failures still to come
	shut  bool // no failures at the moment
	hit   bool // a failure happened in the call in progress
	ahead bool // reading ahead has failed, the record before it has been yielded
}

func (f *faulty) decide(o lib.Op) lib.Answer {
	if f.shut || f.left == 0 {
		return lib.Answer{}
	}
	l := []int{0}
	if o.Kind == "read" || o.Kind == "write" {
		l = amounts(o.N, false)
	}
	x := f.c.Choose(1 + len(l))
	if x == 0 {
		return lib.Answer{}
	}
	f.left--
	f.hit = true
	f.c.Interesting()
	f.c.Note("the %s of %d bytes fails after %d", o.Kind, o.N, l[x-1])
	return lib.Answer{Fail: true, N: l[x-1]}
}

// call executes one operation of the code and tells whether a failure happened.
func (f *faulty) call(what string, do func() error) (err error, hit bool) {
	f.hit = false
	err = do()
	f.c.Note("%s: %v", what, err)
	if err != nil && !f.hit {
		lib.Failf("refused", "%s fails though no file operation did: %v", what, err)
	}
	return err, f.hit
}

func recordFaults(r *lib.Run) {
	small := []rrec{mkrec(1, 1, 0, 16), mkrec(2, 0, 0, 0), mkrec(3, 2, 1, 9)}
	same := []rrec{mkrec(1, 1, 1, 8), mkrec(2, 1, 1, 8), mkrec(3, 1, 1, 8)}
	// Records across the end of the read buffer, and one larger than it.
	large := []rrec{mkrec(1, 100, 80, 200), mkrec(2, 120, 60, 1400), mkrec(3, 40, 5, 100), mkrec(4, 600, 30, 150), mkrec(5, 0, 1, 30)}
	tight := []rrec{mkrec(1, 2, 2, 0), mkrec(2, 0, 3, 0), mkrec(3, 1, 0, 0)}
	iterate := func(name string, recs []rrec, depth, faults int) {
		r.Enumerate(name, func(c *lib.C) {
			head := rheader(0, uint32(len(recs)))
			data := append([]byte{}, head...)
			recs := append([]rrec{}, recs...)
			at := []int{}
			for _, e := range recs {
				at = append(at, len(data))
				data = append(data, e.bytes()...)
			}
			f := &faulty{c: c, r: r, disk: &lib.Disk{Data: clone(data)}, env: &lib.Env{}, left: faults}
			f.env.Decide = f.decide
			file := lib.NewFile(f.disk, f.env)
			var it recdb.Iterator
			err, _ := f.call("NewIterator", func() (err error) {
				it, err = recdb.NewIterator(file, rproto)
				return
			})
			if err != nil {
				return
			}
			pos, maybe := 0, -1    // the next record; another one it may be
			torn := map[int]bool{} // records whose rewriting failed
			others := func(what string) {
				for i, e := range recs {
					if torn[i] {
						continue
					}
					if !bytes.Equal(f.disk.Data[at[i]:at[i]+int(e.capacity)], e.bytes()) {
						lib.Failf("bytes", "after %s record %d is not what was written there", what, i)
					}
				}
				if !bytes.Equal(f.disk.Data[:rHead], head) || len(f.disk.Data) != len(data) {
					lib.Failf("bytes", "after %s the header or the length of the file is another one", what)
				}
			}
			for step := 0; step < depth; step++ {
				switch op := c.Choose(3); op {
				case 0: // Next
					has := it.HasNext()
					if has != (pos < len(recs)) && (maybe < 0 || has != (maybe < len(recs))) {
						lib.Failf("hasnext", "HasNext() = %v with %d of %d records read", has, pos, len(recs))
					}
					var e *recdb.Entry
					f.hit = false
					e, err := it.Next()
					c.Note("Next: %v", err)
					if err != nil {
						if f.hit || f.ahead || !has {
							f.ahead = false
							break
						}
						if torn[pos] || maybe >= 0 && torn[maybe] {
							return // cannot be read any more
						}
						lib.Failf("refused", "Next fails on record %d though no file operation did: %v", pos, err)
					}
					if pos >= len(recs) && maybe < 0 {
						lib.Failf("invented", "Next yields a record behind the last one")
					}
					good := func(i int) string {
						if i < 0 || i >= len(recs) {
							return "a record that is not there"
						}
						if torn[i] {
							return ""
						}
						return recs[i].equals(e)
					}
					msg := good(pos)
					if msg != "" && maybe >= 0 && good(maybe) == "" {
						pos, msg = maybe, ""
					}
					if msg != "" {
						lib.Failf("invented", "Next yields record %d as %s", pos, msg)
					}
					f.ahead = f.ahead || f.hit
					maybe = -1
					pos++
				case 1: // Rewind
					err, hit := f.call("Rewind", it.Rewind)
					if err == nil && hit {
						lib.Failf("silent", "rewinding succeeds though the file could not be positioned")
					}
					if err == nil {
						pos, maybe = 0, -1
					} else if pos != 0 {
						maybe = 0
					}
				case 2: // SetPrevious
					if maybe >= 0 {
						return // either of two
					}
					if pos == 0 {
						if it.SetPrevious(recs[0].entry()) == nil {
							lib.Failf("accepted", "SetPrevious is accepted before the first record")
						}
						break
					}
					i := pos - 1
					e := recs[i]
					e.user = e.user%100 + 100*uint64(step+1)
					e.likes, e.dislikes = seqIDs(uint64(5000*(step+1)), len(e.likes)), seqIDs(uint64(9000*(step+1)), len(e.dislikes))
					err, hit := f.call("SetPrevious", func() error { return it.SetPrevious(e.entry()) })
					recs[i] = e
					if err != nil {
						torn[i] = true
					} else {
						delete(torn, i)
						if hit && !bytes.Equal(f.disk.Data[at[i]:at[i]+int(e.capacity)], e.bytes()) {
							lib.Failf("silent", "rewriting record %d succeeds though it is not completely written", i)
						}
					}
				}
				others(fmt.Sprintf("step %d", step+1))
			}
			// The file works again: what is left is read, what was torn is rewritten.
			f.shut = true
			if maybe < 0 && pos > 0 && torn[pos-1] {
				if err := it.SetPrevious(recs[pos-1].entry()); err != nil {
					lib.Failf("repeat", "once the file works again rewriting record %d fails: %v", pos-1, err)
				}
				delete(torn, pos-1)
				others("repeating the rewriting")
			}
			read := func(when string) {
				ok := true
				for i := pos; i < len(recs); i++ {
					if torn[i] {
						ok = false
						break
					}
					if !it.HasNext() {
						lib.Failf("resume", "%s HasNext() = false before record %d", when, i)
					}
					e, err := it.Next()
					if err != nil && f.ahead {
						f.ahead = false
						e, err = it.Next()
					}
					if err != nil {
						lib.Failf("resume", "%s Next fails on record %d: %v", when, i, err)
					}
					msg := recs[i].equals(e)
					if msg != "" && maybe >= 0 && (torn[maybe] || recs[maybe].equals(e) == "") {
						i, msg = maybe, ""
						ok = !torn[maybe]
					}
					maybe = -1
					if msg != "" {
						lib.Failf("resume", "%s Next yields record %d as %s", when, i, msg)
					}
				}
				if ok && maybe < 0 {
					if it.HasNext() {
						lib.Failf("resume", "%s HasNext() = true behind the last record", when)
					}
					if _, err := it.Next(); err == nil {
						lib.Failf("resume", "%s Next succeeds behind the last record", when)
					}
				}
			}
			read("once the file works again")
			if err := it.Rewind(); err != nil {
				lib.Failf("resume", "once the file works again rewinding fails: %v", err)
			}
			pos, maybe, f.ahead = 0, -1, false
			read("rewound,")
		})
	}
	depth, faults := 4, 2
	if r.Thorough {
		depth, faults = 6, 3
	}
	iterate("failing files: records of different sizes", small, depth, faults)
	iterate("failing files: records of one size", same, depth, faults)
	iterate("failing files: records without spare space", tight, depth, faults)
	iterate("failing files: records larger than the buffer", large, depth+1, 2)

	// Reading and writing by themselves, one failing or short transfer.
	recs := append(append(append([]rrec{}, small...), tight...), mkrec(7, 30, 40, 300), mkrec(8, 1100, 0, 0), mkrec(9, 0, 1100, 250))
	type task struct {
		name string
		data []byte // to be read or written
		do   func(f *lib.File) (int, error, string)
		read bool
	}
	var tasks []task
	for i, e := range recs {
		e := e
		tasks = append(tasks, task{fmt.Sprintf("writing record %d", i), e.bytes(), func(f *lib.File) (int, error, string) {
			n, err := rproto.WriteEntry(e.entry(), f)
			return n, err, ""
		}, false}, task{fmt.Sprintf("reading record %d", i), e.bytes(), func(f *lib.File) (int, error, string) {
			var x recdb.Entry
			n, err := rproto.ReadEntry(&x, f)
			if err != nil {
				return n, err, ""
			}
			return n, err, e.equals(&x)
		}, true})
	}
	head := rheader(0, 7)
	like := recdb.NewLikeProtocol().GetEntryType()
	tasks = append(tasks,
		task{"writing the signature", head[:5], func(f *lib.File) (int, error, string) {
			n, err := rproto.WritePrefix(f)
			return n, err, ""
		}, false},
		task{"writing the header", head[5:], func(f *lib.File) (int, error, string) {
			n, err := rproto.WriteHeader(&recdb.Header{Version: 1, EntryType: like, NumEntries: 7}, f)
			return n, err, ""
		}, false},
		task{"initialising a database", rheader(0, 0), func(f *lib.File) (int, error, string) {
			return rHead, rproto.Create(f), ""
		}, false},
		task{"reading the signature", head[:5], func(f *lib.File) (int, error, string) {
			n, err := rproto.ReadPrefix(f)
			return n, err, ""
		}, true},
		task{"reading the header", head[5:], func(f *lib.File) (int, error, string) {
			var h recdb.Header
			n, err := rproto.ReadHeader(&h, f)
			if err == nil && (h.Version != 1 || h.EntryType != like || h.Locked != 0 || h.NumEntries != 7) {
				return n, err, fmt.Sprint(h)
			}
			return n, err, ""
		}, true},
	)
	for _, locked := range []byte{0, 1} {
		locked := locked
		file := append(rheader(locked, 1), recs[0].bytes()...)
		tasks = append(tasks, task{fmt.Sprintf("testing the mark %d", locked), file, func(f *lib.File) (int, error, string) {
			l, err := rproto.IsLocked(f)
			if err == nil && l != (locked != 0) {
				return len(file), err, fmt.Sprint(l)
			}
			return len(file), err, ""
		}, true}, task{fmt.Sprintf("setting the mark to %d", locked), file, func(f *lib.File) (int, error, string) {
			if len(f.D.Data) == 0 {
				f.D.Data = append(rheader(1-locked, 1), recs[0].bytes()...)
			}
			return len(file), rproto.WriteLocked(locked != 0, f), ""
		}, false})
	}
	r.Enumerate("failing transfers", func(c *lib.C) {
		t := tasks[c.Choose(len(tasks))]
		disk := &lib.Disk{}
		if t.read {
			disk.Data = clone(t.data)
		}
		env := &lib.Env{}
		failed, lost := false, false
		left := 2
		env.Decide = func(o lib.Op) lib.Answer {
			if left == 0 || failed {
				return lib.Answer{}
			}
			l := []int{0}
			if o.Kind != "seek" {
				l = amounts(o.N, o.N < 40)
			}
			short := 0
			if o.Kind == "read" && o.N > 1 {
				short = 1 // a legal answer: one byte
			}
			x := c.Choose(1 + len(l) + short)
			switch {
			case x == 0:
				return lib.Answer{}
			case x <= len(l):
				left--
				failed = true
				lost = true
				c.Interesting()
				c.Note("the %s of %d bytes fails after %d", o.Kind, o.N, l[x-1])
				return lib.Answer{Fail: true, N: l[x-1]}
			}
			left--
			c.Note("the read of %d bytes yields one", o.N)
			return lib.Answer{Short: true, N: 1}
		}
		c.Note("%s", t.name)
		n, err, msg := t.do(lib.NewFile(disk, env))
		c.Note("%v", err)
		switch {
		case err != nil && !failed:
			lib.Failf("refused", "%s fails though no file operation did: %v", t.name, err)
		case err == nil && lost:
			lib.Failf("silent", "%s succeeds though a file operation failed", t.name)
		case err == nil && msg != "":
			lib.Failf("wrong", "%s yields %s", t.name, msg)
		case err == nil && n != len(t.data):
			lib.Failf("count", "%s returns the length %d, should be %d", t.name, n, len(t.data))
		case err == nil && !bytes.Equal(disk.Data, t.data):
			lib.Failf("bytes", "%s leaves other bytes", t.name)
		}
	})

	// Files that end early, at every byte.
	type cut struct {
		recs []rrec
		n    int
	}
	var cuts []cut
	for _, l := range [][]rrec{small, same, tight, large[:3]} {
		total := rHead
		for _, e := range l {
			total += int(e.capacity)
		}
		for n := 0; n < total; n++ {
			cuts = append(cuts, cut{l, n})
		}
	}
	r.ForEach("files that end early", len(cuts), func(i int) string {
		return fmt.Sprintf("%d records, cut to %d bytes", len(cuts[i].recs), cuts[i].n)
	}, func(i int) {
		x := cuts[i]
		data := rheader(0, uint32(len(x.recs)))
		whole := 0
		for k, e := range x.recs {
			data = append(data, e.bytes()...)
			if len(data) <= x.n {
				whole = k + 1
			}
		}
		it, err := recdb.NewIterator(lib.NewFile(&lib.Disk{Data: data[:x.n:x.n]}, nil), rproto)
		if x.n < rHead {
			if err == nil {
				lib.Failf("silent", "a database without a complete header is opened")
			}
			return
		}
		if err != nil {
			lib.Failf("refused", "a database with a complete header is not opened: %v", err)
		}
		for round := 0; round < 2; round++ {
			for k := 0; k < whole; k++ {
				e, err := it.Next()
				if err != nil {
					lib.Failf("refused", "record %d is there but Next fails: %v", k, err)
				}
				if msg := x.recs[k].equals(e); msg != "" {
					lib.Failf("invented", "Next yields record %d as %s", k, msg)
				}
			}
			for again := 0; again < 3; again++ {
				if e, err := it.Next(); err == nil {
					lib.Failf("invented", "Next (attempt %d) yields a record that is not completely there: %+v", again+1, *e)
				}
			}
			if err := it.Rewind(); err != nil {
				lib.Failf("refused", "rewinding fails: %v", err)
			}
		}
	})
}

func init() {
	checks["C32"] = lib.Check{Level: "model_checking", Rule: "every sequence of next, rewind and rewriting up to the depth x every combination of up to two (thorough three) failing file operations x partial transfers, on four databases, and every single transfer of reading and writing a record, a header or the mark failing; files cut at every byte; non-trivial: at least one failure", Assumptions: []string{"a failing operation may have moved a part of its bytes; a failing seek has not moved"}, Fn: recordFaults}
}
