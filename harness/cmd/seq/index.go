//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
)

// Documented layout of an index file.
const (
	iHead = 12 // "RECIDX", version, lock, count
	iLock = 7
)

type ientry struct{ id, idx uint64 }

func ifile(locked byte, es ...ientry) []byte {
	b := append([]byte("RECIDX"), 1, locked)
	b = binary.BigEndian.AppendUint32(b, uint32(len(es)))
	for _, e := range es {
		b = binary.BigEndian.AppendUint64(b, e.id)
		b = binary.BigEndian.AppendUint64(b, e.idx)
	}
	return b
}

var iFactory = index.NewStorageFactory()

type iop struct {
	name, kind string
	id, val    uint64
	n          int
}

type isys struct {
	prop   string
	ops    []iop
	disk   *lib.Disk
	env    *lib.Env
	file   *lib.File
	st     domain.IndexStorage
	m      map[uint64]uint64 // current mapping
	saved  map[uint64]uint64 // mapping of the last completed close
	marked bool              // the file carries the mark
	probes []uint64
}

func iops(ids []uint64, kinds ...string) (ops []iop) {
	for i, id := range ids {
		ops = append(ops, iop{name: fmt.Sprintf("Put(%#x, 7)", id), kind: "put", id: id, val: 7})
		if len(ids) > 2 {
			ops = append(ops, iop{name: fmt.Sprintf("Put(%#x, 0)", id), kind: "put", id: id})
		}
		ops = append(ops, iop{name: fmt.Sprintf("Put(%#x, max)", id), kind: "put", id: id, val: ^uint64(0) - uint64(i)})
		ops = append(ops, iop{name: fmt.Sprintf("Remove(%#x)", id), kind: "remove", id: id})
	}
	for _, k := range kinds {
		o := iop{name: k, kind: k}
		switch k {
		case "put300":
			o.n = 300
		case "remove299":
			o.n = 299
		}
		ops = append(ops, o)
	}
	return
}

var iIDs = []uint64{1, 1<<40 | 1, 0, ^uint64(0)}

func bulkID(k int) uint64 { return 1000 + uint64(k)*65537 }

func copyMap(m map[uint64]uint64) map[uint64]uint64 {
	out := make(map[uint64]uint64, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

type istart struct {
	name  string
	data  []byte
	m     map[uint64]uint64
	reads int // bytes per read, 0: all
}

func istarts() []istart {
	mk := func(name string, es ...ientry) istart {
		m := map[uint64]uint64{}
		for _, e := range es {
			m[e.id] = e.idx
		}
		return istart{name, ifile(0, es...), m, 0}
	}
	var many []ientry
	for k := 0; k < 300; k++ {
		many = append(many, ientry{bulkID(k), uint64(k)})
	}
	out := []istart{
		{"no file", nil, map[uint64]uint64{}, 0},
		mk("2 entries", ientry{1, 0}, ientry{0, ^uint64(0)}),
		mk("300 entries", many...),
	}
	// An index that shrank leaves old entries behind the announced ones.
	st := mk("1 entry, stale ones behind", ientry{1, 5})
	st.data = append(st.data, ifile(0, ientry{1, 6}, ientry{0, 9})[iHead:]...)
	out = append(out, st)
	slow := mk("2 entries, read byte by byte", ientry{1, 0}, ientry{0, ^uint64(0)})
	slow.reads = 1
	return append(out, slow)
}

func ispace(name, prop string, ops []iop, starts []istart, depth int) lib.Space {
	sp := lib.Space{Name: name, Depth: depth}
	for _, o := range ops {
		sp.Ops = append(sp.Ops, o.name)
	}
	for _, s := range starts {
		sp.Starts = append(sp.Starts, s.name)
	}
	sp.New = func(i int) lib.System {
		st := starts[i]
		s := &isys{prop: prop, ops: ops, disk: &lib.Disk{Data: clone(st.data)}, env: &lib.Env{}, m: copyMap(st.m), saved: copyMap(st.m)}
		if st.reads > 0 {
			s.env.Decide = func(o lib.Op) lib.Answer { return lib.Answer{Short: o.Kind == "read", N: st.reads} }
		}
		s.probes = append(append([]uint64{}, iIDs...), 2, 1<<40, 1<<63, bulkID(0), bulkID(150), bulkID(298), bulkID(299))
		return s
	}
	return sp
}

func hashMap(h *lib.Hasher, m map[uint64]uint64) {
	var x uint64
	for k, v := range m {
		a := k*0x9E3779B97F4A7C15 + v
		a ^= a >> 29
		a *= 0xBF58476D1CE4E5B9
		x += a ^ a>>32
	}
	h.Int(int64(len(m)))
	h.Int(int64(x))
}

func (s *isys) Hash(h *lib.Hasher) {
	h.Bytes(s.disk.Data)
	if s.st != nil {
		h.Any(s.st)
	}
	hashMap(h, s.m)
	hashMap(h, s.saved)
	if s.marked {
		h.Int(1)
	}
}

func (s *isys) call(o iop) (err error, ok bool) {
	if s.st == nil {
		switch o.kind {
		case "open", "opennc":
			s.file = lib.NewFile(s.disk, s.env)
			var c io.Closer = s.file
			if o.kind == "opennc" {
				c = nil
			}
			st, err := iFactory.Open(s.file, c)
			if err == nil && st == nil {
				lib.Failf("nil", "open returned neither a storage nor an error")
			}
			if err == nil {
				s.st = st
			}
			return err, true
		}
		return nil, false
	}
	switch o.kind {
	case "put":
		return s.st.Put(o.id, o.val), true
	case "remove":
		return s.st.Remove(o.id), true
	case "put300":
		for k := 0; k < o.n; k++ {
			if err := s.st.Put(bulkID(k), uint64(k)+1); err != nil {
				return err, true
			}
		}
		return nil, true
	case "remove299":
		for k := 0; k < o.n; k++ {
			if err := s.st.Remove(bulkID(k)); err != nil {
				return err, true
			}
		}
		return nil, true
	case "close":
		return s.st.Close(), true
	case "kill":
		return nil, true
	}
	return nil, false
}

func (s *isys) apply(o iop) {
	switch o.kind {
	case "open", "opennc":
		s.m = copyMap(s.saved)
		s.marked = true
	case "put":
		s.m[o.id] = o.val
	case "remove":
		delete(s.m, o.id)
	case "put300":
		for k := 0; k < o.n; k++ {
			s.m[bulkID(k)] = uint64(k) + 1
		}
	case "remove299":
		for k := 0; k < o.n; k++ {
			delete(s.m, bulkID(k))
		}
	case "close":
		s.saved = copyMap(s.m)
		s.st = nil
		s.marked = false
	case "kill":
		s.m = copyMap(s.saved)
		s.st = nil
	}
}

func (s *isys) Do(op int) bool {
	o := s.ops[op]
	if s.st == nil && s.marked {
		if s.prop != "C08" || o.kind != "open" && o.kind != "opennc" {
			return false
		}
		before := clone(s.disk.Data)
		err, _ := s.call(o)
		s.refused(err, before, "opening the index of a killed process")
		return false // same state
	}
	if s.prop == "C08" {
		s.watch(o)
	}
	err, ok := s.call(o)
	if !ok {
		return false
	}
	if err != nil {
		lib.Failf("unexpected-error", "%s failed: %v", o.name, err)
	}
	s.apply(o)
	s.checkMap(s.st, s.m, o.name)
	if s.prop == "C08" {
		s.marks(o)
	}
	return true
}

func sameMap(st domain.IndexStorage, m map[uint64]uint64, probes []uint64) string {
	for _, id := range probes {
		got, ok := st.Get(id)
		want, wok := m[id]
		if ok != wok || ok && got != want {
			return fmt.Sprintf("Get(%#x) = %d, %v; want %d, %v", id, got, ok, want, wok)
		}
	}
	return ""
}

func (s *isys) allProbes() []uint64 {
	out := append([]uint64{}, s.probes...)
	for k := 0; k < 300; k += 7 {
		out = append(out, bulkID(k))
	}
	return out
}

func (s *isys) checkMap(st domain.IndexStorage, m map[uint64]uint64, what string) {
	if st == nil {
		return
	}
	if msg := sameMap(st, m, s.allProbes()); msg != "" {
		lib.Failf("get", "after %s: %s", what, msg)
	}
}

func indexHistories(r *lib.Run) {
	depth := 9
	if r.Thorough {
		depth = 12
	}
	bothOrders(r, func(sfx string) {
		r.BFS(ispace("histories"+sfx, "C06", iops(iIDs[:3], "close", "open"), istarts(), depth))
		r.BFS(ispace("bulk histories"+sfx, "C06", iops(iIDs[3:], "put300", "remove299", "close", "open", "opennc"), istarts(), depth))
	})
	indexSizes(r)
}

// ---------------------------------------------------------------- C07

var iSeen sync.Map

// check opens the disk left behind: refused, or one of the mappings.
func iAfter(disk *lib.Disk, at string, probes []uint64, allowed ...map[uint64]uint64) {
	if disk.Data == nil {
		disk.Data = []byte{}
	}
	st, err := iFactory.Open(lib.NewFile(disk, nil), nil)
	if err != nil {
		return // refused
	}
	msg := ""
	for _, m := range allowed {
		msg = sameMap(st, m, probes)
		if msg == "" {
			return
		}
	}
	lib.Failf("wrong-mapping", "%s: the file opens with a different mapping: %s (file % x)", at, msg, headOf(disk.Data))
}

func indexDamage(r *lib.Run, sp lib.Space, ops []iop, start int, path []int) {
	build := func() *isys {
		s := sp.New(start).(*isys)
		for _, o := range path {
			s.Do(o)
		}
		return s
	}
	for _, o := range ops {
		if o.kind != "open" && o.kind != "close" && o.kind != "opennc" {
			continue
		}
		s := build()
		if s.st == nil && s.marked {
			continue
		}
		enabled := false
		script := record(s.env, func() { _, enabled = s.call(o) })
		if !enabled {
			continue
		}
		probes := s.allProbes()
		for k, f := range script {
			mutates := f.kind == "write" || f.kind == "truncate" || f.kind == "close"
			for _, j := range cuts(f.n, r.Thorough) {
				if f.kind == "read" && j > 1 || f.kind != "read" && f.kind != "write" && j > 0 {
					continue
				}
				modes := []string{"fail", "failing from then on"}
				if mutates {
					modes = append(modes, "crash")
				}
				for _, mode := range modes {
					if mode != "crash" && f.kind == "write" && j == f.n {
						continue
					}
					s := build()
					a := lib.Answer{Crash: mode == "crash", Fail: mode != "crash", N: j}
					nth(s.env, k, a, mode == "failing from then on")
					s.env.Fails = 0
					var err error
					died := lib.Crash(func() { err, _ = s.call(o) })
					s.env.Decide = nil
					if !died && s.env.Fails == 0 {
						continue
					}
					r.Evals.Add(1)
					if j > 0 && j < f.n {
						r.Nontrivial.Add(1)
					}
					at := fmt.Sprintf("%s in %s, file operation %d (%s of %d bytes, %d done)", mode, o.name, k, f.kind, f.n, j)
					if !died && err == nil {
						lib.Failf("no-error", "%s: the call reported success", at)
					}
					allowed := []map[uint64]uint64{s.saved}
					if o.kind == "close" {
						allowed = append(allowed, s.m)
					}
					iAfter(s.disk, at, probes, allowed...)
				}
			}
		}
	}
}

func indexCrash(r *lib.Run) {
	depth, bulkDepth := 5, 5
	if r.Thorough {
		depth, bulkDepth = 7, 6
	}
	run := func(name string, ops []iop, starts []istart, depth int) {
		sp := ispace(name, "C07", ops, starts, depth)
		sp.AtState = func(start int, path []int, s lib.System) { indexDamage(r, sp, ops, start, path) }
		r.BFS(sp)
	}
	bothOrders(r, func(sfx string) {
		run("crashes and faults"+sfx, iops(iIDs[:2], "close", "open", "opennc"), istarts()[:4], depth)
		run("crashes and faults of large files"+sfx, iops(iIDs[3:], "put300", "remove299", "close", "open"), istarts()[:3], bulkDepth)
	})
}

// ---------------------------------------------------------------- C08

func (s *isys) refused(err error, before []byte, at string) {
	if err == nil {
		lib.Failf("opened-marked", "%s: a file carrying the in-use mark was opened", at)
	}
	if !bytes.Equal(before, s.disk.Data) {
		lib.Failf("modified", "%s: the refused file was modified", at)
	}
}

// watch checks the mark at every file operation of the call.
func (s *isys) watch(o iop) {
	s.env.After = watcher(s.disk, iLock, s.st != nil, o.kind == "close", o.name)
}

// watcher returns a monitor of the in-use mark. While open the mark must be
// set; during the close it may be cleared once the rest of the file is final.
func watcher(disk *lib.Disk, lockAt int, open, closing bool, name string) func(lib.Op) {
	var final []byte
	return func(op lib.Op) {
		if !open || len(disk.Data) <= lockAt {
			if open {
				lib.Failf("mark", "%s: the file lost its header while open", name)
			}
			return
		}
		if disk.Data[lockAt] != 0 {
			if final != nil {
				lib.Failf("mark", "%s: the in-use mark was cleared and set again", name)
			}
			return
		}
		if !closing {
			lib.Failf("mark", "%s: the in-use mark is clear while the file is open", name)
		}
		if final == nil {
			final = clone(disk.Data)
		} else if !bytes.Equal(final, disk.Data) {
			lib.Failf("mark", "%s: the file changed after the in-use mark was cleared", name)
		}
	}
}

func (s *isys) marks(o iop) {
	s.env.After = nil
	if s.st != nil {
		if s.disk.Data[iLock] == 0 {
			lib.Failf("mark", "after %s: the open index carries no in-use mark", o.name)
		}
		d := &isys{disk: &lib.Disk{Data: clone(s.disk.Data)}}
		_, err := iFactory.Open(lib.NewFile(d.disk, nil), nil)
		d.refused(err, s.disk.Data, "second open after "+o.name)
	}
	if o.kind == "close" && s.disk.Data[iLock] != 0 {
		lib.Failf("mark", "the in-use mark is set after a successful close")
	}
}

// marks of the change log.
func (s *dsys) doMarks(o dop) bool {
	plainMarked := o.kind == "open" && s.st == nil && len(s.disk.Data) > dLock && s.disk.Data[dLock] != 0
	if plainMarked {
		before := clone(s.disk.Data)
		err, _ := s.call(o)
		if err == nil {
			lib.Failf("opened-marked", "a change log carrying the in-use mark was opened")
		}
		if !bytes.Equal(before, s.disk.Data) {
			lib.Failf("modified", "the refused change log was modified")
		}
		s.st = nil
		return false
	}
	if s.st != nil {
		s.env.After = watcher(s.disk, dLock, true, o.kind == "close", o.name)
	}
	err, ok := s.call(o)
	s.env.After = nil
	if !ok {
		return false
	}
	if err != nil {
		lib.Failf("unexpected-error", "%s failed: %v", o.name, err)
	}
	s.apply(o)
	if s.st != nil {
		if s.disk.Data[dLock] == 0 {
			lib.Failf("mark", "after %s: the open change log carries no in-use mark", o.name)
		}
		d := &lib.Disk{Data: clone(s.disk.Data)}
		if _, err := dFactory.Open(lib.NewFile(d, nil)); err == nil {
			lib.Failf("opened-marked", "after %s: a second plain open succeeded", o.name)
		}
		if !bytes.Equal(d.Data, s.disk.Data) {
			lib.Failf("modified", "after %s: a refused second open modified the file", o.name)
		}
	}
	if o.kind == "close" && s.disk.Data[dLock] != 0 {
		lib.Failf("mark", "the in-use mark is set after a successful close")
	}
	return true
}

func markChecks(r *lib.Run) {
	depth := 6
	if r.Thorough {
		depth = 8
	}
	bothOrders(r, func(sfx string) {
		r.BFS(ispace("index histories"+sfx, "C08", iops(iIDs[:2], "close", "open", "opennc", "kill"), istarts()[:4], depth+1))
		r.BFS(ispace("index bulk histories"+sfx, "C08", iops(iIDs[3:], "put300", "remove299", "close", "open", "kill"), istarts()[:3], depth))
		r.BFS(dspace("change log histories"+sfx, "C08", dops(dP[:2], "flush", "close", "open", "openrec", "kill"), append(dstarts(0)[:3], dstarts(1)[1:3]...), depth+1))
		r.BFS(dspace("change log bulk histories"+sfx, "C08", append(dops(dP[1:2], "flush", "close", "open", "openrec", "kill"), dop{"Add 300 operations", "bulk", '+', pair{dU1, 5000}, 300}), []dstart{dstarts(0)[0], dstarts(0)[3], dstarts(1)[3]}, depth))
	})
	// Every non-zero mark.
	iS, dS := istarts(), dstarts(0)
	dbs := rstarts()
	n := len(iS) + len(dS) + len(dbs)
	r.ForEach("every mark", 255*n, func(i int) string { return fmt.Sprintf("file %d with mark %d", i/255, i%255+1) }, func(i int) {
		f, mark := i/255, byte(i%255+1)
		var data []byte
		lock := 0
		kind := ""
		switch {
		case f < len(iS):
			data, lock, kind = clone(iS[f].data), iLock, "index"
		case f < len(iS)+len(dS):
			data, lock, kind = clone(dS[f-len(iS)].data), dLock, "change log"
		default:
			data, lock, kind = clone(dbs[f-len(iS)-len(dS)].bytes()), rLock, "record database"
		}
		if len(data) == 0 {
			return
		}
		data[lock] = mark
		d := &lib.Disk{Data: clone(data)}
		var err error
		file := lib.NewFile(d, nil)
		switch kind {
		case "index":
			_, err = iFactory.Open(file, file)
		case "change log":
			_, err = delta.NewStorageFactory().Open(file)
		default:
			_, err = recdb.NewIterator(file, recdb.NewProtocol(recdb.NewLikeProtocol()))
		}
		if err == nil {
			lib.Failf("opened-marked", "a %s with the in-use mark %d was opened", kind, mark)
		}
		if !bytes.Equal(d.Data, data) {
			lib.Failf("modified", "the refused %s was modified", kind)
		}
		r.Nontrivial.Add(1)
	})
	// Through the file system.
	r.Serial = true
	r.ForEach("index files on disk", len(iS)*3, func(i int) string { return fmt.Sprintf("index file %d with mark %d", i/3, i%3) }, func(i int) {
		path := filepath.Join(os.Getenv("VERIF_SCRATCH"), "marks.index")
		defer os.Remove(path)
		data := clone(iS[i/3].data)
		if len(data) > iLock {
			data[iLock] = byte(i % 3)
		}
		if len(data) > 0 {
			if err := os.WriteFile(path, data, 0644); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
		}
		st, err := iFactory.OpenFile(path)
		now, _ := os.ReadFile(path)
		if len(data) > 0 && data[iLock] != 0 {
			if err == nil {
				lib.Failf("opened-marked", "an index file with the in-use mark was opened")
			}
			if !bytes.Equal(now, data) {
				lib.Failf("modified", "the refused index file was modified")
			}
			return
		}
		if err != nil {
			lib.Failf("unexpected-error", "OpenFile failed: %v", err)
		}
		if len(now) <= iLock || now[iLock] == 0 {
			lib.Failf("mark", "the open index file carries no in-use mark")
		}
		if _, err := iFactory.OpenFile(path); err == nil {
			lib.Failf("opened-marked", "an open index file was opened again")
		}
		if err := st.Close(); err != nil {
			lib.Failf("unexpected-error", "Close failed: %v", err)
		}
		now, _ = os.ReadFile(path)
		if len(now) <= iLock || now[iLock] != 0 {
			lib.Failf("mark", "the closed index file carries the in-use mark")
		}
	})
}

func init() {
	asm := []string{"identifiers are drawn from a small alphabet including 0 and the maximum", "map iteration is explored in ascending and descending key order"}
	checks["C06"] = lib.Check{Level: "model_checking", Rule: "breadth-first over operation histories of the real index, merged on the complete concrete state; every lookup is compared with a map after every operation", Assumptions: asm, Fn: indexHistories}
	checks["C07"] = lib.Check{Level: "fault_enumeration", Rule: "every history up to the depth x every file operation of the next open or close: crash with every torn prefix, or failure once or from then on; then a plain open; non-trivial: torn or partial transfers", Assumptions: append(asm, "the process dies; what was written stays"), Fn: indexCrash}
	checks["C08"] = lib.Check{Level: "model_checking", Rule: "breadth-first over histories of the real index and change log with a monitor of the mark at every file operation, a second open in every open state, and every mark value on files of the three types", Assumptions: asm, Fn: markChecks}
}
