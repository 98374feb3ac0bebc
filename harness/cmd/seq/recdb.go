//go:build go1.24

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
)

// Documented layout of a record database.
const (
	rHead = 19 // "RECDB", version, type (8), lock, count
	rLock = 14
)

// rrec is one record.
type rrec struct {
	capacity uint32
	deleted  byte
	user     uint64
	likes    []uint64
	dislikes []uint64
}

func (e rrec) size() int { return 5 + 8 + 4 + 8*len(e.likes) + 4 + 8*len(e.dislikes) }

// raw encodes the record without looking at the capacity.
func (e rrec) raw() []byte {
	b := binary.BigEndian.AppendUint32(nil, e.capacity)
	b = append(b, e.deleted)
	b = binary.BigEndian.AppendUint64(b, e.user)
	b = binary.BigEndian.AppendUint32(b, uint32(len(e.likes)))
	for _, x := range e.likes {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(len(e.dislikes)))
	for _, x := range e.dislikes {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	return b
}

func (e rrec) bytes() []byte {
	b := e.raw()
	if n := int(e.capacity) - len(b); n > 0 {
		b = append(b, make([]byte, n)...)
	}
	return b
}

func (e rrec) entry() *recdb.Entry {
	return &recdb.Entry{Capacity: e.capacity, Deleted: e.deleted, Data: &domain.Profile{
		UserID: e.user, Likes: append([]uint64{}, e.likes...), Dislikes: append([]uint64{}, e.dislikes...)}}
}

func sameIDs(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// equals compares an entry that was read with the record.
func (e rrec) equals(x *recdb.Entry) string {
	if x == nil {
		return "no entry"
	}
	p, ok := x.Data.(*domain.Profile)
	if !ok || p == nil {
		return fmt.Sprintf("data is %T", x.Data)
	}
	if x.Capacity != e.capacity || x.Deleted != e.deleted || p.UserID != e.user || !sameIDs(p.Likes, e.likes) || !sameIDs(p.Dislikes, e.dislikes) {
		return fmt.Sprintf("capacity=%d deleted=%d user=%d %d likes %d dislikes, want capacity=%d deleted=%d user=%d %d likes %d dislikes",
			x.Capacity, x.Deleted, p.UserID, len(p.Likes), len(p.Dislikes), e.capacity, e.deleted, e.user, len(e.likes), len(e.dislikes))
	}
	return ""
}

func rheader(locked byte, count uint32) []byte {
	b := append([]byte("RECDB"), 1)
	b = append(b, "LIKE    "...)
	b = append(b, locked)
	return binary.BigEndian.AppendUint32(b, count)
}

type rstart struct {
	name  string
	recs  []rrec
	count int // announced
	tail  []byte
}

func (s rstart) bytes() []byte {
	b := rheader(0, uint32(s.count))
	for _, e := range s.recs {
		b = append(b, e.bytes()...)
	}
	return append(b, s.tail...)
}

func seqIDs(from uint64, n int) (out []uint64) {
	for i := 0; i < n; i++ {
		out = append(out, from+uint64(i)*3)
	}
	return
}

func mkrec(user uint64, likes, dislikes, spare int) rrec {
	e := rrec{user: user, likes: seqIDs(user*100, likes), dislikes: seqIDs(user*100+1, dislikes)}
	e.capacity = uint32(e.size() + spare)
	return e
}

func rstarts() []rstart {
	small := []rrec{mkrec(1, 1, 0, 40), mkrec(2, 0, 0, 0), mkrec(3, 2, 1, 17)}
	same := []rrec{mkrec(1, 1, 1, 8), mkrec(2, 1, 1, 8), mkrec(3, 1, 1, 8)}
	// A record across the end of the first buffer (4096), one larger than it.
	large := []rrec{mkrec(1, 100, 80, 200), mkrec(2, 120, 60, 1400), mkrec(3, 40, 5, 100), mkrec(4, 600, 30, 150), mkrec(5, 0, 1, 30)}
	return []rstart{
		{"no records", nil, 0, nil},
		{"1 record", small[:1], 1, nil},
		{"3 records", small, 3, nil},
		{"3 records of one size", same, 3, nil},
		{"3 records, 2 announced", small, 2, nil},
		{"2 records, 4 announced", small[:2], 4, nil},
		{"1 record, 2 announced, the second cut short", small[:1], 2, mkrec(9, 1, 0, 40).bytes()[:30]},
		{"1 record, 2 announced, the second of another capacity cut short", small[:1], 2, mkrec(9, 3, 0, 40).bytes()[:30]},
		{"5 large records", large, 5, nil},
	}
}

// rsys is an iterator over a database.
type rsys struct {
	start   rstart
	disk    *lib.Disk
	file    *lib.File
	it      recdb.Iterator
	recs    []rrec
	head    []byte
	tail    []byte
	pos     int // records read since the last rewind
	failed  bool
	last    *recdb.Entry
	opnames []string
	env     *lib.Env
}

var rops = []string{"Next", "Rewind", "SetPrevious(other user and items, same size)", "SetPrevious(one item less)", "SetPrevious(as many items as fit)",
	"SetPrevious(one item too many)", "SetPrevious(capacity+1)", "SetPrevious(capacity-1)", "SetPrevious(no data)", "SetPrevious(entry as read, deleted)", "SetPrevious(capacity of the damaged record)"}

func rspace(name string, starts []rstart, depth int) lib.Space {
	sp := lib.Space{Name: name, Ops: rops, Depth: depth}
	for _, s := range starts {
		sp.Starts = append(sp.Starts, s.name)
	}
	sp.New = func(i int) lib.System {
		st := starts[i]
		s := &rsys{start: st, disk: &lib.Disk{Data: st.bytes()}, env: &lib.Env{}}
		s.recs = append([]rrec(nil), st.recs...)
		s.head = rheader(0, uint32(st.count))
		s.tail = st.tail
		s.file = lib.NewFile(s.disk, s.env)
		s.file.Seek(int64(i%3), 0) // wherever the file is positioned
		it, err := recdb.NewIterator(s.file, recdb.NewProtocol(recdb.NewLikeProtocol()))
		if err != nil {
			lib.Failf("open", "NewIterator failed: %v", err)
		}
		s.it = it
		s.compare("NewIterator")
		return s
	}
	return sp
}

func (s *rsys) Hash(h *lib.Hasher) {
	h.Bytes(s.disk.Data)
	h.Any(s.it)
	h.Int(int64(s.pos))
	if s.failed {
		h.Int(1)
	}
	if s.last != nil {
		h.Any(s.last)
	}
	h.Any(s.recs)
}

func (s *rsys) want() []byte {
	b := clone(s.head)
	for _, e := range s.recs {
		b = append(b, e.bytes()...)
	}
	return append(b, s.tail...)
}

func (s *rsys) compare(what string) {
	w := s.want()
	if !bytes.Equal(w, s.disk.Data) {
		i := 0
		for i < len(w) && i < len(s.disk.Data) && w[i] == s.disk.Data[i] {
			i++
		}
		lib.Failf("bytes", "after %s the file (%d bytes) differs from the expected one (%d bytes) from byte %d on", what, len(s.disk.Data), len(w), i)
	}
}

func (s *rsys) Do(op int) bool {
	name := rops[op]
	if has, want := s.it.HasNext(), s.pos < s.start.count; has != want {
		lib.Failf("hasnext", "HasNext() = %v with %d of %d records read", has, s.pos, s.start.count)
	}
	switch op {
	case 0:
		e, err := s.it.Next()
		switch {
		case s.pos >= s.start.count:
			if err == nil {
				lib.Failf("past-end", "Next returned an entry after the announced %d", s.start.count)
			}
		case s.pos >= len(s.recs):
			if err == nil {
				lib.Failf("missing", "Next returned an entry that is not there")
			}
			s.failed = true
		case err != nil:
			if !s.failed {
				lib.Failf("next", "Next failed on record %d: %v", s.pos, err)
			}
			return false
		default:
			if msg := s.recs[s.pos].equals(e); msg != "" {
				lib.Failf("entry", "Next returned record %d as %s", s.pos, msg)
			}
			s.last = e
			s.pos++
		}
		s.compare(name)
		return true
	case 1:
		if err := s.it.Rewind(); err != nil {
			lib.Failf("rewind", "Rewind failed: %v", err)
		}
		s.pos, s.failed, s.last = 0, false, nil
		s.compare(name)
		return true
	}
	// SetPrevious
	var cur rrec
	if s.pos > 0 {
		cur = s.recs[s.pos-1]
	} else {
		// None was read: any record of the database.
		cur = mkrec(5, 1, 1, 0)
		if len(s.recs) > 0 {
			cur = s.recs[0]
		}
	}
	e := cur
	e.user = cur.user%100 + 1000
	var entry *recdb.Entry
	bad := s.pos == 0
	switch op {
	case 2:
		e.likes = seqIDs(5000, len(cur.likes))
		e.dislikes = seqIDs(9000, len(cur.dislikes))
	case 3:
		if len(cur.likes) == 0 {
			return false
		}
		e.likes = e.likes[1:]
	case 4:
		n := int(cur.capacity) - cur.size()
		e.dislikes = append(append([]uint64{}, cur.dislikes...), seqIDs(7000, n/8)...)
		if n < 8 {
			return false
		}
	case 5:
		n := int(cur.capacity) - cur.size()
		e.likes = append(append([]uint64{}, cur.likes...), seqIDs(7000, n/8+1)...)
		bad = true
	case 6:
		e.capacity++
		bad = true
	case 7:
		e.capacity--
		bad = true
	case 8:
		entry = &recdb.Entry{Capacity: cur.capacity}
		bad = true
	case 9:
		if s.last == nil {
			return false
		}
		c := *s.last
		entry = &c
		e = cur
		entry.Deleted = 1
		p := s.last.Data.(*domain.Profile)
		e.user, e.likes, e.dislikes, e.deleted = p.UserID, p.Likes, p.Dislikes, 1
	}
	if op == 10 {
		if len(s.tail) < 4 || !s.failed {
			return false
		}
		e.capacity = binary.BigEndian.Uint32(s.tail)
		bad = bad || e.capacity != cur.capacity
	}
	if entry == nil {
		entry = e.entry()
	}
	err := s.it.SetPrevious(entry)
	switch {
	case bad && err == nil:
		lib.Failf("accepted", "%s with %d records read succeeded", name, s.pos)
	case bad:
	case err != nil && s.failed:
		// Whether a record counts as just read after a failed Next is open,
		// but then nothing changes.
	case err != nil:
		lib.Failf("setprevious", "%s failed: %v", name, err)
	default:
		s.recs[s.pos-1] = e
	}
	s.compare(name)
	return true
}

func recdbIterator(r *lib.Run) {
	depth, large := 8, 8
	if r.Thorough {
		depth, large = 10, 10
	}
	all := rstarts()
	r.BFS(rspace("small databases", all[:len(all)-1], depth))
	r.BFS(rspace("large records", all[len(all)-1:], large))
	// Every pair of record positions and kinds of rewriting in databases of
	// many records around the buffer size.
	sizes := []int{0, 1, 7, 8, 9, 250, 484, 490, 505, 506, 507, 508, 509, 510, 511, 512, 520, 1000}
	r.ForEach("record ends around the buffer size", len(sizes)*len(sizes)*3, func(i int) string {
		return fmt.Sprintf("records of %d and %d items, record %d rewritten", sizes[i/3%len(sizes)], sizes[i/3/len(sizes)], i%3)
	}, func(i int) {
		a, b, k := sizes[i/3%len(sizes)], sizes[i/3/len(sizes)], i%3
		st := rstart{"", []rrec{mkrec(1, a, 0, i%9), mkrec(2, b/2, b-b/2, 3), mkrec(3, 1, 1, 8)}, 3, nil}
		for _, op := range []int{2, 3, 4, 5, 6, 9} {
			for variant := 0; variant < 2; variant++ {
				s := rspace("", []rstart{st}, 1).New(0).(*rsys)
				step := func(o int) bool { return s.Do(o) }
				for n := 0; n <= k; n++ {
					step(0)
				}
				step(op)
				if variant == 1 {
					step(2)
				}
				for n := k + 1; n < 3; n++ {
					step(0)
				}
				step(0)
				step(1)
				for n := 0; n < 4; n++ {
					step(0)
				}
				r.Evals.Add(1)
				r.Nontrivial.Add(1)
			}
		}
	})
	databaseSizes(r)
}

// ---------------------------------------------------------------- C10

// chunked returns the data in pieces chosen by next.
type chunked struct {
	data []byte
	next func(want int) int
	eof  bool // the last piece comes with io.EOF
	read int
}

func (c *chunked) Read(b []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if n > len(c.data) {
		n = len(c.data)
	}
	if c.next != nil && n > 0 {
		if k := c.next(n); k < n {
			n = k
		}
	}
	copy(b, c.data[:n])
	c.data = c.data[n:]
	c.read += n
	if c.eof && len(c.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var rproto = recdb.NewProtocol(recdb.NewLikeProtocol())

func checkWrite(e rrec, r *lib.Run) {
	fits := e.size() <= int(e.capacity)
	var out bytes.Buffer
	n, err := rproto.WriteEntry(e.entry(), &out)
	if !fits {
		if err == nil {
			lib.Failf("oversize", "a record of %d bytes was written with capacity %d", e.size(), e.capacity)
		}
		if out.Len() > 0 {
			lib.Failf("oversize", "%d bytes were written before a record of %d bytes was refused for capacity %d", out.Len(), e.size(), e.capacity)
		}
		return
	}
	if err != nil {
		lib.Failf("write", "writing a record of %d bytes with capacity %d failed: %v", e.size(), e.capacity, err)
	}
	if n != int(e.capacity) || out.Len() != n {
		lib.Failf("write", "writing reports %d bytes and wrote %d, capacity %d", n, out.Len(), e.capacity)
	}
	if !bytes.Equal(out.Bytes(), e.bytes()) {
		lib.Failf("write", "the record with capacity %d is encoded wrongly", e.capacity)
	}
	r.Nontrivial.Add(1)
}

func checkRead(e rrec, c *chunked, at string) {
	x := &recdb.Entry{}
	n, err := rproto.ReadEntry(x, c)
	if e.size() > int(e.capacity) {
		if err == nil {
			lib.Failf("oversize-read", "%s: a record of %d bytes with capacity %d was accepted", at, e.size(), e.capacity)
		}
		return
	}
	if err != nil {
		lib.Failf("read", "%s: reading a record of %d bytes with capacity %d failed: %v", at, e.size(), e.capacity, err)
	}
	if n != int(e.capacity) || c.read != n {
		lib.Failf("read", "%s: reading reports %d bytes and consumed %d, capacity %d", at, n, c.read, e.capacity)
	}
	if msg := e.equals(x); msg != "" {
		lib.Failf("read", "%s: read back as %s", at, msg)
	}
}

func checkPredict(e rrec) {
	x := e.entry()
	n, err := rproto.PredictEntrySize(x)
	if err != nil || n != e.size() {
		lib.Failf("predict", "PredictEntrySize = %d, %v; the record has %d bytes", n, err, e.size())
	}
	c, err := rproto.PredictEntryCapacity(x)
	if err != nil || c < e.size() {
		lib.Failf("predict", "PredictEntryCapacity = %d, %v; the record has %d bytes", c, err, e.size())
	}
	d, err := recdb.NewLikeProtocol().PredictDataSize(x.Data)
	if err != nil || d != e.size()-5 {
		lib.Failf("predict", "PredictDataSize = %d, %v; the data has %d bytes", d, err, e.size()-5)
	}
}

func recdbRecords(r *lib.Run) {
	// All profiles over boundary identifiers.
	ids := []uint64{0, 1, 255, 1 << 32, 1 << 63, ^uint64(0)}
	var profiles []rrec
	total := 1
	for range ids {
		total *= 3
	}
	for k := 0; k < total; k++ {
		e := rrec{user: ids[k%len(ids)], deleted: []byte{0, 1, 255}[k%3]}
		for x, i := k, 0; i < len(ids); i++ {
			switch x % 3 {
			case 1:
				e.likes = append(e.likes, ids[i])
			case 2:
				e.dislikes = append(e.dislikes, ids[i])
			}
			x /= 3
		}
		profiles = append(profiles, e)
	}
	spare := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 50, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 195, 196, 199, 200, 201, 204, 205, 299, 300, 301, 1000}
	r.ForEach("profiles x capacities", len(profiles), func(i int) string {
		return fmt.Sprintf("profile user=%#x likes=%#x dislikes=%#x", profiles[i].user, profiles[i].likes, profiles[i].dislikes)
	}, func(i int) {
		e := profiles[i]
		size := e.size()
		checkPredict(e)
		var caps []int
		for c := 0; c < size; c++ {
			caps = append(caps, c)
		}
		for _, s := range spare {
			caps = append(caps, size+s)
		}
		for _, c := range caps {
			e.capacity = uint32(c)
			checkWrite(e, r)
			sentinel := bytes.Repeat([]byte{0xEE}, 400)
			raw := append(e.bytes(), sentinel...)
			checkRead(e, &chunked{data: raw}, "all at once")
			r.Evals.Add(2)
			if c < size {
				continue
			}
			for _, k := range []int{1, 2, 3, 5, 7, 8, 64, 99, 100, 101} {
				checkRead(e, &chunked{data: raw, next: func(int) int { return k }}, fmt.Sprintf("in pieces of %d", k))
			}
			// The file ends right behind the record, with and without a final EOF.
			checkRead(e, &chunked{data: e.bytes()}, "at the end of the file")
			checkRead(e, &chunked{data: e.bytes(), eof: true}, "at the end of the file, reported with the last bytes")
			checkRead(e, &chunked{data: e.bytes(), eof: true, next: func(int) int { return 1 }}, "byte by byte at the end of the file, reported with the last byte")
			r.Evals.Add(13)
		}
	})
	// Every position at which the reader stops once.
	r.ForEach("every split", 6*20, func(i int) string { return fmt.Sprintf("profile %d, spare %d", i/20, i%20*11) }, func(i int) {
		e := profiles[(i/20)*121+60]
		e.capacity = uint32(e.size() + i%20*11)
		n := int(e.capacity)
		for a := 1; a < n; a++ {
			for b := a; b < n; b += 1 + n/40 {
				c := &chunked{data: append(e.bytes(), 0xEE, 0xEE)}
				c.next = func(want int) int {
					at := c.read
					for _, stop := range []int{a, b} {
						if at < stop && at+want > stop {
							return stop - at
						}
					}
					return want
				}
				checkRead(e, c, fmt.Sprintf("split at %d and %d", a, b))
				r.Evals.Add(1)
			}
		}
	})
	// Larger counts around internal chunk sizes.
	counts := []int{0, 1, 29, 30, 31, 100, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 5000}
	r.ForEach("counts", len(counts)*len(counts), func(i int) string {
		return fmt.Sprintf("%d likes, %d dislikes", counts[i%len(counts)], counts[i/len(counts)])
	}, func(i int) {
		e := mkrec(77, counts[i%len(counts)], counts[i/len(counts)], 0)
		size := e.size()
		checkPredict(e)
		for _, c := range []int{0, 4, 5, size / 2, size - 8, size - 1, size, size + 1, size + 99, size + 100, size + 101, size + 1000} {
			e.capacity = uint32(c)
			checkWrite(e, r)
			raw := append(e.bytes(), 0xEE)
			checkRead(e, &chunked{data: raw}, "all at once")
			checkRead(e, &chunked{data: raw, next: func(int) int { return 13 }}, "in pieces of 13")
			checkRead(e, &chunked{data: e.bytes(), eof: true}, "at the end of the file")
			r.Evals.Add(4)
		}
	})
	// Not a profile.
	r.ForEach("not a profile", 4, func(i int) string { return fmt.Sprintf("data %d", i) }, func(i int) {
		data := []any{nil, "text", 5, domain.Profile{}}[i]
		var out bytes.Buffer
		if _, err := rproto.WriteEntry(&recdb.Entry{Capacity: 500, Data: data}, &out); err == nil || out.Len() > 0 {
			lib.Failf("type", "a record holding %T: error %v, %d bytes written", data, err, out.Len())
		}
		if _, err := rproto.PredictEntrySize(&recdb.Entry{Data: data}); err == nil {
			lib.Failf("type", "the size of a record holding %T was predicted", data)
		}
	})
	recordSizes(r)
}

// ---------------------------------------------------------------- C11

// tryFile opens, recovers and iterates the bytes as every file type.
func tryFile(b []byte) {
	mk := func() *lib.File { return lib.NewFile(&lib.Disk{Data: clone(b)}, nil) }
	used := func(what string, f func()) {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		f()
		runtime.ReadMemStats(&m1)
		if n := m1.TotalAlloc - m0.TotalAlloc; n > uint64(2<<20+4000*len(b)) {
			lib.Failf("memory", "%s allocated %d bytes for an input of %d bytes", what, n, len(b))
		}
	}
	has := func(p string) bool { return len(b) == 0 || bytes.HasPrefix(b, []byte(p[:min(len(p), len(b))])) }
	if has("RECDELTA") || len(b) < 20 {
		used("opening a change log", func() { delta.NewStorageFactory().Open(mk()) })
		used("recovering a change log", func() { delta.NewStorageFactory().Recover(mk()) })
		used("opening a change log with recovery", func() {
			st, err := delta.NewStorageFactory().OpenMaybeRecover(mk())
			if err == nil {
				st.Get(1, 1)
				st.Add('+', 1, 1)
				st.Close()
			}
		})
	}
	if has("RECIDX") || len(b) < 20 {
		used("opening an index", func() {
			f := mk()
			st, err := index.NewStorageFactory().Open(f, f)
			if err == nil {
				st.Get(1)
				st.Close()
			}
		})
	}
	if has("RECDB") || len(b) < 20 {
		used("iterating a record database", func() {
			it, err := recdb.NewIterator(mk(), rproto)
			if err != nil {
				return
			}
			steps := 0
			for it.HasNext() {
				e, err := it.Next()
				if err != nil {
					it.Next()
					it.Rewind()
					it.Next()
					return
				}
				if steps++; steps > len(b)+10 {
					lib.Failf("endless", "more records than bytes were iterated")
				}
				it.SetPrevious(e)
			}
			it.Next()
			it.Rewind()
		})
	}
}

func malformed(r *lib.Run) {
	r.Serial = true
	bases := [][]byte{
		dfile(1, 3, drec{'+', 1, 2}, drec{'-', 2, 1}, drec{'+', 1, 9}),
		dfile(0, 3, drec{'+', 1, 2}, drec{'-', 2, 1}, drec{'+', 1, 9}),
		ifile(0, ientry{1, 2}, ientry{3, 4}, ientry{5, 6}),
		rstart{recs: []rrec{mkrec(1, 2, 1, 10), mkrec(2, 0, 0, 3)}, count: 2}.bytes(),
	}
	tryAll := func(i int, b []byte) { tryFile(b) }
	r.ForEach("short inputs", 1+256+600, func(i int) string { return fmt.Sprintf("short input %d", i) }, func(i int) {
		switch {
		case i == 0:
			tryFile(nil)
		case i <= 256:
			tryFile([]byte{byte(i - 1)})
		default:
			i -= 257
			tryFile(bytes.Repeat([]byte{[]byte{0, 1, 0xff, 'R'}[i%4]}, i/4))
		}
	})
	for bi, base := range bases {
		r.ForEach(fmt.Sprintf("prefixes of file %d", bi), len(base)+1, func(i int) string { return fmt.Sprintf("%d bytes", i) }, func(i int) { tryAll(bi, base[:i]) })
		r.ForEach(fmt.Sprintf("single bytes of file %d", bi), len(base)*256, func(i int) string { return fmt.Sprintf("byte %d = %#x", i/256, i%256) }, func(i int) {
			b := clone(base)
			b[i/256] = byte(i)
			tryAll(bi, b)
			r.Nontrivial.Add(1)
		})
		// Large numbers at every offset, also in files cut behind them.
		nums := []uint32{0, 1, 2, 3, 4, 5, 6, 16, 20, 21, 22, 255, 1 << 16, 1 << 20, 1 << 24, 1<<28 - 1, 1 << 29, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		r.ForEach(fmt.Sprintf("numbers in file %d", bi), (len(base)-3)*len(nums), func(i int) string {
			return fmt.Sprintf("%d at offset %d", nums[i%len(nums)], i/len(nums))
		}, func(i int) {
			b := clone(base)
			binary.BigEndian.PutUint32(b[i/len(nums):], nums[i%len(nums)])
			tryAll(bi, b)
			tryAll(bi, b[:i/len(nums)+4])
			r.Evals.Add(1)
			r.Nontrivial.Add(2)
		})
	}
	// Records with every combination of boundary capacity and counts.
	nums := []uint32{0, 1, 4, 5, 6, 20, 21, 22, 29, 37, 45, 1 << 10, 1 << 20, 1 << 29, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	n := len(nums)
	r.ForEach("record fields", n*n*n*2, func(i int) string {
		return fmt.Sprintf("capacity %d, %d likes, %d dislikes, variant %d", nums[i/2%n], nums[i/2/n%n], nums[i/2/n/n], i%2)
	}, func(i int) {
		b := rheader(0, 1+uint32(i%2)*(1<<31))
		b = binary.BigEndian.AppendUint32(b, nums[i/2%n])
		b = append(b, 0, 1, 2, 3, 4, 5, 6, 7, 8)
		likes := nums[i/2/n%n]
		b = binary.BigEndian.AppendUint32(b, likes)
		for k := uint32(0); k < likes && k < 6; k++ {
			b = binary.BigEndian.AppendUint64(b, uint64(k))
		}
		b = binary.BigEndian.AppendUint32(b, nums[i/2/n/n])
		b = append(b, make([]byte, 40*(i%2))...)
		tryFile(b)
		r.Nontrivial.Add(1)
	})
}

// ---------------------------------------------------------------- C12

// lockFile records which bytes are touched.
type lockFile struct {
	*lib.File
	reads, writes []int64
}

func (f *lockFile) Read(b []byte) (int, error) {
	p := f.Pos
	n, err := f.File.Read(b)
	for i := 0; i < n; i++ {
		f.reads = append(f.reads, p+int64(i))
	}
	return n, err
}

func (f *lockFile) Write(b []byte) (int, error) {
	p := f.Pos
	n, err := f.File.Write(b)
	for i := 0; i < n; i++ {
		f.writes = append(f.writes, p+int64(i))
	}
	return n, err
}

type locker interface {
	WriteLocked(locked bool, file io.WriteSeeker) error
	IsLocked(file io.ReadSeeker) (bool, error)
}

func formats(r *lib.Run) {
	dp, ip, rp := delta.NewProtocol(), index.NewProtocol(), rproto
	must := func(err error) {
		if err != nil {
			lib.Failf("format", "unexpected error: %v", err)
		}
	}
	want := func(what string, got, want []byte) {
		if !bytes.Equal(got, want) {
			lib.Failf("format", "%s is encoded as % x, want % x", what, got, want)
		}
	}
	r.ForEach("signatures and empty files", 1, func(int) string { return "signatures" }, func(int) {
		var b bytes.Buffer
		must(dp.WritePrefix(&b))
		want("the change-log signature", b.Bytes(), []byte("RECDELTA"))
		must(dp.ReadPrefix(bytes.NewReader([]byte("RECDELTA"))))
		b.Reset()
		_, err := ip.WritePrefix(&b)
		must(err)
		want("the index signature", b.Bytes(), []byte("RECIDX"))
		_, err = ip.ReadPrefix(bytes.NewReader([]byte("RECIDX")))
		must(err)
		b.Reset()
		_, err = rp.WritePrefix(&b)
		must(err)
		want("the database signature", b.Bytes(), []byte("RECDB"))
		_, err = rp.ReadPrefix(bytes.NewReader([]byte("RECDB")))
		must(err)
		b.Reset()
		must(rp.Create(&b))
		want("an empty record database", b.Bytes(), rheader(0, 0))
		if it, err := recdb.NewIterator(lib.NewFile(&lib.Disk{Data: b.Bytes()}, nil), rp); err != nil || it.HasNext() {
			lib.Failf("format", "a new record database: %v", err)
		}
		d := &lib.Disk{}
		f := lib.NewFile(d, nil)
		st, err := iFactory.Open(f, f)
		must(err)
		want("a new index", d.Data, ifile(1))
		must(st.Put(0x0102030405060708, 0x1112131415161718))
		must(st.Close())
		want("a closed index", d.Data, ifile(0, ientry{0x0102030405060708, 0x1112131415161718}))
		d2 := &lib.Disk{}
		ds, err := dFactory.Open(lib.NewFile(d2, nil))
		must(err)
		want("a new change log", d2.Data, dfile(1, 0))
		ds.Add('-', 0x0102030405060708, 0x1112131415161718)
		must(ds.Close())
		want("a closed change log", d2.Data, dfile(0, 1, drec{'-', 0x0102030405060708, 0x1112131415161718}))
	})
	r.ForEach("wrong signatures", 20*256, func(i int) string { return fmt.Sprintf("byte %d = %#x", i/256, i%256) }, func(i int) {
		for k, p := range []string{"RECDELTA", "RECIDX", "RECDB"} {
			if i/256 >= len(p) {
				continue
			}
			b := []byte(p)
			b[i/256] = byte(i)
			var err error
			switch k {
			case 0:
				err = dp.ReadPrefix(bytes.NewReader(b))
			case 1:
				_, err = ip.ReadPrefix(bytes.NewReader(b))
			case 2:
				_, err = rp.ReadPrefix(bytes.NewReader(b))
			}
			if (err == nil) != (string(b) == p) {
				lib.Failf("signature", "signature %q: %v", b, err)
			}
		}
	})
	signed := [][]byte{
		dfile(0, 2, drec{'+', 1, 2}, drec{'-', 2, 1}),
		ifile(0, ientry{1, 2}, ientry{3, 4}),
		rstart{recs: []rrec{mkrec(1, 2, 1, 10), mkrec(2, 0, 0, 3)}, count: 2}.bytes(),
	}
	r.ForEach("opening with wrong signatures", 8*256, func(i int) string { return fmt.Sprintf("byte %d = %#x", i/256, i%256) }, func(i int) {
		for k, p := range []string{"RECDELTA", "RECIDX", "RECDB"} {
			if i/256 >= len(p) {
				continue
			}
			b := clone(signed[k])
			b[i/256] = byte(i)
			d := &lib.Disk{Data: clone(b)}
			f := lib.NewFile(d, nil)
			var err error
			switch k {
			case 0:
				_, err = dFactory.Open(f)
			case 1:
				_, err = iFactory.Open(f, f)
			case 2:
				_, err = recdb.NewIterator(f, rp)
			}
			if p[i/256] == byte(i) {
				if err != nil {
					lib.Failf("signature", "a file with the signature %q is refused: %v", p, err)
				}
				continue
			}
			if err == nil {
				lib.Failf("signature", "a file with the signature %q is opened as %q", b[:len(p)], p)
			}
			if !bytes.Equal(d.Data, b) {
				lib.Failf("signature", "a file with the signature %q is refused but changed", b[:len(p)])
			}
			r.Nontrivial.Add(1)
		}
	})
	// Headers: every byte value at every position of every field.
	r.ForEach("headers", 14*256*2, func(i int) string { return fmt.Sprintf("header byte %d = %#x", i/512, i/2%256) }, func(i int) {
		pos, v, fill := i/512, byte(i/2), []byte{0, 0xA5}[i%2]
		var b bytes.Buffer
		raw := bytes.Repeat([]byte{fill}, 14)
		raw[pos] = v
		if pos < 6 {
			h := delta.Header{Version: raw[0], Locked: raw[1], NumEntries: binary.BigEndian.Uint32(raw[2:])}
			must(dp.WriteHeader(&h, &b))
			want("a change-log header", b.Bytes(), raw[:6])
			var g delta.Header
			must(dp.ReadHeader(&g, &chunked{data: clone(raw[:6]), next: func(int) int { return 1 + int(v)%3 }}))
			if g != h {
				lib.Failf("format", "change-log header % x is decoded as %v, want %v", raw[:6], g, h)
			}
			b.Reset()
			ih := index.Header{Version: raw[0], Locked: raw[1], NumEntries: binary.BigEndian.Uint32(raw[2:])}
			_, err := ip.WriteHeader(&ih, &b)
			must(err)
			want("an index header", b.Bytes(), raw[:6])
			var ig index.Header
			_, err = ip.ReadHeader(&ig, &chunked{data: clone(raw[:6]), next: func(int) int { return 1 + int(v)%3 }})
			must(err)
			if ig != ih {
				lib.Failf("format", "index header % x is decoded as %v, want %v", raw[:6], ig, ih)
			}
			b.Reset()
		}
		rh := recdb.Header{Version: raw[0], EntryType: [8]byte(raw[1:9]), Locked: raw[9], NumEntries: binary.BigEndian.Uint32(raw[10:])}
		n, err := rp.WriteHeader(&rh, &b)
		must(err)
		want("a database header", b.Bytes(), raw)
		var rg recdb.Header
		m, err := rp.ReadHeader(&rg, &chunked{data: clone(raw), next: func(int) int { return 1 + int(v)%5 }})
		must(err)
		if rg != rh || n != 14 || m != 14 {
			lib.Failf("format", "database header % x is decoded as %v, want %v (%d, %d bytes)", raw, rg, rh, n, m)
		}
	})
	r.ForEach("entries", 18*256*3, func(i int) string { return fmt.Sprintf("entry byte %d = %#x", i/768, i/3%256) }, func(i int) {
		pos, v, fill := i/768, byte(i/3), []byte{0, 0xA5, 0xff}[i%3]
		raw := bytes.Repeat([]byte{fill}, 18)
		raw[pos] = v
		var b bytes.Buffer
		e := delta.Entry{Op: domain.DeltaOp(raw[0]), UserID: binary.BigEndian.Uint64(raw[1:]), ItemID: binary.BigEndian.Uint64(raw[9:])}
		must(dp.WriteEntry(&e, &b))
		w := drec{raw[0], e.UserID, e.ItemID}.bytes()
		want("a change-log record", b.Bytes(), w)
		var g delta.Entry
		must(dp.ReadEntry(&g, &chunked{data: clone(raw), next: func(int) int { return 1 + int(v)%5 }}))
		if g.Op != e.Op || g.UserID != e.UserID || g.ItemID != e.ItemID || g.Checksum != raw[17] {
			lib.Failf("format", "change-log record % x is decoded as %v", raw, g)
		}
		if dp.CalcEntryChecksum(&e) != w[17] {
			lib.Failf("checksum", "the checksum of % x is %#x", w, dp.CalcEntryChecksum(&e))
		}
		if dp.ValidateEntryChecksum(&g) != (w[17] == raw[17]) {
			lib.Failf("checksum", "record % x: ValidateEntryChecksum = %v", raw, dp.ValidateEntryChecksum(&g))
		}
		if pos >= 16 {
			return
		}
		b.Reset()
		ie := index.Entry{ID: binary.BigEndian.Uint64(raw), Index: binary.BigEndian.Uint64(raw[8:])}
		_, err := ip.WriteEntry(&ie, &b)
		must(err)
		want("an index entry", b.Bytes(), raw[:16])
		var ig index.Entry
		_, err = ip.ReadEntry(&ig, &chunked{data: clone(raw[:16]), next: func(int) int { return 1 + int(v)%5 }})
		must(err)
		if ig != ie {
			lib.Failf("format", "index entry % x is decoded as %v", raw[:16], ig)
		}
	})
	rec := mkrec(0x0102030405060708, 2, 1, 6)
	rec.deleted = 1
	base := rec.bytes()
	r.ForEach("database records", len(base)*256, func(i int) string { return fmt.Sprintf("record byte %d = %#x", i/256, i%256) }, func(i int) {
		pos, v := i/256, byte(i)
		if pos < 4 || pos >= 13 && pos < 17 || pos >= 33 && pos < 37 || pos >= rec.size() {
			return // lengths and counts: see C10
		}
		raw := clone(base)
		raw[pos] = v
		x := &recdb.Entry{}
		_, err := rp.ReadEntry(x, bytes.NewReader(raw))
		must(err)
		e := rrec{rec.capacity, raw[4], binary.BigEndian.Uint64(raw[5:]), []uint64{binary.BigEndian.Uint64(raw[17:]), binary.BigEndian.Uint64(raw[25:])}, []uint64{binary.BigEndian.Uint64(raw[37:])}}
		if msg := e.equals(x); msg != "" {
			lib.Failf("format", "database record % x is decoded as %s", raw, msg)
		}
		var b bytes.Buffer
		_, err = rp.WriteEntry(x, &b)
		must(err)
		want("a database record", b.Bytes(), raw)
	})
	// The mark.
	files := []struct {
		name string
		p    locker
		data []byte
		at   int64
	}{
		{"change log", dp, dfile(0, 2, drec{'+', 1, 2}, drec{'-', 2, 1}), dLock},
		{"index", ip, ifile(0, ientry{1, 2}), iLock},
		{"record database", rp, rstarts()[2].bytes(), rLock},
	}
	r.ForEach("in-use mark", len(files)*256*120, func(i int) string {
		f := files[i/(256*120)]
		return fmt.Sprintf("%s, mark %d, position %d", f.name, i/120%256, i%120)
	}, func(i int) {
		f := files[i/(256*120)]
		mark, pos := byte(i/120), int64(i%120)
		if pos > int64(len(f.data))+3 {
			return
		}
		data := clone(f.data)
		data[f.at] = mark
		for act := 0; act < 3; act++ {
			lf := &lockFile{File: lib.NewFile(&lib.Disk{Data: clone(data)}, nil)}
			lf.Pos = pos
			wantData := clone(data)
			switch act {
			case 0:
				got, err := f.p.IsLocked(lf)
				must(err)
				if got != (mark != 0) {
					lib.Failf("mark", "IsLocked = %v for mark %d", got, mark)
				}
			case 1:
				must(f.p.WriteLocked(true, lf))
				wantData[f.at] = 1
			case 2:
				must(f.p.WriteLocked(false, lf))
				wantData[f.at] = 0
			}
			if !bytes.Equal(lf.D.Data, wantData) {
				lib.Failf("mark", "the file is % x, want % x", lf.D.Data, wantData)
			}
			if lf.Pos != pos {
				lib.Failf("mark", "the file position moved from %d to %d", pos, lf.Pos)
			}
			for _, x := range append(lf.reads, lf.writes...) {
				if x != f.at {
					lib.Failf("mark", "byte %d was touched", x)
				}
			}
			if act == 0 && len(lf.writes) > 0 {
				lib.Failf("mark", "testing the mark writes")
			}
			r.Evals.Add(1)
		}
		r.Nontrivial.Add(1)
	})
}

var _ = errors.New

func init() {
	checks["C09"] = lib.Check{Level: "model_checking", Rule: "breadth-first over sequences of next, rewind and ten kinds of rewriting on nine databases, merged on the complete concrete state (including the read buffer); the whole file is compared byte for byte after every operation", Fn: recdbIterator}
	checks["C10"] = lib.Check{Level: "exploration", Rule: "exhaustive enumeration of profiles over six boundary identifiers, capacities and reader chunkings, compared with an independent encoder; non-trivial: the record fits", Fn: recdbRecords}
	checks["C11"] = lib.Check{Level: "exploration", Rule: "exhaustive enumeration: every prefix, every value of every byte, boundary numbers at every offset, and every combination of boundary record fields of valid files; allocation measured per call; non-trivial: a field was changed", Fn: malformed}
	checks["C12"] = lib.Check{Level: "exploration", Rule: "exhaustive enumeration: every byte value at every position of every header and record of the three formats, and every mark value x file position; non-trivial: mark operations", Fn: formats}
}
