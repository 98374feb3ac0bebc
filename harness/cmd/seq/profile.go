//go:build go1.24

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"slices"
	"sort"

	"recengine/internal/domain"
	"recengine/internal/helpers"
	"recengine/internal/zzverif/lib"
)

// ---------------------------------------------------------------- C13

type psys struct {
	p     *domain.Profile
	m     map[uint64]int
	items []uint64
}

var pKinds = []string{"Like", "Dislike", "Unlike", "Undislike", "RemoveItem"}

func (s *psys) Hash(h *lib.Hasher) { h.Any(s.p) }

func (s *psys) Do(op int) bool {
	item := s.items[op/len(pKinds)]
	switch op % len(pKinds) {
	case 0:
		s.p.Like(item)
		s.m[item] = domain.ItemLiked
	case 1:
		s.p.Dislike(item)
		s.m[item] = domain.ItemDisliked
	case 2:
		s.p.Unlike(item)
		if s.m[item] == domain.ItemLiked {
			delete(s.m, item)
		}
	case 3:
		s.p.Undislike(item)
		if s.m[item] == domain.ItemDisliked {
			delete(s.m, item)
		}
	case 4:
		s.p.RemoveItem(item)
		delete(s.m, item)
	}
	s.check()
	return true
}

func (s *psys) check() {
	probes := append([]uint64{3, 6, 1 << 62, ^uint64(0) - 1, 1<<63 + 1}, s.items...)
	for i := range s.m {
		probes = append(probes, i)
	}
	for _, i := range probes {
		if got := s.p.QualifyItem(i); got != s.m[i] {
			lib.Failf("classify", "item %#x is classified %d, want %d (likes %v, dislikes %v)", i, got, s.m[i], s.p.Likes, s.p.Dislikes)
		}
	}
	for k, l := range [][]uint64{s.p.Likes, s.p.Dislikes} {
		n := 0
		for i, x := range l {
			if i > 0 && l[i-1] >= x {
				lib.Failf("order", "list %v is not strictly ascending", l)
			}
			if s.m[x] != 1-2*k {
				lib.Failf("member", "item %#x is in list %v", x, l)
			}
		}
		for _, v := range s.m {
			if v == 1-2*k {
				n++
			}
		}
		if n != len(l) {
			lib.Failf("member", "list %v has %d items, want %d", l, len(l), n)
		}
	}
	if s.p.UserID != 42 {
		lib.Failf("user", "the user changed to %d", s.p.UserID)
	}
}

func profileOps(r *lib.Run) {
	universes := [][]uint64{
		{0, 1, 2, 1 << 63, ^uint64(0)},
		{4, 5, 7, 8, 10},
		{0, 1, 1<<63 - 1, 1 << 63, ^uint64(0) - 1},
		{100, 200, 300, 301, 302},
	}
	if r.Thorough {
		universes = append(universes, []uint64{0, 1, 2, 3, 1 << 63, ^uint64(0)}, []uint64{10, 20, 21, 22, 30, 40}, []uint64{1, 2, 3, 4, 5, 6, 7})
	}
	for u, items := range universes {
		sp := lib.Space{Name: fmt.Sprintf("items %#x", items), Starts: []string{"empty", "nil lists", "populated"}, Depth: 40}
		for _, i := range items {
			for _, k := range pKinds {
				sp.Ops = append(sp.Ops, fmt.Sprintf("%s(%#x)", k, i))
			}
		}
		sp.New = func(start int) lib.System {
			s := &psys{p: domain.NewProfile(42), m: map[uint64]int{}, items: items}
			switch start {
			case 1:
				s.p = &domain.Profile{UserID: 42}
			case 2:
				// More items around those operated on.
				for _, i := range []uint64{3, 6, 9, 250, 1 << 40, 1<<63 + 5} {
					s.p.Likes = append(s.p.Likes, i)
					s.m[i] = domain.ItemLiked
				}
				if u%2 == 1 {
					for _, i := range []uint64{2, 11, 299, 1 << 41} {
						s.p.Dislikes = append(s.p.Dislikes, i)
						s.m[i] = domain.ItemDisliked
					}
				}
			}
			return s
		}
		r.BFS(sp)
	}
	profileSizes(r)
}

// ---------------------------------------------------------------- C14

func wantSimilarity(a, b *domain.Profile, f float32) float64 {
	ratio := func(x, y []uint64) (float64, float64) {
		set := map[uint64]bool{}
		both := 0
		for _, v := range x {
			set[v] = true
		}
		n := len(set)
		for _, v := range y {
			if set[v] {
				both++
			} else {
				n++
			}
		}
		if n == 0 {
			return 0, 0
		}
		return float64(both) / float64(n), float64(n)
	}
	ls, lw := ratio(a.Likes, b.Likes)
	ds, dw := ratio(a.Dislikes, b.Dislikes)
	dw *= float64(f)
	if lw+dw == 0 {
		return 0
	}
	return 100 * (ls*lw + ds*dw) / (lw + dw)
}

func checkSimilarity(a, b *domain.Profile, f float32) {
	ca, cb := fmt.Sprint(a.Likes, a.Dislikes), fmt.Sprint(b.Likes, b.Dislikes)
	got := a.ComputeSimilarity(*b, f)
	back := b.ComputeSimilarity(*a, f)
	want := wantSimilarity(a, b, f)
	desc := func() string {
		return fmt.Sprintf("likes %v dislikes %v with likes %v dislikes %v, factor %v", a.Likes, a.Dislikes, b.Likes, b.Dislikes, f)
	}
	if !(got >= 0 && got <= 100) {
		lib.Failf("range", "similarity of %s is %v", desc(), got)
	}
	if math.Abs(float64(got)-want) > 0.001 {
		lib.Failf("value", "similarity of %s is %v, want %v", desc(), got, want)
	}
	if math.Abs(float64(got)-float64(back)) > 0.0001 {
		lib.Failf("symmetry", "similarity of %s is %v, the other way round %v", desc(), got, back)
	}
	if fmt.Sprint(a.Likes, a.Dislikes) != ca || fmt.Sprint(b.Likes, b.Dislikes) != cb {
		lib.Failf("changed", "computing the similarity of %s changed a profile", desc())
	}
}

func similarity(r *lib.Run) {
	factors := []float32{0, 1e-6, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 0.9, 1}
	ids := []uint64{0, 1, 7, 1 << 32, 1 << 63, ^uint64(0)}
	nids := 5
	if r.Thorough {
		nids = 6
	}
	ids = append(ids[:nids-1:nids-1], ^uint64(0))
	total := 1
	for range ids {
		total *= 3
	}
	mk := func(k int) *domain.Profile {
		p := domain.NewProfile(1)
		for _, i := range ids {
			switch k % 3 {
			case 1:
				p.Likes = append(p.Likes, i)
			case 2:
				p.Dislikes = append(p.Dislikes, i)
			}
			k /= 3
		}
		return p
	}
	r.ForEach("all pairs of profiles", total*total, func(i int) string { return fmt.Sprintf("profiles %d and %d", i/total, i%total) }, func(i int) {
		a, b := mk(i/total), mk(i%total)
		for _, f := range factors {
			checkSimilarity(a, b, f)
		}
		r.Evals.Add(int64(len(factors)))
		r.Nontrivial.Add(1)
	})
	// Every size and overlap of larger lists.
	const max = 9
	r.ForEach("sizes and overlaps", max*max*max*max, func(i int) string { return fmt.Sprint(i) }, func(i int) {
		la, lb, da, db := i%max, i/max%max, i/max/max%max, i/max/max/max
		for lo := 0; lo <= min(la, lb); lo++ {
			for do := 0; do <= min(da, db); do++ {
				a, b := domain.NewProfile(1), domain.NewProfile(2)
				a.Likes, b.Likes = seqIDs(10, la), seqIDs(10+uint64(3*(la-lo)), lb)
				a.Dislikes, b.Dislikes = seqIDs(1011, da), seqIDs(1011+uint64(3*(da-do)), db)
				for _, f := range []float32{0, 0.05, 0.3, 0.5, 1} {
					checkSimilarity(a, b, f)
				}
				r.Evals.Add(5)
			}
		}
		r.Nontrivial.Add(1)
	})
	// Every placement of a list in another.
	r.ForEach("subsets", 1<<9, func(i int) string { return fmt.Sprintf("subset %09b", i) }, func(i int) {
		a := domain.NewProfile(1)
		for k := 0; k < 9; k++ {
			if i>>k&1 == 1 {
				a.Likes = append(a.Likes, uint64(k*k+k))
			}
		}
		for j := 0; j < 1<<9; j++ {
			b := domain.NewProfile(2)
			for k := 0; k < 9; k++ {
				if j>>k&1 == 1 {
					b.Likes = append(b.Likes, uint64(k*k+k))
				}
			}
			checkSimilarity(a, b, 0.5)
			checkSimilarity(&domain.Profile{Dislikes: a.Likes}, &domain.Profile{Dislikes: b.Likes}, 0.5)
			r.Evals.Add(2)
		}
	})
	similaritySizes(r)
}

// ---------------------------------------------------------------- C15

func checkLists[T helpers.Numeric](r *lib.Run, name string, universe []T, needles []T, maxLen int) {
	var lists [][]T
	var gen func(l []T, from int)
	gen = func(l []T, from int) {
		lists = append(lists, append([]T{}, l...))
		if len(l) == maxLen {
			return
		}
		for i := from; i < len(universe); i++ {
			gen(append(l, universe[i]), i)
		}
	}
	gen(nil, 0)
	sorted := func(l []T) bool { return slices.IsSorted(l) }
	dist := func(a, b T) T {
		if a < b {
			return b - a
		}
		return a - b
	}
	r.ForEach(name, len(lists), func(i int) string { return fmt.Sprintf("list %v", lists[i]) }, func(i int) {
		list := lists[i]
		mk := func(spare int) []T {
			l := make([]T, len(list), len(list)+spare)
			copy(l, list)
			full := l[:cap(l)]
			for k := len(list); k < len(full); k++ {
				full[k] = universe[len(universe)-1]
			}
			return l
		}
		same := func(l []T, what string) {
			if !slices.Equal(l, list) {
				lib.Failf("changed", "%s changed the list to %v", what, l)
			}
		}
		for _, x := range needles {
			count := 0
			for _, v := range list {
				if v == x {
					count++
				}
			}
			l := mk(0)
			for _, f := range []struct {
				name string
				fn   func([]T, T) int
			}{{"BinaryIndexOf", helpers.BinaryIndexOf[T]}, {"IndexOf", helpers.IndexOf[T]}} {
				k := f.fn(l, x)
				if (k >= 0) != (count > 0) || k >= len(list) || k >= 0 && list[k] != x {
					lib.Failf("search", "%s(%v, %v) = %d", f.name, list, x, k)
				}
				same(l, f.name)
			}
			k := helpers.BinaryIndexOfClosest(l, x)
			if len(list) == 0 {
				if k >= 0 {
					lib.Failf("closest", "BinaryIndexOfClosest([], %v) = %d", x, k)
				}
			} else {
				if k < 0 || k >= len(list) {
					lib.Failf("closest", "BinaryIndexOfClosest(%v, %v) = %d", list, x, k)
				}
				for _, v := range list {
					if dist(v, x) < dist(list[k], x) {
						lib.Failf("closest", "BinaryIndexOfClosest(%v, %v) = %d, but %v is closer", list, x, k, v)
					}
				}
			}
			same(l, "BinaryIndexOfClosest")
			for _, spare := range []int{0, 1, 3} {
				want := append(append([]T{}, list...), x)
				slices.Sort(want)
				if got := helpers.InsertSavingOrder(mk(spare), x); !slices.Equal(got, want) {
					lib.Failf("insert", "InsertSavingOrder(%v, %v) = %v", list, x, got)
				}
				if count > 0 {
					want = list
				}
				got := helpers.PutSavingOrder(mk(spare), x)
				if !slices.Equal(got, want) || !sorted(got) {
					lib.Failf("put", "PutSavingOrder(%v, %v) = %v", list, x, got)
				}
				for at := 0; at <= len(list); at++ {
					want := append(append(append([]T{}, list[:at]...), x), list[at:]...)
					if got := helpers.Insert(mk(spare), at, x); !slices.Equal(got, want) {
						lib.Failf("insert", "Insert(%v, %d, %v) = %v", list, at, x, got)
					}
				}
			}
			r.Evals.Add(1)
			r.Nontrivial.Add(1)
		}
		for at := range list {
			for _, spare := range []int{0, 2} {
				want := append(append([]T{}, list[:at]...), list[at+1:]...)
				if got := helpers.RemoveSavingOrder(mk(spare), at); !slices.Equal(got, want) {
					lib.Failf("remove", "RemoveSavingOrder(%v, %d) = %v", list, at, got)
				}
				got := append([]T{}, helpers.Remove(mk(spare), at)...)
				slices.Sort(got)
				if !slices.Equal(got, want) {
					lib.Failf("remove", "Remove(%v, %d) keeps %v", list, at, got)
				}
			}
		}
	})
}

func lists(r *lib.Run) {
	n := 8
	if r.Thorough {
		n = 11
	}
	max := ^uint64(0)
	checkLists(r, "uint64 lists", []uint64{0, 1, 2, 5, 1 << 63, max - 1, max}, []uint64{0, 1, 2, 3, 4, 5, 6, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, max - 2, max - 1, max}, n)
	checkLists(r, "int lists", []int{-9, -3, -1, 0, 2, 3, 8}, []int{-20, -9, -8, -6, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 9}, n)
	checkLists(r, "uint8 lists", []uint8{0, 1, 127, 128, 254, 255}, []uint8{0, 1, 2, 63, 64, 126, 127, 128, 129, 191, 253, 254, 255}, n)
	checkLists(r, "int8 lists", []int8{-60, -1, 0, 1, 60}, []int8{-60, -30, -1, 0, 1, 30, 31, 60}, n)
	checkLists(r, "float64 lists", []float64{-1.5, 0, 0.25, 1, 3}, []float64{-2, -1.5, -0.7, 0, 0.1, 0.25, 0.5, 1, 2, 2.5, 3, 4}, n)
	// Longer lists without repetition: every subset.
	r.ForEach("long lists", 1<<11, func(i int) string { return fmt.Sprintf("subset %011b", i) }, func(i int) {
		var l []uint64
		for k := 0; k < 11; k++ {
			if i>>k&1 == 1 {
				l = append(l, uint64(k*k+2))
			}
		}
		for x := uint64(0); x < 110; x++ {
			at, found := slices.BinarySearch(l, x)
			if k := helpers.BinaryIndexOf(l, x); found != (k >= 0) || found && k != at {
				lib.Failf("search", "BinaryIndexOf(%v, %d) = %d", l, x, k)
			}
			want := slices.Insert(slices.Clone(l), at, x)
			if got := helpers.InsertSavingOrder(slices.Clone(l), x); !slices.Equal(got, want) {
				lib.Failf("insert", "InsertSavingOrder(%v, %d) = %v", l, x, got)
			}
			if found {
				want = l
			}
			if got := helpers.PutSavingOrder(slices.Clone(l), x); !slices.Equal(got, want) {
				lib.Failf("put", "PutSavingOrder(%v, %d) = %v", l, x, got)
			}
			r.Evals.Add(1)
		}
	})
	words := []string{"", "a", "aa", "ab", "b", "ba", "\xff"}
	r.ForEach("string lists", 1<<len(words), func(i int) string { return fmt.Sprintf("subset %07b", i) }, func(i int) {
		var l []string
		for k, w := range words {
			if i>>k&1 == 1 {
				l = append(l, w)
			}
		}
		for _, w := range append([]string{"aaa", "b0", "c"}, words...) {
			at := sort.SearchStrings(l, w)
			found := at < len(l) && l[at] == w
			if k := helpers.BinaryIndexOf(l, w); found != (k >= 0) || found && k != at {
				lib.Failf("search", "BinaryIndexOf(%q, %q) = %d", l, w, k)
			}
		}
	})
	listSizes(r)
}

// ---------------------------------------------------------------- C28

var errStream = errors.New("stream failed")

func streams(r *lib.Run) {
	sizes := []int{0, 1, 2, 3, 50, 98, 99, 100, 101, 102, 150, 199, 200, 201, 202, 299, 300, 301, 350}
	if r.Thorough {
		sizes = append(sizes, 399, 400, 401, 1000, 4096, 10000)
	}
	deviations := 4
	if r.Thorough {
		deviations = 6
	}
	// An answer different from a complete transfer is a deviation.
	amounts := func(n int) []int {
		out := []int{n}
		for _, k := range []int{0, 1, n / 2, n - 1} {
			if k >= 0 && k < n && !slices.Contains(out, k) {
				out = append(out, k)
			}
		}
		return out
	}
	r.Enumerate("writing zeros", func(c *lib.C) {
		size := sizes[c.Choose(len(sizes))]
		moved, dev, failed := 0, 0, false
		w := writerFunc(func(b []byte) (int, error) {
			for _, x := range b {
				if x != 0 {
					lib.Failf("zeros", "a byte %#x was written", x)
				}
			}
			if failed {
				lib.Failf("after-error", "another write after a failed one")
			}
			n := len(b)
			if dev < deviations {
				am := amounts(n)
				// Complete; partial without an error; partial with an error.
				k := c.Choose(2*len(am) - 1)
				if k > 0 {
					dev++
					n = am[(k+1)/2]
					c.Note("write of %d bytes takes %d", len(b), n)
					if k%2 == 0 || n == 0 {
						failed = true
					}
				}
			}
			moved += n
			if moved > size {
				lib.Failf("amount", "%d bytes written of %d", moved, size)
			}
			if failed {
				return n, errStream
			}
			return n, nil
		})
		n, err := helpers.WriteZeros(size, w)
		c.Note("WriteZeros(%d) = %d, %v", size, n, err)
		if n != moved {
			lib.Failf("count", "WriteZeros(%d) reports %d bytes, %d were written", size, n, moved)
		}
		if (err != nil) != (moved < size) {
			lib.Failf("error", "WriteZeros(%d) wrote %d bytes and returned %v", size, moved, err)
		}
		if dev > 0 {
			c.Interesting()
		}
	})
	r.Enumerate("skipping", func(c *lib.C) {
		size := sizes[c.Choose(len(sizes))]
		extra := []int{0, 1, 500}[c.Choose(3)]
		short := c.Choose(4) // the stream is shorter than requested
		avail := size + extra
		if short > 0 {
			avail = []int{0, 0, size - 1, size / 2}[short]
			if avail < 0 || avail >= size || extra > 0 {
				lib.Skip()
			}
		}
		moved, dev, over := 0, 0, false
		rd := readerFunc(func(b []byte) (int, error) {
			if over {
				lib.Failf("after-error", "another read after an error")
			}
			n := min(len(b), avail-moved)
			if n == 0 && len(b) > 0 {
				over = true
				return 0, io.EOF
			}
			var err error
			if dev < deviations {
				am := amounts(n)
				// amount x (no error, error, EOF with the last bytes)
				k := c.Choose(len(am) * 2)
				n = am[k/2]
				if k > 0 {
					dev++
				}
				if k%2 == 1 {
					err = errStream
					if moved+n == avail && c.Choose(2) == 1 {
						err = io.EOF
					}
					over = true
				}
				if k > 0 {
					c.Note("read of %d bytes returns %d, %v", len(b), n, err)
				}
			}
			moved += n
			if moved > size {
				lib.Failf("amount", "%d bytes consumed of %d", moved, size)
			}
			return n, err
		})
		n, err := helpers.SkipReading(size, rd)
		c.Note("SkipReading(%d) = %d, %v", size, n, err)
		if n != moved {
			lib.Failf("count", "SkipReading(%d) reports %d bytes, %d were consumed", size, n, moved)
		}
		if (err != nil) != (moved < size) {
			lib.Failf("error", "SkipReading(%d) consumed %d bytes and returned %v", size, moved, err)
		}
		if dev > 0 || short > 0 {
			c.Interesting()
		}
	})
	streamSizes(r)
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(b []byte) (int, error) { return f(b) }

// ---------------------------------------------------------------- C29

type fop29 struct {
	kind   string
	n      int64
	whence int
}

func (o fop29) String() string {
	if o.kind == "seek" {
		return fmt.Sprintf("seek(%d, %d)", o.n, o.whence)
	}
	return fmt.Sprintf("%s(%d)", o.kind, o.n)
}

// filemodel is the documented behaviour, written independently.
type filemodel struct {
	data   []byte
	pos    int64
	closed bool
}

type fres struct {
	n    int64
	err  bool
	eof  bool
	data string
}

func (m *filemodel) do(o fop29) fres {
	if m.closed && o.kind != "close" {
		return fres{err: true}
	}
	switch o.kind {
	case "read":
		if o.n == 0 {
			return fres{}
		}
		if m.pos >= int64(len(m.data)) {
			return fres{err: true, eof: true}
		}
		b := m.data[m.pos:min(m.pos+o.n, int64(len(m.data)))]
		m.pos += int64(len(b))
		return fres{n: int64(len(b)), data: string(b)}
	case "write":
		b := pattern(o.n)
		if o.n > 0 {
			if grow := m.pos + o.n - int64(len(m.data)); grow > 0 {
				m.data = append(m.data, make([]byte, grow)...)
			}
			copy(m.data[m.pos:], b)
			m.pos += o.n
		}
		return fres{n: o.n}
	case "seek":
		p := o.n
		switch o.whence {
		case 0:
		case 1:
			p += m.pos
		case 2:
			p += int64(len(m.data))
		default:
			return fres{err: true}
		}
		if p < 0 || p > int64(len(m.data)) {
			return fres{err: true}
		}
		m.pos = p
		return fres{n: p}
	case "truncate":
		if o.n < 0 {
			return fres{err: true}
		}
		if grow := o.n - int64(len(m.data)); grow > 0 {
			m.data = append(m.data, make([]byte, grow)...)
		}
		m.data = m.data[:o.n:o.n]
		if m.pos > o.n {
			m.pos = o.n
		}
	case "close":
		m.closed = true
	}
	return fres{}
}

var patterns = bytes.Repeat([]byte("abcdefghijk"), 7000)

func pattern(n int64) []byte { return patterns[:n:n] }

type realish interface {
	io.ReadWriteSeeker
	Truncate(int64) error
	Close() error
}

func doFile(f realish, o fop29) fres {
	switch o.kind {
	case "read":
		b := make([]byte, o.n)
		n, err := f.Read(b)
		return fres{n: int64(n), err: err != nil, eof: err == io.EOF, data: string(b[:max(n, 0)])}
	case "write":
		b := pattern(o.n)
		n, err := f.Write(b)
		return fres{n: int64(n), err: err != nil}
	case "seek":
		n, err := f.Seek(o.n, o.whence)
		if err != nil {
			n = 0
		}
		return fres{n: n, err: err != nil}
	case "truncate":
		return fres{err: f.Truncate(o.n) != nil}
	default:
		f.Close()
		return fres{}
	}
}

type fsys struct {
	fb  *helpers.FileBuffer
	m   *filemodel
	ops []fop29
}

func (s *fsys) Hash(h *lib.Hasher) {
	h.Any(s.fb)
	h.Bytes(s.m.data)
	h.Int(s.m.pos)
	h.Any(s.m.closed)
}

func (s *fsys) Do(op int) bool {
	o := s.ops[op]
	want := s.m.do(o)
	got := doFile(s.fb, o)
	if want.err && !want.eof {
		got.data, got.eof = "", false
	}
	if got != want {
		lib.Failf("result", "%v returned %+v, want %+v", o, got, want)
	}
	if !bytes.Equal(s.fb.Bytes(), s.m.data) || s.fb.Len() != len(s.m.data) {
		lib.Failf("content", "after %v the content is %q (length %d), want %q", o, s.fb.Bytes(), s.fb.Len(), s.m.data)
	}
	if !s.m.closed {
		if p, err := s.fb.Seek(0, io.SeekCurrent); err != nil || p != s.m.pos {
			lib.Failf("position", "after %v the position is %d (%v), want %d", o, p, err, s.m.pos)
		}
	}
	return true
}

func fileBuffer(r *lib.Run) {
	var ops []fop29
	for _, n := range []int64{0, 1, 2, 5, 9} {
		ops = append(ops, fop29{"read", n, 0}, fop29{"write", n, 0})
	}
	for _, n := range []int64{-1, 0, 1, 3, 5, 8} {
		ops = append(ops, fop29{"truncate", n, 0}, fop29{"seek", n, 0})
	}
	for _, n := range []int64{-3, -1, 0, 1, 2} {
		ops = append(ops, fop29{"seek", n, 1}, fop29{"seek", n, 2})
	}
	ops = append(ops, fop29{"seek", 0, 99}, fop29{"seek", 0, -1}, fop29{"close", 0, 0})
	starts := []struct {
		name string
		mk   func() []byte
	}{
		{"nil", func() []byte { return nil }},
		{"empty", func() []byte { return []byte{} }},
		{"5 bytes", func() []byte { return []byte("12345") }},
		{"3 bytes with spare capacity", func() []byte { return []byte("123xxxxxxx")[:3] }},
	}
	depth := 6
	if r.Thorough {
		depth = 8
	}
	sp := lib.Space{Name: "operation sequences", Depth: depth}
	for _, o := range ops {
		sp.Ops = append(sp.Ops, o.String())
	}
	for _, s := range starts {
		sp.Starts = append(sp.Starts, s.name)
	}
	sp.New = func(i int) lib.System {
		return &fsys{helpers.NewFileBuffer(starts[i].mk()), &filemodel{data: clone(starts[i].mk())}, ops}
	}
	r.BFS(sp)
	// The model itself against real files, except where it is documented to differ.
	rdepth := 3
	if r.Thorough {
		rdepth = 4
	}
	total := len(starts)
	for i := 0; i < rdepth; i++ {
		total *= len(ops)
	}
	dir := os.Getenv("VERIF_SCRATCH")
	r.ForEach("model against real files", total/len(ops), func(i int) string { return fmt.Sprint(i) }, func(i int) {
		st := starts[i%len(starts)]
		x := i / len(starts)
		f, err := os.CreateTemp(dir, "c29")
		if err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		path := f.Name()
		defer os.Remove(path)
		defer f.Close()
		for last := range ops {
			f.Close()
			os.WriteFile(path, st.mk(), 0600)
			if f, err = os.OpenFile(path, os.O_RDWR, 0); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
			m := &filemodel{data: clone(st.mk())}
			y := x
			for k := 0; k < rdepth; k++ {
				o := ops[last]
				if k < rdepth-1 {
					o = ops[y%len(ops)]
					y /= len(ops)
				}
				oldLen, oldPos := int64(len(m.data)), m.pos
				want := m.do(o)
				if o.kind == "seek" && want.err && o.whence >= 0 && o.whence <= 2 {
					break // documented difference
				}
				if o.kind == "truncate" && oldPos > o.n && o.n >= 0 && o.n < oldLen {
					break
				}
				if m.closed && o.kind != "close" && o.n == 0 {
					break
				}
				got := doFile(f, o)
				if want.err && !want.eof {
					got.n, got.data, got.eof = 0, "", false
				}
				if got != want {
					panic(fmt.Sprintf("VERIF-INTERNAL: the model disagrees with a real file: %v returned %+v, model %+v", o, got, want))
				}
				data, _ := os.ReadFile(path)
				if !bytes.Equal(data, m.data) {
					panic("VERIF-INTERNAL: the model disagrees with a real file")
				}
			}
			r.Evals.Add(1)
		}
	})
	fileSizes(r)
}

var _ = filepath.Join

func init() {
	checks["C13"] = lib.Check{Level: "model_checking", Rule: "breadth-first to the fixpoint over all operations on sets of five items (boundary identifiers and neighbours), merged on the complete concrete state, compared with a map", Fn: profileOps}
	checks["C14"] = lib.Check{Level: "exploration", Rule: "exhaustive enumeration of pairs of profiles over a small universe, of all sizes and overlaps up to eight and of all pairs of subsets of nine items x dislike factors, compared with the formula in float64; non-trivial: distinct pairs", Assumptions: []string{"compared with a tolerance of 0.001 on the 0..100 scale"}, Fn: similarity}
	checks["C15"] = lib.Check{Level: "exploration", Rule: "exhaustive enumeration of sorted lists (with repetitions) over small universes with extremes, for six element types, x all needles, positions and spare capacities; non-trivial: all", Fn: lists}
	checks["C28"] = lib.Check{Level: "exploration", Rule: "every tree of stream answers (partial transfers, failures, ends) with up to four deviations from complete transfers, for all sizes around the chunk size; non-trivial: at least one deviation", Fn: streams}
	checks["C29"] = lib.Check{Level: "model_checking", Rule: "breadth-first over operation sequences of the real in-memory file, merged on the complete concrete state, compared with a model that is itself replayed against real files", Assumptions: []string{"positions and lengths are small"}, Fn: fileBuffer}
}
