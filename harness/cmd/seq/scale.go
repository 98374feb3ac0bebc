//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"slices"

	"recengine/internal/domain"
	"recengine/internal/helpers"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
)

// The parts of this file go through sizes: all small ones and those around
// powers of two, where counters, buffers and chunks of any width end.

// upTo returns all sizes up to n and the larger ones around 512..4096, and, if
// huge, around 65536.
func upTo(n int, huge bool) (out []int) {
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	at := []int{256, 512, 1024, 2048, 4096}
	if huge {
		at = append(at, 32768, 65536)
	}
	for _, p := range at {
		for _, d := range []int{-1, 0, 1} {
			if p+d > n {
				out = append(out, p+d)
			}
		}
	}
	if huge {
		out = append(out, 70000)
	}
	return
}

// spread returns some positions of 0..n-1: all of a short range, otherwise the
// ends and those around powers of two.
func spread(n, all int) (out []int) {
	if n <= all {
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return
	}
	seen := map[int]bool{}
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, d := range []int{-2, -1, 0, 1} {
		for p := 1; p <= n; p *= 2 {
			add(p + d)
			add(n - p + d)
		}
		add(n/2 + d)
		add(n/3 + d)
	}
	add(n - 1)
	slices.Sort(out)
	return
}

// ---------------------------------------------------------------- C01, C02

var logShapes = []struct {
	name string
	f    func(k int) pair
}{
	{"one operation per user", func(k int) pair { return pair{uint64(k) * 257, 9} }},
	{"one user", func(k int) pair { return pair{dU1, uint64(k)*257 + 1} }},
	{"7 users", func(k int) pair { return pair{uint64(k%7) << 33, uint64(k/7)*4099 + 3} }},
	{"256 users", func(k int) pair { return pair{uint64(k % 256), uint64(k / 256)} }},
}

func logSizes(r *lib.Run, prop string) {
	type inst struct{ n, shape int }
	var insts []inst
	for _, n := range upTo(300, true) {
		for sh := range logShapes {
			if n > 5000 && (sh == 1 || sh == 2) && !r.Thorough {
				continue
			}
			insts = append(insts, inst{n, sh})
		}
	}
	r.ForEach("log sizes", len(insts), func(i int) string {
		return fmt.Sprintf("%d operations, %s", insts[i].n, logShapes[insts[i].shape].name)
	}, func(i int) {
		n, f := insts[i].n, logShapes[insts[i].shape].f
		s := newDSys(prop, nil, nil)
		for _, k := range spread(n, 300) {
			s.probes = append(s.probes, f(k))
		}
		do := func(o dop) {
			err, ok := s.call(o)
			if !ok || err != nil {
				lib.Failf("unexpected-error", "%s of %d operations failed: %v", o.kind, n, err)
			}
			s.apply(o)
		}
		check := func(kind string) {
			s.check(dop{kind: kind})
		}
		add := func(op byte, from, to int) {
			for k := from; k < to; k++ {
				do(dop{kind: "add", op: op, p: f(k)})
			}
			check("add")
		}
		for _, kind := range []string{"open", "openrec"} {
			do(dop{kind: kind})
			check(kind)
			add('+', 0, n/2)
			do(dop{kind: "flush"})
			check("flush")
			add('-', n/3, n)
			do(dop{kind: "close"})
			check("close")
		}
		// The log was not closed: recovery reads it.
		do(dop{kind: "open"})
		add('+', 0, n)
		do(dop{kind: "flush"})
		do(dop{kind: "kill"})
		do(dop{kind: "openrec"})
		check("openrec")
		do(dop{kind: "close"})
		check("close")
		r.Evals.Add(1)
	})
}

// ---------------------------------------------------------------- C04

func recoverSizes(r *lib.Run) {
	var sizes []int
	for _, n := range upTo(300, true) {
		sizes = append(sizes, n)
	}
	for _, chunk := range []int{32 << 10, 64 << 10} { // copying chunks
		n := (chunk - dHead) / dRec
		sizes = append(sizes, n-1, n, n+1, n+2)
	}
	const kinds = 5
	r.ForEach("log sizes", len(sizes)*kinds, func(i int) string {
		return fmt.Sprintf("%d records, damage %d", sizes[i/kinds], i%kinds)
	}, func(i int) {
		n := sizes[i/kinds]
		var recs []drec
		for k := 0; k < n; k++ {
			recs = append(recs, drec{"+-"[k/3%2], uint64(k % 5000), uint64(k)})
		}
		b := dfile(1, uint32(n), recs...)
		at := -1
		switch i % kinds {
		case 1:
			at = 0
		case 2:
			at = n - 1
		case 3:
			at = n / 2
		case 4:
			// More was announced than there is.
			b = dfile(1, uint32(n)+65536, recs...)
		}
		if at >= 0 && at < n {
			b[dHead+dRec*at+11] ^= 0x10
		}
		checkRecover(b)
		r.Evals.Add(1)
	})
}

// ---------------------------------------------------------------- C06

func indexSizes(r *lib.Run) {
	sizes := upTo(300, true)
	r.ForEach("index sizes", len(sizes)*2, func(i int) string {
		return fmt.Sprintf("%d entries, identifiers %d apart", sizes[i/2], []int{1, 65537}[i%2])
	}, func(i int) {
		n, step := sizes[i/2], []uint64{1, 65537}[i%2]
		disk := &lib.Disk{}
		m := map[uint64]uint64{}
		var probes []uint64
		for k := 0; k < n+3; k++ {
			probes = append(probes, uint64(k)*step)
		}
		open := func(what string) domain.IndexStorage {
			st, err := iFactory.Open(lib.NewFile(disk, nil), nil)
			if err != nil {
				lib.Failf("open", "%s: opening an index of %d entries failed: %v", what, len(m), err)
			}
			if msg := sameMap(st, m, probes); msg != "" {
				lib.Failf("get", "%s, %d entries: %s", what, len(m), msg)
			}
			return st
		}
		end := func(st domain.IndexStorage) {
			if msg := sameMap(st, m, probes); msg != "" {
				lib.Failf("get", "before closing, %d entries: %s", len(m), msg)
			}
			if err := st.Close(); err != nil {
				lib.Failf("close", "closing an index of %d entries failed: %v", len(m), err)
			}
		}
		st := open("created")
		for k := 0; k < n; k++ {
			st.Put(uint64(k)*step, uint64(n-k)*3)
			m[uint64(k)*step] = uint64(n-k) * 3
		}
		end(st)
		st = open("reopened")
		end(st)
		st = open("reopened unchanged")
		for k := 0; k < n; k += 3 {
			st.Remove(uint64(k) * step)
			delete(m, uint64(k)*step)
		}
		end(st)
		st = open("reopened after removing")
		for k := 0; k < n; k += 2 {
			st.Put(uint64(k)*step, uint64(k))
			m[uint64(k)*step] = uint64(k)
		}
		end(st)
		st = open("reopened after putting")
		end(st)
		r.Evals.Add(1)
	})
}

// ---------------------------------------------------------------- C09

func databaseSizes(r *lib.Run) {
	type inst struct{ n, k int }
	var insts []inst
	for _, n := range []int{50, 141, 142, 143, 200, 284, 300} {
		for k := 0; k < n; k++ {
			insts = append(insts, inst{n, k})
		}
	}
	r.ForEach("database sizes", len(insts), func(i int) string {
		return fmt.Sprintf("%d records, record %d rewritten", insts[i].n, insts[i].k)
	}, func(i int) {
		n, k := insts[i].n, insts[i].k
		st := rstart{"", nil, n, nil}
		for u := 0; u < n; u++ {
			st.recs = append(st.recs, mkrec(uint64(u), 0, u%2, 0))
		}
		s := rspace("", []rstart{st}, 1).New(0).(*rsys)
		for j := 0; j <= k; j++ {
			s.Do(0)
		}
		s.Do(2)
		for j := k + 1; j < n; j++ {
			s.Do(0)
		}
		s.Do(0)
		s.Do(1)
		for j := 0; j < n; j++ {
			s.Do(0)
		}
		r.Evals.Add(1)
		r.Nontrivial.Add(1)
	})
	// Numbers of records that need more than one and two bytes.
	sizes := []int{255, 256, 257, 65535, 65536, 65537, 70000}
	r.ForEach("many records", len(sizes), func(i int) string { return fmt.Sprintf("%d records", sizes[i]) }, func(i int) {
		n := sizes[i]
		b := rheader(0, uint32(n))
		var offs []int
		recs := make([]rrec, n)
		for u := range recs {
			recs[u] = mkrec(uint64(u), u%2, 0, u%3)
			offs = append(offs, len(b))
			b = append(b, recs[u].bytes()...)
		}
		disk := &lib.Disk{Data: clone(b)}
		it, err := recdb.NewIterator(lib.NewFile(disk, nil), recdb.NewProtocol(recdb.NewLikeProtocol()))
		if err != nil {
			lib.Failf("open", "NewIterator failed: %v", err)
		}
		rewrite := map[int]bool{}
		for _, k := range spread(n, 300) {
			rewrite[k] = true
		}
		for round := 0; round < 2; round++ {
			for u := 0; u < n; u++ {
				if !it.HasNext() {
					lib.Failf("hasnext", "no record after %d of %d", u, n)
				}
				e, err := it.Next()
				if err != nil {
					lib.Failf("next", "Next failed on record %d of %d: %v", u, n, err)
				}
				if msg := recs[u].equals(e); msg != "" {
					lib.Failf("entry", "Next returned record %d of %d as %s", u, n, msg)
				}
				if rewrite[u] {
					recs[u].user += 1 << 40
					recs[u].deleted = 1
					if err := it.SetPrevious(recs[u].entry()); err != nil {
						lib.Failf("setprevious", "rewriting record %d of %d failed: %v", u, n, err)
					}
					copy(b[offs[u]:], recs[u].bytes())
				}
			}
			if it.HasNext() {
				lib.Failf("hasnext", "more than %d records", n)
			}
			if !bytes.Equal(b, disk.Data) {
				lib.Failf("bytes", "the file of %d records differs from the expected one", n)
			}
			if err := it.Rewind(); err != nil {
				lib.Failf("rewind", "Rewind failed: %v", err)
			}
		}
		r.Evals.Add(1)
	})
}

// ---------------------------------------------------------------- C10

func recordSizes(r *lib.Run) {
	sizes := upTo(300, true)
	r.ForEach("record sizes", len(sizes)*3, func(i int) string { return fmt.Sprintf("%d items, split %d", sizes[i/3], i%3) }, func(i int) {
		n := sizes[i/3]
		likes := []int{n, 0, n / 3}[i%3]
		e := mkrec(3, likes, n-likes, 0)
		checkPredict(e)
		for _, spare := range []int{0, 1, 8, 65536 - 8*n - 21, 65537 - 8*n - 21} {
			if spare < 0 {
				continue
			}
			e.capacity = uint32(e.size() + spare)
			checkWrite(e, r)
			checkRead(e, &chunked{data: append(e.bytes(), 0xEE)}, "all at once")
			checkRead(e, &chunked{data: append(e.bytes(), 0xEE), next: func(int) int { return 4096 }}, "in pieces of 4096")
			r.Evals.Add(2)
		}
		e.capacity = uint32(e.size() - 1)
		checkWrite(e, r)
		checkRead(e, &chunked{data: append(e.bytes(), 0xEE)}, "all at once")
	})
	spares := append(upTo(2200, true), 1<<20, 1<<24+5)
	r.ForEach("free space", len(spares), func(i int) string { return fmt.Sprintf("%d free bytes", spares[i]) }, func(i int) {
		for _, items := range []int{0, 3} {
			e := mkrec(3, items, items, spares[i])
			checkWrite(e, r)
			checkRead(e, &chunked{data: append(e.bytes(), 0xEE)}, "all at once")
			r.Evals.Add(2)
		}
	})
}

// ---------------------------------------------------------------- C13

func profileSizes(r *lib.Run) {
	sizes := upTo(300, true)
	r.ForEach("profile sizes", len(sizes)*2, func(i int) string { return fmt.Sprintf("%d items, %s", sizes[i/2], []string{"liked", "disliked"}[i%2]) }, func(i int) {
		n, disliked := sizes[i/2], i%2 == 1
		list := make([]uint64, n)
		for k := range list {
			list[k] = uint64(k)*4 + 2
		}
		other := []uint64{1, uint64(n) * 2, uint64(n)*4 + 9}
		if n == 0 {
			other = []uint64{1, 9}
		}
		mk := func() *domain.Profile {
			p := &domain.Profile{UserID: 42, Likes: slices.Clone(list), Dislikes: slices.Clone(other)}
			if disliked {
				p.Likes, p.Dislikes = p.Dislikes, p.Likes
			}
			for k, l := range [][]uint64{p.Likes, p.Dislikes} {
				slices.Sort(l)
				l = slices.Compact(l)
				if k == 0 {
					p.Likes = l
				} else {
					p.Dislikes = l
				}
			}
			return p
		}
		// One list contains the other's items only if they are equal to 2 mod 4.
		base := mk()
		if n > 0 && uint64(n)*2%4 == 2 {
			del := func(l []uint64) []uint64 {
				return slices.DeleteFunc(l, func(x uint64) bool { return x == uint64(n)*2 })
			}
			if disliked {
				base.Likes = del(base.Likes)
			} else {
				base.Dislikes = del(base.Dislikes)
			}
		}
		in := func(l []uint64, x uint64) bool { _, ok := slices.BinarySearch(l, x); return ok }
		qualify := func(p *domain.Profile, likes, dislikes []uint64, x uint64, after string) {
			want := domain.ItemUnknown
			if in(likes, x) {
				want = domain.ItemLiked
			} else if in(dislikes, x) {
				want = domain.ItemDisliked
			}
			if got := p.QualifyItem(x); got != want {
				lib.Failf("classify", "%s: item %d of a profile with %d likes and %d dislikes is classified %d, want %d", after, x, len(likes), len(dislikes), got, want)
			}
		}
		for x := uint64(0); x < uint64(n)*4+12; x++ {
			qualify(base, base.Likes, base.Dislikes, x, "untouched")
		}
		with := func(l []uint64, x uint64) []uint64 {
			at, ok := slices.BinarySearch(l, x)
			if ok {
				return slices.Clone(l)
			}
			return slices.Insert(slices.Clone(l), at, x)
		}
		without := func(l []uint64, x uint64) []uint64 {
			l = slices.Clone(l)
			if at, ok := slices.BinarySearch(l, x); ok {
				l = slices.Delete(l, at, at+1)
			}
			return l
		}
		var items []uint64
		for _, k := range spread(n, 300) {
			items = append(items, uint64(k)*4+2, uint64(k)*4+3)
		}
		items = append(items, 0, 1, uint64(n)*4+5, ^uint64(0))
		for _, x := range items {
			for op := range pKinds {
				p := &domain.Profile{UserID: 42, Likes: slices.Clone(base.Likes), Dislikes: slices.Clone(base.Dislikes)}
				likes, dislikes := base.Likes, base.Dislikes
				switch op {
				case 0:
					p.Like(x)
					likes, dislikes = with(likes, x), without(dislikes, x)
				case 1:
					p.Dislike(x)
					likes, dislikes = without(likes, x), with(dislikes, x)
				case 2:
					p.Unlike(x)
					likes = without(likes, x)
				case 3:
					p.Undislike(x)
					dislikes = without(dislikes, x)
				case 4:
					p.RemoveItem(x)
					likes, dislikes = without(likes, x), without(dislikes, x)
				}
				at := fmt.Sprintf("after %s(%d)", pKinds[op], x)
				if !slices.Equal(p.Likes, likes) || !slices.Equal(p.Dislikes, dislikes) || p.UserID != 42 {
					lib.Failf("lists", "%s: a profile with %d likes and %d dislikes has %d and %d, want %d and %d, or other ones", at, len(base.Likes), len(base.Dislikes), len(p.Likes), len(p.Dislikes), len(likes), len(dislikes))
				}
				for _, y := range []uint64{x - 1, x, x + 1, 0, uint64(n) * 2} {
					qualify(p, likes, dislikes, y, at)
				}
				r.Evals.Add(1)
			}
		}
	})
	// Growing and shrinking item by item, in four orders.
	grow := []int{40, 129, 300, 1025}
	if r.Thorough {
		grow = append(grow, 4097)
	}
	r.ForEach("growing and shrinking", len(grow)*4, func(i int) string { return fmt.Sprintf("%d items, order %d", grow[i/4], i%4) }, func(i int) {
		n := grow[i/4]
		item := func(k int) uint64 {
			switch i % 4 {
			case 0:
				return uint64(k)
			case 1:
				return ^uint64(0) - uint64(k)
			case 2:
				return uint64(k*k%n)<<32 | uint64(k)
			default:
				return uint64(n/2 + (k+1)/2*(1-k%2*2))
			}
		}
		s := &psys{p: domain.NewProfile(42), m: map[uint64]int{}}
		for k := 0; k < n; k++ {
			x := item(k)
			if k%3 == 2 {
				s.p.Dislike(x)
				s.m[x] = domain.ItemDisliked
			} else {
				s.p.Like(x)
				s.m[x] = domain.ItemLiked
			}
			if k%7 == 6 {
				y := item(k / 2)
				if s.m[y] == domain.ItemLiked {
					s.p.Dislike(y)
					s.m[y] = domain.ItemDisliked
				} else {
					s.p.Like(y)
					s.m[y] = domain.ItemLiked
				}
			}
			if n <= 300 || k%97 == 0 {
				s.check()
			}
		}
		s.check()
		for k := 0; k < n; k++ {
			x := item((k*7 + 3) % n)
			s.p.RemoveItem(x)
			delete(s.m, x)
			if n <= 300 || k%97 == 0 {
				s.check()
			}
		}
		s.check()
		r.Evals.Add(1)
	})
}

// ---------------------------------------------------------------- C14

func similaritySizes(r *lib.Run) {
	sizes := []int{0, 1, 30, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 65537, 70000}
	n := len(sizes)
	r.ForEach("large profiles", n*n, func(i int) string { return fmt.Sprintf("%d and %d items", sizes[i/n], sizes[i%n]) }, func(i int) {
		la, lb := sizes[i/n], sizes[i%n]
		lo := min(la, lb)
		seen := map[int]bool{}
		for _, over := range []int{0, 1, 2, lo / 2, lo - 1, lo, 255, 256, 257} {
			if over < 0 || over > lo || seen[over] {
				continue
			}
			seen[over] = true
			for shape := 0; shape < 4; shape++ {
				a, b := domain.NewProfile(1), domain.NewProfile(2)
				x, y := seqIDs(10, la), seqIDs(10+uint64(3*(la-over)), lb)
				if shape == 3 { // the common items are spread over both lists
					x, y = make([]uint64, la), make([]uint64, lb)
					for k := range x {
						x[k] = uint64(k)*4 + 1
					}
					for k := range y {
						y[k] = uint64(k)*4 + 2
						if k < over {
							y[k] = uint64(k)*4 + 1
						}
					}
				}
				want := 0.0
				union := float64(la + lb - over)
				if union > 0 {
					want = 100 * float64(over) / union
				}
				f := float32(0.25)
				switch shape {
				case 0, 3:
					a.Likes, b.Likes = x, y
				case 1:
					a.Dislikes, b.Dislikes = x, y
				case 2:
					a.Likes, b.Likes, a.Dislikes, b.Dislikes = x, y, seqIDs(5, 9), seqIDs(8, 9) // 8 of 10
					want = 100 * (float64(over) + 0.25*8) / (union + 0.25*10)
				}
				ca, cb := slices.Clone(x), slices.Clone(y)
				got, back := a.ComputeSimilarity(*b, f), b.ComputeSimilarity(*a, f)
				at := fmt.Sprintf("%d and %d items, %d in common, shape %d", la, lb, over, shape)
				if math.Abs(float64(got)-want) > 0.001 || !(got >= 0 && got <= 100) {
					lib.Failf("value", "similarity of profiles with %s is %v, want %v", at, got, want)
				}
				if math.Abs(float64(got)-float64(back)) > 0.0001 {
					lib.Failf("symmetry", "similarity of profiles with %s is %v, the other way round %v", at, got, back)
				}
				if !slices.Equal(x, ca) || !slices.Equal(y, cb) {
					lib.Failf("changed", "computing the similarity of profiles with %s changed them", at)
				}
				r.Evals.Add(1)
			}
		}
	})
}

// ---------------------------------------------------------------- C15

func listSizes(r *lib.Run) {
	sizes := upTo(300, true)
	check := func(i int) {
		n, rep := sizes[i/2], 1+i%2*2 // every element once or three times
		list := make([]uint64, n)
		for k := range list {
			list[k] = uint64(k/rep)*4 + 2
		}
		orig := slices.Clone(list)
		top := uint64((n-1)/rep)*4 + 2
		var needles []uint64
		if n <= 4200 {
			for x := uint64(0); x < top+4; x++ {
				needles = append(needles, x)
			}
		} else {
			for x := uint64(0); x < top+4; x += 3 {
				needles = append(needles, x)
			}
		}
		needles = append(needles, 1<<63, ^uint64(0))
		for _, x := range needles {
			at, found := slices.BinarySearch(list, x)
			if k := helpers.BinaryIndexOf(list, x); found != (k >= 0) || found && (k >= n || list[k] != x) {
				lib.Failf("search", "BinaryIndexOf(list of %d, %d) = %d", n, x, k)
			}
			k := helpers.BinaryIndexOfClosest(list, x)
			if n == 0 {
				if k >= 0 {
					lib.Failf("closest", "BinaryIndexOfClosest([], %d) = %d", x, k)
				}
				continue
			}
			if k < 0 || k >= n {
				lib.Failf("closest", "BinaryIndexOfClosest(list of %d, %d) = %d", n, x, k)
			}
			dist := func(a uint64) uint64 { return max(a, x) - min(a, x) }
			best := ^uint64(0)
			if at < n {
				best = dist(list[at])
			}
			if at > 0 {
				best = min(best, dist(list[at-1]))
			}
			if dist(list[k]) != best {
				lib.Failf("closest", "BinaryIndexOfClosest(list of %d, %d) = %d (%d), there is one at distance %d", n, x, k, list[k], best)
			}
			r.Evals.Add(1)
		}
		if !slices.Equal(list, orig) {
			lib.Failf("changed", "searching changed a list of %d", n)
		}
		for _, k := range append(spread(n, 300), n) {
			for _, x := range []uint64{uint64(k/rep) * 4, uint64(k/rep)*4 + 2} {
				at, found := slices.BinarySearch(list, x)
				want := slices.Insert(slices.Clone(list), at, x)
				for _, spare := range []int{0, 1} {
					l := slices.Grow(slices.Clone(list), spare)
					if spare == 0 {
						l = l[:n:n]
					}
					if got := helpers.InsertSavingOrder(l, x); !slices.Equal(got, want) {
						lib.Failf("insert", "InsertSavingOrder(list of %d, %d) is wrong", n, x)
					}
				}
				if found {
					want = list
				}
				if got := helpers.PutSavingOrder(slices.Clone(list), x); !slices.Equal(got, want) {
					lib.Failf("put", "PutSavingOrder(list of %d, %d) is wrong", n, x)
				}
			}
			if k < n {
				want := slices.Delete(slices.Clone(list), k, k+1)
				if got := helpers.RemoveSavingOrder(slices.Clone(list), k); !slices.Equal(got, want) {
					lib.Failf("remove", "RemoveSavingOrder(list of %d, %d) is wrong", n, k)
				}
				got := helpers.Remove(slices.Clone(list), k)
				slices.Sort(got)
				if !slices.Equal(got, want) {
					lib.Failf("remove", "Remove(list of %d, %d) keeps other elements", n, k)
				}
			}
			want := slices.Insert(slices.Clone(list), k, 7)
			if got := helpers.Insert(slices.Clone(list), k, 7); !slices.Equal(got, want) {
				lib.Failf("insert", "Insert(list of %d, %d) is wrong", n, k)
			}
			r.Evals.Add(1)
		}
	}
	r.ForEach("list sizes", len(sizes)*2, func(i int) string { return fmt.Sprintf("%d elements, each %d times", sizes[i/2], 1+i%2*2) }, check)
}

// ---------------------------------------------------------------- C28

func streamSizes(r *lib.Run) {
	sizes := append(upTo(3000, true), 1<<20)
	r.ForEach("stream sizes", len(sizes), func(i int) string { return fmt.Sprintf("%d bytes", sizes[i]) }, func(i int) {
		size := sizes[i]
		for _, piece := range []int{0, 1, 7, 64, 99, 100, 101, 1000} {
			if piece == 1 && size > 10000 {
				continue
			}
			moved := 0
			w := writerFunc(func(b []byte) (int, error) {
				for _, x := range b {
					if x != 0 {
						lib.Failf("zeros", "a byte %#x was written", x)
					}
				}
				if piece > 0 && len(b) > piece {
					b = b[:piece]
				}
				moved += len(b)
				return len(b), nil
			})
			if n, err := helpers.WriteZeros(size, w); n != size || err != nil || moved != size {
				lib.Failf("amount", "WriteZeros(%d) = %d, %v; %d bytes were written", size, n, err, moved)
			}
			for _, eof := range []bool{false, true} { // the end comes with the last bytes
				left := size
				if !eof {
					left += 5
				}
				start := left
				rd := readerFunc(func(b []byte) (int, error) {
					n := min(len(b), left)
					if piece > 0 {
						n = min(n, piece)
					}
					if n == 0 && len(b) > 0 {
						return 0, io.EOF
					}
					for k := range b[:n] {
						b[k] = 0xEE
					}
					left -= n
					if eof && left == 0 {
						return n, io.EOF
					}
					return n, nil
				})
				if n, err := helpers.SkipReading(size, rd); n != size || err != nil || start-left != size {
					lib.Failf("amount", "SkipReading(%d) = %d, %v; %d bytes were consumed", size, n, err, start-left)
				}
			}
			r.Evals.Add(3)
		}
	})
	// Zeros are still zeros after something else was skipped.
	r.ForEach("zeros after skipping", 1, func(int) string { return "skip, then write" }, func(int) {
		var out bytes.Buffer
		if _, err := helpers.SkipReading(300, bytes.NewReader(bytes.Repeat([]byte{0xAB}, 300))); err != nil {
			lib.Failf("error", "SkipReading(300) failed: %v", err)
		}
		helpers.WriteZeros(300, &out)
		if !bytes.Equal(out.Bytes(), make([]byte, 300)) {
			lib.Failf("zeros", "other bytes than zeros were written")
		}
	})
}

// ---------------------------------------------------------------- C29

func fileSizes(r *lib.Run) {
	firsts := []int64{0, 1, 2, 50, 63, 64, 65, 98, 99, 100, 101, 102, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 511, 512, 513, 1024, 4095, 4096, 4097, 65535, 65536, 65537}
	seconds := []int64{0, 1, 2, 99, 100, 101, 128, 256, 300, 1000, 4096, 70000}
	n, k := len(firsts), len(seconds)
	r.ForEach("large files", n*k*2, func(i int) string {
		return fmt.Sprintf("writes of %d and %d bytes, start %d", firsts[i/2%n], seconds[i/2/n], i%2)
	}, func(i int) {
		a, b := firsts[i/2%n], seconds[i/2/n]
		for _, p := range []int64{0, 1, a / 2, a - 1, a} {
			if p < 0 || p > a {
				continue
			}
			for _, t := range []int64{-5, 0, 1, a / 2, a, a + 1, a + b, a + b + 1, a + b + 100, a + b + 5000} {
				var initial []byte
				if i%2 == 1 {
					initial = bytes.Repeat([]byte("x"), 150)[:40]
				}
				s := &fsys{fb: helpers.NewFileBuffer(initial), m: &filemodel{data: clone(initial)}}
				ops := []fop29{{"write", a, 0}, {"seek", p, 0}, {"write", b, 0}, {"seek", p, 0}, {"read", 7, 0}, {"read", b + 3, 0}, {"read", 1, 0}}
				if t >= 0 {
					ops = append(ops, fop29{"truncate", t, 0}, fop29{"seek", 0, 1}, fop29{"write", b / 2, 0}, fop29{"truncate", a + b + 10, 0}, fop29{"seek", 0, 0}, fop29{"read", a + b + 20, 0})
				} else {
					ops = append(ops, fop29{"seek", -1, 2}, fop29{"write", 300, 0}, fop29{"seek", 0, 0}, fop29{"read", a + b + 500, 0})
				}
				s.ops = ops
				for o := range ops {
					s.Do(o)
				}
				r.Evals.Add(int64(len(ops)))
			}
		}
	})
}
