//go:build go1.24

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/helpers"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

// ---------------------------------------------------------------- C34

// anamespace is everything a namespace offers.
type anamespace interface {
	namespace
	domain.Namespace
}

// nop is something to do with a namespace.
type nop struct {
	what string
	do   func(w *world, ns anamespace)
}

var nops = []nop{
	{"Start", func(w *world, ns anamespace) {
		ctx, cancel := context.WithCancel(context.Background())
		mc.AtEnd(cancel)
		w.startErr = ns.Start(ctx)
	}},
	{"Stop", func(w *world, ns anamespace) { ns.Stop() }},
	{"cancel", func(w *world, ns anamespace) { w.cancel() }},
	{"GetName", func(w *world, ns anamespace) { ns.GetName() }},
	{"GetType", func(w *world, ns anamespace) { ns.GetType() }},
	{"GetMaxSimilarProfiles", func(w *world, ns anamespace) { ns.GetMaxSimilarProfiles() }},
	{"GetDislikeFactor", func(w *world, ns anamespace) { ns.GetDislikeFactor() }},
	{"Rename", func(w *world, ns anamespace) { mc.Recv(ns.Rename(parseName("other"))) }},
	{"SetMaxSimilarProfiles", func(w *world, ns anamespace) { ns.SetMaxSimilarProfiles(17) }},
	{"SetMaxSimilarProfiles to the default", func(w *world, ns anamespace) { ns.SetMaxSimilarProfiles(0) }},
	{"SetDislikeFactor", func(w *world, ns anamespace) { ns.SetDislikeFactor(0.125) }},
	{"Like", func(w *world, ns anamespace) { ns.Like(1, 2) }},
	{"Dislike", func(w *world, ns anamespace) { ns.Dislike(1, 2) }},
	{"DeleteItem", func(w *world, ns anamespace) { ns.DeleteItem(1, 2) }},
	{"DeleteProfile", func(w *world, ns anamespace) { ns.DeleteProfile(1) }},
	{"GetProfile", func(w *world, ns anamespace) { ns.GetProfile(1) }},
	{"GetSimilarProfiles", func(w *world, ns anamespace) { ns.GetSimilarProfiles(1) }},
	{"RecommendItems", func(w *world, ns anamespace) { ns.RecommendItems(1) }},
}

// nscenario runs the operations, each in its own thread, on one namespace. It
// has been started unless that is one of them, and is stopped in the end.
func nscenario(bound int, ops ...nop) lib.Scenario { return fscenario(bound, "", ops...) }

// failing storages.
var errNoStorage = errors.New("no storage")

type (
	noDelta struct{ deltaFactory }
	noIndex struct {
		indexFactory
		err   error
		calls *int
		until int
	}
	noLike struct{ likeFactory }
)

func (noDelta) OpenMaybeRecover(domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return nil, errNoStorage
}
func (f noIndex) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if *f.calls++; *f.calls <= f.until {
		return nil, f.err
	}
	return f.indexFactory.Open(file, closer)
}
func (noLike) OpenMaybeRecover(domain.RandomAccessFile, domain.DeltaStorage, domain.IndexStorage) (domain.LikeStorage, error) {
	return nil, errNoStorage
}

var faults = []string{"no delta storage", "no index storage", "corrupted index", "index corrupted for good", "no profile storage", "no factory of profile storages", "no directory"}

// fscenario is nscenario with something wrong about the storages.
func fscenario(bound int, fault string, ops ...nop) lib.Scenario {
	dir := os.Getenv("VERIF_SCRATCH") + "/"
	var names []string
	start := true
	for _, o := range ops {
		names = append(names, o.what)
		if o.what == "Start" {
			start = false
		}
	}
	name := strings.Join(names, " | ")
	if fault != "" {
		name = fault + ": " + name
	}
	return lib.Scenario{Name: "namespace: " + name, Bound: bound, Delay: true, OnlyRaces: true, Group: fmt.Sprintf("namespace, %d threads", len(ops)), New: func() lib.Program {
		w := &world{p: program{real: true}, dir: dir, byUser: map[uint64]*request{}, closes: map[string]int{}, bad: map[string]string{}}
		d := &domain.LikeNamespaceDto{
			Name: parseName("ns"), MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: dir,
			DeltaStorageFactory: deltaFactory{w}, LikeStorageFactory: likeFactory{w}, IndexStorageFactory: indexFactory{w},
		}
		switch fault {
		case "no delta storage":
			d.DeltaStorageFactory = noDelta{}
		case "no index storage":
			d.IndexStorageFactory = noIndex{indexFactory{w}, errNoStorage, new(int), 1}
		case "corrupted index":
			d.IndexStorageFactory = noIndex{indexFactory{w}, domain.NewCorruptedFileError(), new(int), 1}
		case "index corrupted for good":
			d.IndexStorageFactory = noIndex{indexFactory{w}, domain.NewCorruptedFileError(), new(int), 2}
		case "no profile storage":
			d.LikeStorageFactory = noLike{}
		case "no factory of profile storages":
			d.LikeStorageFactory = nil
		case "no directory":
			d.BasePath = dir + "missing/"
		}
		ns := domain.NewLikeNamespace(d)
		return lib.Program{Body: func() {
			ctx, cancel := context.WithCancel(context.Background())
			w.cancel = cancel
			mc.AtEnd(cancel)
			if start && ns.Start(ctx) != nil {
				return
			}
			ended := 0
			for _, o := range ops {
				mc.GoNamed(o.what, func() {
					o.do(w, ns)
					ended++
				})
			}
			mc.GoNamed("finisher", func() {
				mc.WaitUntil("the others", func() bool { return ended == len(ops) })
				ns.Stop()
			})
		}}
	}}
}

// solo is a use of something that belongs to one thread alone.
type solo struct {
	what string
	do   func(sh *shared)
}

// shared is what the threads of a solo scenario have in common.
type shared struct {
	delta   domain.DeltaStorageFactory
	index   domain.IndexStorageFactory
	records recdb.Protocol
	dproto  delta.Protocol
	iproto  index.Protocol
	profile *domain.Profile
	other   *domain.Profile
	thread  int
}

// newFile lets other threads run at every operation.
func newFile(data []byte) *lib.File {
	return lib.NewFile(&lib.Disk{Data: data}, &lib.Env{Decide: func(lib.Op) lib.Answer {
		mc.Point()
		return lib.Answer{}
	}})
}

// database has some records with spare room.
func database(p recdb.Protocol) []byte {
	var b bytes.Buffer
	p.WritePrefix(&b)
	p.WriteHeader(&recdb.Header{Version: recdb.Version, EntryType: recdb.NewLikeProtocol().GetEntryType(), NumEntries: 3}, &b)
	for i := 1; i <= 3; i++ {
		p.WriteEntry(&recdb.Entry{Capacity: 300, Data: &domain.Profile{UserID: uint64(i), Likes: []uint64{1, 2}, Dislikes: []uint64{7}}}, &b)
	}
	return b.Bytes()
}

var solos = []solo{
	{"a change log", func(sh *shared) {
		f := newFile(nil)
		for round := 0; round < 2; round++ {
			st, err := sh.delta.OpenMaybeRecover(f)
			if err != nil {
				return
			}
			st.Add('+', 1, 2)
			st.Add('-', 1, 3)
			st.Flush()
			st.Add('-', 1, 2)
			st.Get(1, 2)
			st.GetUserCount()
			st.GetTotalItemCount()
			st.GetFileSize()
			st.Close()
			f = newFile(f.D.Data)
		}
	}},
	{"recovering a change log", func(sh *shared) {
		f := newFile(nil)
		st, err := sh.delta.Open(f)
		if err != nil {
			return
		}
		st.Add('+', 1, 2)
		st.Add('-', 1, 3)
		st.Flush()
		g := newFile(append(append([]byte{}, f.D.Data...), 1, 2, 3))
		sh.delta.Recover(g)
		h := newFile(append(append([]byte{}, f.D.Data...), 1, 2, 3))
		sh.delta.OpenMaybeRecover(h)
		buf := helpers.NewFileBuffer(append([]byte{}, f.D.Data...))
		sh.delta.Recover(buf)
		sh.dproto.WriteLocked(true, newFile(f.D.Data))
		sh.dproto.IsLocked(newFile(f.D.Data))
	}},
	{"an index", func(sh *shared) {
		f := newFile(nil)
		for round := 0; round < 2; round++ {
			st, err := sh.index.Open(f, f)
			if err != nil {
				return
			}
			st.Put(1, 2)
			st.Put(3, 4)
			st.Remove(1)
			st.Get(3)
			st.Close()
			f = newFile(f.D.Data)
		}
		sh.iproto.WriteLocked(true, newFile(f.D.Data))
		sh.iproto.IsLocked(newFile(f.D.Data))
	}},
	{"a record database", func(sh *shared) {
		sh.records.Create(newFile(nil))
		f := newFile(database(sh.records))
		it, err := recdb.NewIterator(f, sh.records)
		if err != nil {
			return
		}
		for it.HasNext() {
			e, err := it.Next()
			if err != nil {
				return
			}
			sh.records.PredictEntrySize(e)
			sh.records.PredictEntryCapacity(e)
			it.SetPrevious(e)
		}
		it.Rewind()
		it.Next()
		sh.records.WriteLocked(true, f)
		sh.records.IsLocked(f)
	}},
	{"profiles", func(sh *shared) {
		p, q := domain.NewProfile(1), domain.NewProfile(2)
		for i := uint64(0); i < 4; i++ {
			p.Like(i)
			q.Like(i + 2)
			p.Dislike(i + 1)
			q.Undislike(i)
			p.Unlike(i)
			q.RemoveItem(2)
			p.QualifyItem(i)
		}
		p.ComputeSimilarity(*q, 0.5)
	}},
	{"looking at the same profiles", func(sh *shared) {
		sh.profile.QualifyItem(3)
		sh.profile.QualifyItem(4)
		sh.profile.ComputeSimilarity(*sh.other, 0.5)
		sh.other.ComputeSimilarity(*sh.profile, 1)
	}},
	{"streams and lists", func(sh *shared) {
		var b bytes.Buffer
		helpers.WriteZeros(130, &b)
		helpers.SkipReading(120, bufio.NewReader(&b))
		l := []uint64{1, 4, 9}
		l = helpers.InsertSavingOrder(l, 5)
		l = helpers.PutSavingOrder(l, 6)
		helpers.BinaryIndexOf(l, 6)
		helpers.BinaryIndexOfClosest(l, 7)
		helpers.IndexOf(l, 9)
		l = helpers.Insert(l, 1, 3)
		l = helpers.RemoveSavingOrder(l, 2)
		helpers.Remove(l, 0)
	}},
	{"a file buffer", func(sh *shared) {
		f := helpers.NewFileBuffer([]byte{1, 2, 3})
		f.Write([]byte{4, 5, 6, 7})
		f.Seek(1, 0)
		f.Read(make([]byte, 5))
		f.Truncate(2)
		f.Bytes()
		f.Close()
	}},
	{"names and types", func(sh *shared) {
		if n, err := valueobjects.ParseNamespaceName("some-name_1"); err == nil {
			n.Value()
		}
		valueobjects.ParseNamespaceName("1?")
		if t, err := valueobjects.ParseNamespaceType("like"); err == nil {
			t.Value()
		}
		valueobjects.ParseNamespaceType("other")
	}},
	{"a namespace", func(sh *shared) {
		w := &world{p: program{real: true}, byUser: map[uint64]*request{}, closes: map[string]int{}, bad: map[string]string{}}
		dir := os.Getenv("VERIF_SCRATCH") + "/"
		ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
			Name: parseName(fmt.Sprintf("n%d", sh.thread)), MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: dir,
			DeltaStorageFactory: sh.delta, LikeStorageFactory: likeFactory{w}, IndexStorageFactory: sh.index,
		})
		ctx, cancel := context.WithCancel(context.Background())
		mc.AtEnd(cancel)
		if ns.Start(ctx) != nil {
			return
		}
		ns.Like(1, 2)
		ns.GetProfile(1)
		ns.Stop()
	}},
	{"a namespace service", func(sh *shared) {
		svc := domain.NewNamespaceService(context.Background(), sh.delta, sh.index)
		svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parseName("a"), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 1, DislikeFactor: 0.5})
		svc.UpdateNamespace(parseName("a"), &domain.NamespaceUpdateRequest{Name: parseName("b"), MaxSimilarProfiles: 2, DislikeFactor: 0.25})
		svc.GetNamespaceByName(parseName("b"))
		svc.GetNamespaces()
		svc.DeleteNamespace(parseName("b"))
	}},
}

// bulky are uses that outgrow buffers and blocks.
var bulky = []solo{
	{"a long change log", func(sh *shared) {
		f := newFile(nil)
		for round := uint64(0); round < 2; round++ {
			st, err := sh.delta.OpenMaybeRecover(f)
			if err != nil {
				return
			}
			for i := uint64(0); i < 260; i++ {
				st.Add('+', i%17, i+1000*round)
			}
			st.Flush()
			st.Close()
			f = newFile(f.D.Data)
		}
		g := newFile(append(append([]byte{}, f.D.Data...), 1, 2, 3))
		sh.delta.Recover(g)
	}},
	{"a large index", func(sh *shared) {
		f := newFile(nil)
		for round := uint64(0); round < 2; round++ {
			st, err := sh.index.Open(f, f)
			if err != nil {
				return
			}
			for i := uint64(0); i < 70; i++ {
				st.Put(i*31%97, i)
			}
			for i := uint64(0); i < 20; i++ {
				st.Remove(i * 31 % 97)
			}
			st.Get(31)
			st.Close()
			f = newFile(f.D.Data)
		}
	}},
	{"large records", func(sh *shared) {
		items := func(n, from uint64) (l []uint64) {
			for i := uint64(0); i < n; i++ {
				l = append(l, from+i)
			}
			return
		}
		var b bytes.Buffer
		sh.records.WritePrefix(&b)
		sh.records.WriteHeader(&recdb.Header{Version: recdb.Version, EntryType: recdb.NewLikeProtocol().GetEntryType(), NumEntries: 2}, &b)
		sh.records.WriteEntry(&recdb.Entry{Capacity: 9000, Data: &domain.Profile{UserID: 1, Likes: items(300, 1), Dislikes: items(200, 1000)}}, &b)
		sh.records.WriteEntry(&recdb.Entry{Capacity: 20000, Data: &domain.Profile{UserID: 2, Likes: items(10, 1)}}, &b)
		it, err := recdb.NewIterator(newFile(b.Bytes()), sh.records)
		if err != nil {
			return
		}
		for it.HasNext() {
			e, err := it.Next()
			if err != nil {
				return
			}
			if err := it.SetPrevious(e); err != nil {
				return
			}
		}
	}},
	{"large profiles", func(sh *shared) {
		p, q := domain.NewProfile(1), domain.NewProfile(2)
		for i := uint64(0); i < 150; i++ {
			p.Like(i * 7 % 151)
			q.Dislike(i * 11 % 151)
			q.Like(i * 3 % 151)
		}
		p.ComputeSimilarity(*q, 0.5)
		for i := uint64(0); i < 150; i++ {
			p.RemoveItem(i)
			q.Undislike(i)
		}
	}},
	{"long streams", func(sh *shared) {
		f := newFile(nil)
		helpers.WriteZeros(20000, f)
		helpers.SkipReading(15000, bufio.NewReader(newFile(f.D.Data)))
		helpers.SkipReading(15000, newFile(f.D.Data))
		g := helpers.NewFileBuffer(nil)
		helpers.WriteZeros(9000, g)
		g.Seek(8000, io.SeekStart)
		g.Write(make([]byte, 5000))
		g.Truncate(100)
	}},
}

// rejected are requests that are answered without asking the service to
// change anything.
var rejected = func() (l []hop) {
	for _, r := range []string{
		"POST  {",
		`POST  {"name":"c"}`,
		`POST  {"name":"C-c","type":"other","maxSimilarProfiles":1,"dislikeFactor":-1}`,
		`POST  {"name":"1c","type":"like","maxSimilarProfiles":1,"dislikeFactor":1}`,
		`POST  {"name":"c","type":"like","maxSimilarProfiles":-1,"dislikeFactor":1}`,
		"PUT /a [",
		`PUT /a {"name":"","maxSimilarProfiles":1}`,
		`PUT /a {"name":"1a","maxSimilarProfiles":1,"dislikeFactor":1}`,
		`PUT /1? {"name":"a","maxSimilarProfiles":1,"dislikeFactor":1}`,
		`PUT /zz {"name":"a","maxSimilarProfiles":1,"dislikeFactor":1}`,
		`PUT /a {"name":"b","maxSimilarProfiles":1,"dislikeFactor":2}`,
		"GET /-",
		"GET /zz",
		"DELETE /a",
		"GET /a/b",
	} {
		l = append(l, hop{mop{what: "raw", name: r}, true})
	}
	return
}()

// soloScenario has two threads that use different objects of one kind each.
func soloScenario(bound int, a, b solo) lib.Scenario {
	dir := os.Getenv("VERIF_SCRATCH") + "/"
	return lib.Scenario{Name: "apart: " + a.what + " | " + b.what, Bound: bound, OnlyRaces: true, Group: "separate objects, 2 threads", New: func() lib.Program {
		os.Setenv("REC_PATH", dir)
		l, _ := os.ReadDir(dir)
		for _, e := range l {
			os.Remove(dir + e.Name())
		}
		sh := shared{delta: delta.NewStorageFactory(), index: index.NewStorageFactory(), records: recdb.NewProtocol(recdb.NewLikeProtocol()), dproto: delta.NewProtocol(), iproto: index.NewProtocol(),
			profile: &domain.Profile{UserID: 1, Likes: []uint64{1, 3}, Dislikes: []uint64{2, 9}}, other: &domain.Profile{UserID: 2, Likes: []uint64{1, 2}, Dislikes: []uint64{3, 9}}}
		return lib.Program{Body: func() {
			for i, s := range []solo{a, b} {
				my := sh
				my.thread = i
				mc.GoNamed(fmt.Sprintf("%s %d", s.what, i), func() { s.do(&my) })
			}
		}}
	}}
}

func init() {
	// What is answered is the subject of other properties; here only the accesses count.
	only := func(sc lib.Scenario, bound int, group string) lib.Scenario {
		create := sc.New
		sc.Bound, sc.Group, sc.OnlyRaces = bound, group, true
		sc.Name = group + ": " + sc.Name
		sc.New = func() lib.Program {
			p := create()
			p.After = nil
			return p
		}
		return sc
	}
	cold := func(same bool, sc lib.Scenario) lib.Scenario {
		sc.Cold = same
		return sc
	}
	checks["C34"] = lib.Check{Level: "model_checking",
		Rule: "Every schedule up to the stated preemption bound of every pair (some triples) of management calls, HTTP requests (served, rejected, failing), operations of one namespace and uses of separate objects, on the real code built with the race detector; the detector is told the orderings of the modelled locks, channels and goroutine starts and not those of the scheduler, and reports every pair of conflicting accesses of the code under test that these do not order, whichever of the two came first.",
		Assumptions: []string{
			"an access is compared with the last few accesses to the same eight bytes",
			"only accesses made by the code under test, or by the standard library on its behalf, count",
			"locks and pools inside the standard library order the threads as well",
		},
		Scenarios: func(th bool) []lib.Scenario {
			var s []lib.Scenario
			b := 1
			if th {
				b = 2
			}
			for i := range nops {
				for j := i; j < len(nops); j++ {
					if i == j && nops[i].what == "Start" {
						continue // a namespace is started once
					}
					s = append(s, cold(i == j, nscenario(b+1, nops[i], nops[j])))
				}
			}
			for _, f := range faults {
				for _, o := range nops[1:11] { // requests would never be answered
					s = append(s, fscenario(b+1, f, nops[0], o))
				}
			}
			for i := range solos {
				for j := i; j < len(solos); j++ {
					s = append(s, cold(i == j, soloScenario(b, solos[i], solos[j])))
				}
			}
			mops := append([]mop{{what: "start"}, {what: "look"}}, managementCalls...)
			for i := range mops {
				for j := i; j < len(mops); j++ {
					t := [][]mop{{mops[i]}, {mops[j]}}
					s = append(s, cold(i == j, only(mscenario(fmt.Sprint(t), b, twoNamespaces, t), b, "management, 2 threads")))
				}
			}
			for i := range mops {
				for j := i; j < len(mops); j++ {
					t := [][]mop{{mops[i]}, {mops[j]}}
					init := append(append([]mop{}, twoNamespaces...), mop{what: "vanish"})
					s = append(s, only(unsaved(fmt.Sprint(t), b, init, t), b, "management without a directory, 2 threads"))
				}
			}
			for i := range httpRequests {
				for j := i; j < len(httpRequests); j++ {
					s = append(s, cold(i == j, only(hscenario(b, twoNamespaces, [][]hop{{httpRequests[i]}, {httpRequests[j]}}), b, "HTTP requests, 2 threads")))
				}
			}
			for i := range rejected {
				for j := i; j < len(rejected); j++ {
					s = append(s, cold(i == j, only(hscenario(b, twoNamespaces, [][]hop{{rejected[i]}, {rejected[j]}}), b, "rejected HTTP requests, 2 threads")))
				}
				for _, o := range []int{1, 4, 12} {
					s = append(s, only(hscenario(b, twoNamespaces, [][]hop{{rejected[i]}, {httpRequests[o]}}), b, "rejected HTTP requests, 2 threads"))
				}
			}
			lost := append(append([]mop{}, twoNamespaces...), mop{what: "vanish"})
			for _, i := range []int{0, 1, 3, 4, 6} {
				for j := range httpRequests[:13] {
					s = append(s, only(hscenario(b, lost, [][]hop{{httpRequests[i]}, {httpRequests[j]}}), b, "HTTP requests without a directory, 2 threads"))
				}
			}
			for i := range bulky {
				for j := i; j < len(bulky); j++ {
					s = append(s, soloScenario(0, bulky[i], bulky[j]))
				}
			}
			stop, cancel := []end{{what: "stop"}}, []end{{what: "cancel"}}
			req := func(name string, bound int, p program, mods ...func(*lib.Scenario)) {
				s = append(s, only(scenario("C34", name, bound, p, mods...), bound, "requests"))
			}
			req("three callers, stop (delays)", b+1, program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: stop, real: true}, delay)
			req("three callers, cancel (delays)", b+1, program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: cancel}, delay)
			req("four callers, stop during the batch wait (delays)", b+1, program{callers: many(4, like), ends: []end{{what: "stop", wait: 20 * time.Millisecond}}}, delay)
			req("queue of one, four callers, stop and cancel (delays)", b+1, program{callers: many(4, getProfile), ends: []end{{what: "stop"}, {what: "cancel"}}}, queueCap(1), delay)
			req("queue of two, five callers, stop (delays)", b+1, program{callers: many(5, recommend), ends: stop}, queueCap(2), delay)
			for i := range nops {
				for j := i; j < len(nops); j++ {
					for k := j; k < len(nops); k++ {
						if i < j && (th || i == 0 || j < 4 && k < 11) {
							s = append(s, nscenario(b, nops[i], nops[j], nops[k]))
						}
					}
				}
			}
			return s
		}, Fn: func(r *lib.Run) {
			if !mc.Racing {
				panic("VERIF-INTERNAL: not built with the race detector")
			}
			r.Schedules()
		}}
}
