//go:build go1.24

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

// namespace is what the callers use.
type namespace interface {
	Start(ctx context.Context) error
	Stop()
	DeleteProfile(user uint64) error
	GetProfile(user uint64) (*domain.Profile, error)
	Like(user uint64, item uint64) error
	Dislike(user uint64, item uint64) error
	DeleteItem(user uint64, item uint64) error
	GetSimilarProfiles(user uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(user uint64) (*[]domain.RecItem, error)
}

var _ namespace = domain.NewLikeNamespace(&domain.LikeNamespaceDto{})

type kind int

const (
	deleteProfile kind = iota
	getProfile
	like
	dislike
	deleteItem
	getSimilar
	recommend
)

var kindNames = []string{"DeleteProfile", "GetProfile", "Like", "Dislike", "DeleteItem", "GetSimilarProfiles", "RecommendItems"}
var kindActions = []domain.ActionType{domain.ActionDeleteProfile, domain.ActionGetProfile, domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem, domain.ActionGetSimilarProfiles, domain.ActionRecommendItems}

// op is a step of a caller: wait, then one request.
type op struct {
	k    kind
	fail bool // the storage answers with an error
	wait time.Duration
}

// request is one call and what became of it.
type request struct {
	op
	caller     string
	n          int
	user, item uint64
	at         time.Duration
	issued     bool
	ended      bool // stop or cancel had been called when the request was issued
	handed     int
	batch      int
	order      int
	answer     any // what the storage sent
	returned   bool
	result     any
	err        error
	endBefore  bool // stop or cancel had been called when the request returned
	wrong      string
}

func (q *request) String() string {
	return fmt.Sprintf("%s's %s(%d, %d)", q.caller, kindNames[q.k], q.user, q.item)
}

// end is a thread that ends the namespace.
type end struct {
	what string // stop or cancel
	wait time.Duration
}

// program describes a scenario.
type program struct {
	callers   [][]op
	ends      []end
	preCancel bool // the context is cancelled before Start
	real      bool // the repository's own storage processes the batches
	after     []op // requests issued when all else is done and the namespace has been stopped
	// lastEnd is how the namespace is ended when all callers have returned.
	lastEnd []string
	reverse bool // the storage answers a batch from its end
	same    bool // all callers start at time 0
	// pick callers have one request each, of every combination of kinds.
	pick    int
	stagger time.Duration // the picked requests follow each other at this distance
	ids     []uint64      // user and item identifiers to use
	fifo    bool          // what is submitted earlier is queued earlier
}

// world is one execution of a program.
type world struct {
	p        program
	dir      string
	ns       namespace
	cancel   context.CancelFunc
	reqs     []*request
	byUser   map[uint64]*request
	endCalls int
	events   []string
	closes   map[string]int
	inBatch  bool
	batches  int
	handed   int
	bad      map[string]string // property -> violation
	must     []*request        // must be in the next batch
	firing   bool
	threads  []string
	startErr error
}

func (w *world) fail(prop, f string, a ...any) {
	if _, ok := w.bad[prop]; !ok {
		w.bad[prop] = fmt.Sprintf(f, a...)
		mc.Log("%s: %s", prop, w.bad[prop])
	}
}

// ---------------------------------------------------------------- storages

type store struct {
	w    *world
	kind string
	file io.Closer
}

func (s *store) Close() error {
	mc.Point()
	w := s.w
	mc.Log("%s storage closed", s.kind)
	w.closes[s.kind]++
	if w.closes[s.kind] > 1 {
		w.fail("C18", "the %s storage is closed twice", s.kind)
	}
	if w.inBatch {
		w.fail("C18", "the %s storage is closed while a batch is being processed", s.kind)
	}
	if w.endCalls == 0 && !w.p.preCancel {
		w.fail("C18", "the %s storage is closed although the namespace has not been stopped", s.kind)
	}
	if s.file != nil {
		s.file.Close()
		s.file = nil
	}
	return nil
}

type deltaStore struct{ store }

func (*deltaStore) Flush() error                                 { return nil }
func (*deltaStore) GetUserCount() int                            { return 0 }
func (*deltaStore) GetTotalItemCount() int                       { return 0 }
func (*deltaStore) GetFileSize() uint64                          { return 0 }
func (*deltaStore) Get(user, item uint64) (domain.DeltaOp, bool) { return 0, false }
func (*deltaStore) Add(op domain.DeltaOp, user, item uint64)     {}

type deltaFactory struct{ w *world }

func (f deltaFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f deltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return &deltaStore{store{f.w, "delta", file}}, nil
}
func (f deltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.Open(file)
}

type indexStore struct{ store }

func (*indexStore) Get(id uint64) (uint64, bool) { return 0, false }
func (*indexStore) Put(id, index uint64) error   { return nil }
func (*indexStore) Remove(id uint64) error       { return nil }

type indexFactory struct{ w *world }

func (f indexFactory) OpenFile(string) (domain.IndexStorage, error) {
	return &indexStore{store{f.w, "index", nil}}, nil
}
func (f indexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	return &indexStore{store{f.w, "index", closer}}, nil
}

type likeFactory struct{ w *world }

func (f likeFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f likeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	l := &likeStore{store: store{f.w, "profile", file}}
	if f.w.p.real {
		l.real = recdb.NewLikeStorage()
	}
	return l, nil
}
func (f likeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, i)
}

type likeStore struct {
	store
	real domain.LikeStorage
}

// storageError is an answer of the storage.
type storageError struct{ q *request }

func (e *storageError) Error() string { return "storage error for " + e.q.String() }

// take finds the request an action stands for.
func (w *world) take(a domain.Action) *request {
	var user, item uint64
	switch p := a.Payload.(type) {
	case domain.DeleteProfilePayload:
		user = p.UserID
	case domain.GetProfilePayload:
		user = p.UserID
	case domain.LikePayload:
		user, item = p.UserID, p.ItemID
	case domain.GetSimilarProfilesPayload:
		user = p.UserID
	case domain.RecommendItemsPayload:
		user = p.UserID
	default:
		w.fail("C17", "the storage receives an action that nobody requested: type %d, payload %T", a.ActionType, a.Payload)
		return nil
	}
	q := w.byUser[user]
	if q == nil || !q.issued {
		w.fail("C17", "the storage receives an action that nobody requested: type %d, user %d, item %d", a.ActionType, user, item)
		return nil
	}
	if a.ActionType != kindActions[q.k] || item != q.item {
		w.fail("C17", "%v reaches the storage altered: type %d, user %d, item %d", q, a.ActionType, user, item)
	}
	q.handed++
	if q.handed > 1 {
		w.fail("C17", "%v is executed %d times", q, q.handed)
	}
	w.handed++
	q.order = w.handed
	q.batch = w.batches
	return q
}

func (s *likeStore) ProcessActions(actions []domain.Action) error {
	w := s.w
	mc.Point()
	w.batches++
	w.inBatch = true
	if n := len(w.closes); n > 0 {
		w.fail("C18", "a batch is processed after a storage has been closed")
	}
	if len(actions) == 0 {
		mc.Log("empty batch")
	}
	qs := make([]*request, len(actions))
	for i, a := range actions {
		qs[i] = w.take(a)
		mc.Log("batch %d: %v", w.batches, qs[i])
	}
	if w.endCalls == 0 {
		for _, q := range w.must {
			if q.batch != w.batches {
				w.fail("C17", "%v waited when the batch wait ended but is not in the next batch", q)
			}
		}
	}
	w.must = nil
	var err error
	if s.real != nil {
		err = s.real.ProcessActions(actions)
	} else {
		for i := range actions {
			if w.p.reverse {
				i = len(actions) - 1 - i
			}
			a, q := actions[i], qs[i]
			if q == nil || a.Error == nil {
				if a.Error != nil {
					mc.Send(a.Error)(errors.New("unknown action"))
				}
				continue
			}
			if q.fail {
				q.answer = &storageError{q}
				mc.Send(a.Error)(q.answer.(error))
				continue
			}
			switch p := a.Payload.(type) {
			case domain.GetProfilePayload:
				r := &domain.Profile{UserID: q.user}
				q.answer = r
				mc.Send(p.Profile)(r)
			case domain.GetSimilarProfilesPayload:
				r := &[]domain.SimilarProfile{{Similarity: float32(q.n)}}
				q.answer = r
				mc.Send(p.Profiles)(r)
			case domain.RecommendItemsPayload:
				r := &[]domain.RecItem{{ItemID: q.user}}
				q.answer = r
				mc.Send(p.Items)(r)
			default:
				q.answer = "done"
				mc.Send(a.Error)(nil)
			}
		}
	}
	mc.Point()
	w.inBatch = false
	return err
}

// ---------------------------------------------------------------- program

func (w *world) call(q *request) {
	if q.wait > 0 {
		mc.Sleep(q.wait)
	}
	q.at = mc.Clock()
	q.issued = true
	q.ended = w.endCalls > 0
	mc.Log("%v", q)
	switch q.k {
	case deleteProfile:
		q.err = w.ns.DeleteProfile(q.user)
	case getProfile:
		var r *domain.Profile
		if r, q.err = w.ns.GetProfile(q.user); r != nil {
			q.result = r
		}
	case like:
		q.err = w.ns.Like(q.user, q.item)
	case dislike:
		q.err = w.ns.Dislike(q.user, q.item)
	case deleteItem:
		q.err = w.ns.DeleteItem(q.user, q.item)
	case getSimilar:
		var r *[]domain.SimilarProfile
		if r, q.err = w.ns.GetSimilarProfiles(q.user); r != nil {
			q.result = r
		}
	case recommend:
		var r *[]domain.RecItem
		if r, q.err = w.ns.RecommendItems(q.user); r != nil {
			q.result = r
		}
	}
	q.returned = true
	q.endBefore = w.endCalls > 0
	mc.Log("%v returned %v, %v", q, q.result, q.err)
	w.judge(q)
}

// judge compares what a request returned with what the storage answered.
func (w *world) judge(q *request) {
	var se *storageError
	if errors.As(q.err, &se) {
		if se.q != q {
			w.fail("C16", "%v got the answer to %v", q, se.q)
		} else if q.result != nil {
			w.fail("C16", "%v returned both a result and an error", q)
		}
		return
	}
	if q.err != nil {
		// Not the storage's answer.
		if !q.endBefore && !w.p.preCancel {
			w.fail("C16", "%v failed although the namespace was running: %v", q, q.err)
		}
		if q.result != nil {
			w.fail("C16", "%v returned both a result and an error", q)
		}
		return
	}
	if q.handed == 0 {
		w.fail("C16", "%v returned success but the storage has not processed it", q)
		return
	}
	if w.p.real {
		switch r := q.result.(type) {
		case *[]domain.SimilarProfile:
			if len(*r) != 0 {
				w.fail("C16", "%v returned unexpected similar profiles", q)
			}
		case *[]domain.RecItem:
			if len(*r) != 0 {
				w.fail("C16", "%v returned unexpected items", q)
			}
		case nil:
			if q.k == getSimilar || q.k == recommend {
				w.fail("C16", "%v returned nothing", q)
			}
		}
		return
	}
	want := q.answer
	if want == "done" {
		want = nil
	}
	if q.result != want {
		w.fail("C16", "%v returned %v, the storage answered %v", q, q.result, q.answer)
	}
}

func (w *world) end(what string) {
	mc.Point()
	w.endCalls++
	mc.Log("%s", what)
	if what == "stop" {
		w.ns.Stop()
	} else {
		w.cancel()
		mc.Point()
	}
}

func (w *world) add(caller string, o op) {
	n := len(w.reqs) + 1
	q := &request{op: o, caller: caller, n: n, user: uint64(1000 + n)}
	if n <= len(w.p.ids) {
		q.user = w.p.ids[n-1]
	}
	if o.k == like || o.k == dislike || o.k == deleteItem {
		q.item = uint64(50 + n)
		if len(w.p.ids) > 0 {
			q.item = w.p.ids[(n*n)%len(w.p.ids)]
		}
	}
	w.reqs = append(w.reqs, q)
	w.byUser[q.user] = q
}

func (w *world) spawn(name string, f func()) {
	w.threads = append(w.threads, name)
	mc.GoNamed(name, f)
}

func (w *world) body() {
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	mc.AtEnd(cancel)
	if w.p.preCancel {
		cancel()
	}
	for i := 0; i < w.p.pick; i++ {
		c := 0
		if w.p.real {
			c = 2 * mc.Choose(len(kindNames))
		} else {
			c = mc.Choose(2 * len(kindNames))
		}
		w.p.callers = append(w.p.callers, []op{{k: kind(c / 2), fail: c%2 == 1, wait: time.Duration(i) * w.p.stagger}})
		w.add(fmt.Sprintf("caller%d", i), w.p.callers[i][0])
	}
	if err := w.ns.Start(ctx); err != nil {
		w.startErr = err
		return
	}
	for i := range w.p.callers {
		name := fmt.Sprintf("caller%d", i)
		w.spawn(name, func() {
			for _, q := range w.reqs {
				if q.caller == name {
					w.call(q)
				}
			}
		})
	}
	for i, e := range w.p.ends {
		w.spawn(fmt.Sprintf("%s%d", e.what, i), func() {
			if e.wait > 0 {
				mc.Sleep(e.wait)
			}
			w.end(e.what)
		})
	}
	w.spawn("finisher", func() {
		mc.WaitUntil("all requests", func() bool {
			for _, q := range w.reqs {
				if q.caller != "finisher" && !q.returned {
					return false
				}
			}
			return true
		})
		for _, e := range w.p.lastEnd {
			w.end(e)
		}
		for _, q := range w.reqs {
			if q.caller == "finisher" {
				w.call(q)
			}
		}
	})
}

func (w *world) onTimer(e *mc.Exec, owner string) {
	for _, t := range w.threads {
		if t == owner {
			return
		}
	}
	if e.Preempt > 0 {
		return
	}
	w.must = nil
	for _, q := range w.reqs {
		if q.issued && !q.returned && q.handed == 0 {
			if s := e.Waiting(q.caller); s == "channel receive" || s == "select" {
				w.must = append(w.must, q)
			}
		}
	}
}

// judgeEnd checks what only shows when nothing moves any more.
func (w *world) judgeEnd(e *mc.Exec) {
	for _, t := range w.threads {
		if !e.Ended(t) && t != "finisher" {
			w.fail("C16", "%s never returns (%s)", t, e.Waiting(t))
		}
	}
	if w.endCalls > 0 || w.p.preCancel {
		if !e.Ended("finisher") {
			w.fail("C16", "finisher never returns (%s)", e.Waiting("finisher"))
		}
		if u := e.Unnamed(); len(u) > 0 {
			w.fail("C18", "the namespace has been stopped but has threads left: %s", strings.Join(u, ", "))
		}
		for _, k := range []string{"delta", "index", "profile"} {
			if w.closes[k] != 1 {
				w.fail("C18", "the %s storage has been closed %d times after the stop", k, w.closes[k])
			}
		}
	}
	for _, q := range w.reqs {
		var se *storageError
		if q.returned && q.err != nil && !errors.As(q.err, &se) && q.handed > 0 {
			w.fail("C17", "%v was executed but returned: %v", q, q.err)
		}
		for _, o := range w.reqs {
			if o.caller == q.caller && o.n < q.n && o.handed > 0 && q.handed > 0 && o.order > q.order {
				w.fail("C17", "%v was executed before %v", q, o)
			}
		}
	}
	if w.p.fifo && e.Preempt == 0 {
		for _, q := range w.reqs {
			for _, o := range w.reqs {
				if o.at < q.at && o.issued && o.handed > 0 && q.handed > 0 && o.order > q.order {
					w.fail("C17", "%v was executed before %v, which had been queued earlier", q, o)
				}
			}
		}
	}
	if w.p.same && e.Preempt == 0 && len(w.p.ends) == 0 && !w.p.preCancel {
		for _, q := range w.reqs {
			if q.caller != "finisher" && q.at == 0 && q.handed > 0 && q.batch != 1 {
				w.fail("C17", "%v was submitted at the same time as others but is in a batch of its own", q)
			}
		}
	}
}

func scenario(prop, name string, bound int, p program, mods ...func(*lib.Scenario)) lib.Scenario {
	if p.lastEnd == nil {
		p.lastEnd = []string{"stop"}
	}
	sc := lib.Scenario{Name: name, Bound: bound}
	dir := os.Getenv("VERIF_SCRATCH") + "/"
	sc.New = func() lib.Program {
		w := &world{p: p, dir: dir, byUser: map[uint64]*request{}, closes: map[string]int{}, bad: map[string]string{}}
		w.ns = domain.NewLikeNamespace(&domain.LikeNamespaceDto{
			Name: parseName("ns"), MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: dir,
			DeltaStorageFactory: deltaFactory{w}, LikeStorageFactory: likeFactory{w}, IndexStorageFactory: indexFactory{w},
		})
		for i, c := range p.callers {
			for _, o := range c {
				w.add(fmt.Sprintf("caller%d", i), o)
			}
		}
		for _, o := range p.after {
			w.add("finisher", o)
		}
		return lib.Program{
			Body: w.body,
			After: func(e *mc.Exec) {
				if w.startErr != nil {
					// Not this check's subject, but nothing else can be judged.
					lib.Failf("start", "the namespace does not start: %v", w.startErr)
				}
				w.judgeEnd(e)
				if m, ok := w.bad[prop]; ok {
					lib.Failf("schedule", "%s", m)
				}
			},
			OnTimer: w.onTimer,
		}
	}
	for _, m := range mods {
		m(&sc)
	}
	return sc
}

func queueCap(n int) func(*lib.Scenario) { return func(s *lib.Scenario) { s.QueueCap = n } }
func delay(s *lib.Scenario)              { s.Delay = true }

// idents are user and item identifiers at the edges of their range.
var idents = []uint64{0, 1<<64 - 1, 1, 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, 7}

func seq(ks ...kind) []op {
	var out []op
	for _, k := range ks {
		out = append(out, op{k: k})
	}
	return out
}

func many(n int, k kind) [][]op {
	var out [][]op
	for i := 0; i < n; i++ {
		out = append(out, []op{{k: k}})
	}
	return out
}

const nsRule = "Every schedule of the real namespace code (channel, lock, timer and memory-access points rewritten to a controlled scheduler) with the stated number of caller, stop and cancel threads, up to the stated preemption (or delay) bound; each schedule runs to quiescence and is judged against the answers a recording storage gave."

var nsAssumptions = []string{
	"sequentially consistent memory; preemption only at channel, lock, timer operations and at statements that access shared memory",
	"the storages are recording stand-ins except where the scenario says the repository's own profile storage is used",
	"a storage answers every action it is handed",
}

func init() {
	b := func(thorough bool, quick, deep int) int {
		if thorough {
			return deep
		}
		return quick
	}
	all := []kind{deleteProfile, getProfile, like, dislike, deleteItem, getSimilar, recommend}
	checks["C16"] = lib.Check{Level: "model_checking", Rule: nsRule, Assumptions: nsAssumptions,
		Scenarios: func(th bool) []lib.Scenario {
			s := []lib.Scenario{}
			add := func(name string, bound int, p program, mods ...func(*lib.Scenario)) {
				s = append(s, scenario("C16", name, bound, p, mods...))
			}
			for _, k := range all {
				add("one "+kindNames[k]+" and stop", b(th, 2, 3), program{callers: [][]op{{{k: k}}}, ends: []end{{what: "stop"}}, after: seq(k)})
				add("one failing "+kindNames[k]+" and cancel", b(th, 2, 3), program{callers: [][]op{{{k: k, fail: true}}}, ends: []end{{what: "cancel"}}, after: seq(k)})
				add("one "+kindNames[k]+" of the repository's storage", 1, program{callers: [][]op{{{k: k}, {k: k}}}, real: true})
			}
			add(fmt.Sprintf("every batch of %d requests to the repository's storage", b(th, 4, 5)), 0, program{pick: b(th, 4, 5), real: true, ids: idents, same: true}, delay)
			add("every batch of three requests answered in reverse", 0, program{pick: 3, reverse: true, ids: idents[1:], same: true}, delay)
			stop, cancel := []end{{what: "stop"}}, []end{{what: "cancel"}}
			both := []end{{what: "stop"}, {what: "cancel"}}
			for i, k := range all {
				for j, l := range all {
					add("failing "+kindNames[k]+" and "+kindNames[l], b(th, 1, 2), program{callers: [][]op{{{k: k, fail: true}}, seq(l)}})
					if i <= j {
						add(kindNames[k]+" and "+kindNames[l]+" answered in reverse", b(th, 1, 2), program{callers: [][]op{seq(k), {{k: l, fail: j > 3}}}, reverse: true})
					}
				}
			}
			add("two callers, stop", b(th, 2, 3), program{callers: [][]op{seq(like, getProfile), seq(recommend)}, ends: stop, after: seq(dislike)})
			add("two callers, cancel", b(th, 1, 2), program{callers: [][]op{seq(getSimilar), seq(deleteItem)}, ends: cancel, after: seq(getProfile)})
			add("two callers, two stops", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, ends: []end{{what: "stop"}, {what: "stop"}}, lastEnd: []string{"stop", "cancel"}})
			add("two callers, stop and cancel", b(th, 0, 1), program{callers: [][]op{seq(dislike), seq(getProfile)}, ends: both, lastEnd: []string{"cancel", "stop"}})
			add("stop during the batch wait", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getSimilar), seq(recommend)}, ends: []end{{what: "stop", wait: 20 * time.Millisecond}}})
			add("cancelled before start", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, preCancel: true, after: seq(recommend)})
			add("queue of one, three callers, stop", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile), seq(deleteItem)}, ends: stop}, queueCap(1))
			add("two callers, stop and cancel (delays)", b(th, 4, 5), program{callers: [][]op{seq(dislike), seq(getProfile)}, ends: both, lastEnd: []string{"cancel", "stop"}}, delay)
			add("cancel during the batch wait (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(getSimilar, dislike), seq(recommend)}, ends: []end{{what: "cancel", wait: 20 * time.Millisecond}}}, delay)
			add("three callers, no stop (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), {{k: getProfile, fail: true}, {k: deleteProfile, fail: true}}}}, delay)
			add("three callers, stop (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: stop}, delay)
			add("three callers of the repository's storage, stop (delays)", b(th, 3, 4), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: stop, real: true}, delay)
			add("queue of one, three callers, cancel (delays)", b(th, 4, 5), program{callers: [][]op{seq(like), seq(getProfile), seq(deleteItem)}, ends: cancel}, queueCap(1), delay)
			add("queue of one, four callers, stop and cancel (delays)", b(th, 3, 5), program{callers: many(4, like), ends: both}, queueCap(1), delay)
			add("queue of two, five callers, stop (delays)", b(th, 3, 5), program{callers: many(5, recommend), ends: stop}, queueCap(2), delay)
			add("104 callers, stop (delays)", b(th, 1, 2), program{callers: many(104, like), ends: stop}, delay)
			add("104 callers, cancel (delays)", b(th, 1, 2), program{callers: many(104, getProfile), ends: cancel}, delay)
			return s
		}, Fn: func(r *lib.Run) { r.Schedules() }}

	ms := time.Millisecond
	checks["C17"] = lib.Check{Level: "model_checking", Rule: nsRule, Assumptions: nsAssumptions,
		Scenarios: func(th bool) []lib.Scenario {
			s := []lib.Scenario{}
			add := func(name string, bound int, p program, mods ...func(*lib.Scenario)) {
				s = append(s, scenario("C17", name, bound, p, mods...))
			}
			stop, cancel := []end{{what: "stop"}}, []end{{what: "cancel"}}
			add(fmt.Sprintf("every batch of %d requests arriving one by one", b(th, 4, 5)), 0, program{pick: b(th, 4, 5), stagger: ms, ids: idents[2:], fifo: true}, delay)
			add("every three requests arriving in different batches", 0, program{pick: 3, stagger: 26 * ms, ids: idents, fifo: true}, delay)
			for _, k := range all {
				add("two "+kindNames[k]+" callers", b(th, 1, 2), program{callers: [][]op{seq(k), {{k: k, fail: true}}}, same: true})
			}
			add("one caller, seven requests", b(th, 2, 3), program{callers: [][]op{seq(all...)}})
			add("three callers, one request each", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile), seq(deleteItem)}, same: true})
			add("two callers, two requests each, stop", b(th, 1, 2), program{callers: [][]op{seq(like, dislike), seq(getProfile, like)}, ends: stop})
			add("two callers, cancel", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, ends: cancel})
			add("stop during the batch wait", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getSimilar), {{k: recommend, wait: 10 * ms}}}, ends: []end{{what: "stop", wait: 20 * ms}}})
			add("arrivals over time", b(th, 0, 1), program{callers: [][]op{{{k: like}}, {{k: dislike, wait: 10 * ms}}, {{k: getProfile, wait: 49 * ms}}, {{k: deleteItem, wait: 60 * ms}}, {{k: like, wait: 99 * ms}}}})
			add("arrivals over time in order", b(th, 0, 1), program{callers: [][]op{{{k: recommend}}, {{k: getSimilar, wait: 10 * ms}}, {{k: deleteItem, wait: 20 * ms}}, {{k: dislike, wait: 49 * ms}}, {{k: like, wait: 51 * ms}}, {{k: getProfile, wait: 60 * ms}}, {{k: deleteProfile, wait: 99 * ms}}}, fifo: true}, delay)
			for _, n := range []int{8, 16, 33, 65, 100} {
				var c [][]op
				for i := 0; i < n; i++ {
					c = append(c, []op{{k: all[i%len(all)], wait: time.Duration(i) * 400 * time.Microsecond}})
				}
				add(fmt.Sprintf("%d arrivals in order within one batch wait", n), 0, program{callers: c, fifo: true}, delay)
			}
			add("arrivals over time, repeated", b(th, 0, 1), program{callers: [][]op{{{k: like}, {k: dislike, wait: 10 * ms}, {k: like, wait: 30 * ms}}, {{k: getProfile, wait: 5 * ms}, {k: deleteItem, wait: 5 * ms}}, {{k: getSimilar, wait: 70 * ms}, {k: recommend}}}})
			add("four callers, two requests each (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, dislike), seq(getProfile, like), seq(deleteItem, recommend), seq(deleteProfile, getSimilar)}}, delay)
			add("three callers, two requests each, stop (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, dislike), seq(getProfile, like), seq(deleteItem, recommend)}, ends: stop}, delay)
			add("three callers, two requests each, cancel (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, dislike), seq(getProfile, like), seq(deleteItem, recommend)}, ends: []end{{what: "cancel", wait: 50 * ms}}}, delay)
			add("queue of two, four callers, stop (delays)", b(th, 4, 5), program{callers: many(4, like), ends: stop}, queueCap(2), delay)
			add("103 callers, two requests each (delays)", 1, program{callers: func() [][]op {
				var c [][]op
				for i := 0; i < 103; i++ {
					c = append(c, seq(like, getProfile))
				}
				return c
			}()}, delay)
			add("101 callers at once (delays)", b(th, 1, 2), program{callers: many(101, like), same: true}, delay)
			add("103 callers, stop during the batch wait (delays)", 1, program{callers: many(103, like), ends: []end{{what: "stop", wait: 20 * ms}}}, delay)
			return s
		}, Fn: func(r *lib.Run) { r.Schedules() }}
	checks["C18"] = lib.Check{Level: "model_checking", Rule: nsRule, Assumptions: nsAssumptions,
		Scenarios: func(th bool) []lib.Scenario {
			s := []lib.Scenario{}
			add := func(name string, bound int, p program, mods ...func(*lib.Scenario)) {
				s = append(s, scenario("C18", name, bound, p, mods...))
			}
			stop, cancel := []end{{what: "stop"}}, []end{{what: "cancel"}}
			both := []end{{what: "stop"}, {what: "cancel"}}
			add("idle, stop", b(th, 3, 4), program{ends: stop})
			add("idle, cancel", b(th, 3, 4), program{ends: cancel})
			add("idle, two stops", b(th, 2, 3), program{ends: []end{{what: "stop"}, {what: "stop"}}})
			add("idle, stop and cancel", b(th, 2, 3), program{ends: both})
			add("cancelled before start", b(th, 3, 4), program{preCancel: true})
			add("cancelled before start, one caller, stop", b(th, 2, 3), program{callers: [][]op{seq(like)}, preCancel: true, ends: stop})
			add("one caller, stop", b(th, 2, 3), program{callers: [][]op{seq(like, getProfile)}, ends: stop})
			add("one caller, cancel", b(th, 2, 3), program{callers: [][]op{seq(like)}, ends: cancel})
			add("one caller, stop and cancel", b(th, 1, 2), program{callers: [][]op{seq(like)}, ends: both})
			add("two callers, stop", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, ends: stop})
			add("two callers, stop during the batch wait", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, ends: []end{{what: "stop", wait: 20 * ms}}})
			add("two callers, cancel during the batch wait", b(th, 1, 2), program{callers: [][]op{seq(like), seq(getProfile)}, ends: []end{{what: "cancel", wait: 20 * ms}}})
			add("two callers, cancel after the first batch", b(th, 1, 2), program{callers: [][]op{seq(like), {{k: getProfile, wait: 55 * ms}}}, ends: []end{{what: "cancel", wait: 52 * ms}}})
			add("three callers, stop (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: stop}, delay)
			add("three callers, cancel (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend), seq(deleteItem, getSimilar)}, ends: cancel}, delay)
			add("two callers, stop and cancel (delays)", b(th, 4, 5), program{callers: [][]op{seq(like, getProfile), seq(dislike, recommend)}, ends: both}, delay)
			add("queue of one, four callers, stop (delays)", b(th, 4, 5), program{callers: many(4, like), ends: stop}, queueCap(1), delay)
			add("queue of one, four callers, cancel (delays)", b(th, 4, 5), program{callers: many(4, like), ends: cancel}, queueCap(1), delay)
			add("104 callers, stop (delays)", b(th, 1, 2), program{callers: many(104, like), ends: stop}, delay)
			return s
		}, Fn: func(r *lib.Run) { r.Schedules() }}
}
