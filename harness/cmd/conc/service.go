//go:build go1.24

package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

func parseName(s string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	return n
}

// mop is one management call.
type mop struct {
	what   string // create, update, delete, get, list, save, start; vanish, return; look; raw
	name   string
	to     string
	limit  uint
	factor float32
}

func (o mop) String() string {
	switch o.what {
	case "create":
		return fmt.Sprintf("create(%s, %d, %v)", o.name, o.limit, o.factor)
	case "update":
		return fmt.Sprintf("update(%s to %s, %d, %v)", o.name, o.to, o.limit, o.factor)
	case "list", "save", "start", "look":
		return o.what
	case "raw":
		return o.name
	case "vanish":
		return "the data directory vanishes"
	case "return":
		return "the data directory is back"
	}
	return fmt.Sprintf("%s(%s)", o.what, o.name)
}

// reg is the model's namespace.
type reg struct {
	id     int
	name   string
	limit  uint
	factor float32
}

// result is what a call returned; namespaces are known by identity.
type result struct {
	err bool
	ids string // namespaces returned, in order of identity
}

// apply runs the call on the model. id is the identity a creation gets.
func (o mop) apply(s []reg, id int) ([]reg, result) {
	find := func(n string) int {
		for i := range s {
			if s[i].name == n {
				return i
			}
		}
		return -1
	}
	switch o.what {
	case "create":
		if find(o.name) >= 0 {
			return s, result{err: true}
		}
		return append(append([]reg{}, s...), reg{id, o.name, o.limit, o.factor}), result{ids: fmt.Sprint(id)}
	case "update":
		i := find(o.name)
		if i < 0 || o.to != o.name && find(o.to) >= 0 {
			return s, result{err: true}
		}
		s = append([]reg{}, s...)
		s[i].name, s[i].limit, s[i].factor = o.to, o.limit, o.factor
		return s, result{ids: fmt.Sprint(s[i].id)}
	case "delete":
		i := find(o.name)
		if i < 0 {
			return s, result{err: true}
		}
		return append(append([]reg{}, s[:i]...), s[i+1:]...), result{}
	case "get":
		if i := find(o.name); i >= 0 {
			return s, result{ids: fmt.Sprint(s[i].id)}
		}
		return s, result{}
	case "list":
		var l []int
		for _, r := range s {
			l = append(l, r.id)
		}
		return s, result{ids: idList(l)}
	}
	return s, result{}
}

// registry is the model's state.
type registry struct {
	list []reg
	gone bool // there is no directory to save in
}

// step runs the call on the model. What cannot be saved fails and changes
// nothing.
func (o mop) step(s registry, id int) (registry, result) {
	l, r := o.apply(s.list, id)
	switch o.what {
	case "vanish":
		s.gone = true
	case "return":
		s.gone = false
	case "create", "update", "delete", "save":
		if s.gone {
			return s, result{err: true}
		}
	}
	s.list = l
	return s, r
}

func idList(l []int) string {
	sort.Ints(l)
	return strings.Trim(fmt.Sprint(l), "[]")
}

// mcall is one executed call.
type mcall struct {
	op         mop
	n          int // identity of what it creates
	thread     string
	begin, end int
	got        result
	done       bool
}

type sworld struct {
	svc   *domain.NamespaceService
	calls []*mcall
	ids   map[domain.Namespace]int
	time  int
	bad   string
	init  []mop
	names []string
	dir   string             // the data directory, if it may vanish
	away  string             // where it is then
	kept  []domain.Namespace // listed in the beginning
}

func (w *sworld) id(ns domain.Namespace) int {
	if n, ok := w.ids[ns]; ok {
		return n
	}
	// First seen in a list or look-up: the creation has not returned yet.
	n := 1000 + len(w.ids)
	w.ids[ns] = n
	return n
}

func (w *sworld) do(c *mcall) {
	w.time++
	c.begin = w.time
	mc.Log("%v", c.op)
	switch o := c.op; o.what {
	case "create":
		ns, err := w.svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parseName(o.name), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: o.limit, DislikeFactor: o.factor})
		c.got.err = err != nil
		if err == nil {
			if old, ok := w.ids[ns]; ok && old >= 1000 {
				// Others have seen it under a provisional identity.
				for _, k := range w.calls {
					f := strings.Fields(k.got.ids)
					var l []int
					for _, x := range f {
						var n int
						fmt.Sscan(x, &n)
						if n == old {
							n = c.n
						}
						l = append(l, n)
					}
					if len(f) > 0 {
						k.got.ids = idList(l)
					}
				}
			}
			w.ids[ns] = c.n
			c.got.ids = fmt.Sprint(c.n)
		}
	case "update":
		ns, err := w.svc.UpdateNamespace(parseName(o.name), &domain.NamespaceUpdateRequest{Name: parseName(o.to), MaxSimilarProfiles: o.limit, DislikeFactor: o.factor})
		c.got.err = err != nil
		if err == nil {
			c.got.ids = fmt.Sprint(w.id(ns))
		}
	case "delete":
		c.got.err = w.svc.DeleteNamespace(parseName(o.name)) != nil
	case "get":
		if ns := w.svc.GetNamespaceByName(parseName(o.name)); ns != nil {
			c.got.ids = fmt.Sprint(w.id(ns))
		}
	case "list":
		var l []int
		for _, ns := range w.svc.GetNamespaces() {
			if ns == nil {
				w.bad = "the list contains a nil namespace"
				continue
			}
			l = append(l, w.id(ns))
		}
		c.got.ids = idList(l)
	case "start":
		ctx, cancel := context.WithCancel(context.Background())
		mc.AtEnd(cancel)
		c.got.err = w.svc.Start(ctx) != nil
	case "look":
		for _, ns := range w.kept {
			ns.GetName()
			ns.GetType()
			ns.GetMaxSimilarProfiles()
			ns.GetDislikeFactor()
		}
	case "vanish":
		if err := os.Rename(w.dir, w.away); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
	case "return":
		if err := os.Rename(w.away, w.dir); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
	case "save":
		c.got.err = w.svc.SaveNamespaces() != nil
	}
	w.time++
	c.end = w.time
	c.done = true
	mc.Log("%v returned %+v", c.op, c.got)
}

func describeReg(list []domain.Namespace) []string {
	var out []string
	for _, ns := range list {
		out = append(out, fmt.Sprintf("%s/%s limit %d factor %v", ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()))
	}
	sort.Strings(out)
	return out
}

// judge looks for an order of the calls that explains every result and the
// final registry.
func (w *sworld) judge(e *mc.Exec) {
	for _, n := range w.names {
		if !e.Ended(n) {
			lib.Failf("hang", "%s never returns (%s)", n, e.Waiting(n))
		}
	}
	if w.bad != "" {
		lib.Failf("list", "%s", w.bad)
	}
	if w.dir != "" {
		if _, err := os.Stat(w.away); err == nil {
			os.Rename(w.away, w.dir)
		}
	}
	final := w.svc.GetNamespaces()
	listed := describeReg(final)
	var finalIDs []string
	names := map[string]bool{}
	for _, ns := range final {
		n := ns.GetName().Value()
		if names[n] {
			lib.Failf("duplicate", "two namespaces are named %s: %v", n, listed)
		}
		names[n] = true
		finalIDs = append(finalIDs, fmt.Sprintf("%d %s %d %v", w.id(ns), n, ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()))
	}
	sort.Strings(finalIDs)
	// Looked up twice: neither answer may depend on earlier look-ups.
	for i := 0; i < 2; i++ {
		for _, n := range []string{"a", "b", "c", "d"} {
			var in domain.Namespace
			for _, ns := range final {
				if ns.GetName().Value() == n {
					in = ns
				}
			}
			if got := w.svc.GetNamespaceByName(parseName(n)); got != in {
				lib.Failf("lookup", "looking up %s afterwards finds %v, the service lists %v", n, got != nil, listed)
			}
		}
	}
	want := strings.Join(finalIDs, "; ")
	fresh := domain.NewNamespaceService(context.Background(), deltaFactory{}, indexFactory{})
	if err := fresh.LoadNamespaces(); err != nil {
		lib.Failf("saved", "the saved registry cannot be loaded: %v (listed: %v)", err, listed)
	}
	if saved := describeReg(fresh.GetNamespaces()); strings.Join(saved, ";") != strings.Join(listed, ";") {
		lib.Failf("saved", "the saved registry holds %v, the service lists %v", saved, listed)
	}
	var state registry
	id := 0
	for _, o := range w.init {
		id++
		state, _ = o.step(state, id)
	}
	calls := w.calls
	used := make([]bool, len(calls))
	var search func(s registry, n int) bool
	search = func(s registry, n int) bool {
		if n == len(calls) {
			var l []string
			for _, r := range s.list {
				l = append(l, fmt.Sprintf("%d %s %d %v", r.id, r.name, r.limit, r.factor))
			}
			sort.Strings(l)
			return strings.Join(l, "; ") == want
		}
		for i, c := range calls {
			if used[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !used[j] && j != i && d.end < c.begin {
					first = false // d returned before c was called
				}
			}
			if !first {
				continue
			}
			s2, r := c.op.step(s, c.n)
			if r != c.got {
				continue
			}
			used[i] = true
			if search(s2, n+1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	if !search(state, 0) {
		var l []string
		for _, c := range calls {
			l = append(l, fmt.Sprintf("%s: %v -> error %v, namespaces [%s]", c.thread, c.op, c.got.err, c.got.ids))
		}
		lib.Failf("order", "no order of the calls explains: %s; final registry %v", strings.Join(l, "; "), listed)
	}
}

// shape describes how many calls each thread makes.
func shape[T any](threads [][]T) string {
	var l []string
	for _, t := range threads {
		l = append(l, fmt.Sprint(len(t)))
	}
	return fmt.Sprintf("%d threads, calls: %s", len(threads), strings.Join(l, "+"))
}

func mscenario(name string, bound int, init []mop, threads [][]mop) lib.Scenario {
	dir := os.Getenv("VERIF_SCRATCH") + "/"
	return lib.Scenario{Name: name, Bound: bound, Group: shape(threads), New: func() lib.Program {
		os.Setenv("REC_PATH", dir)
		os.Remove(dir + "namespaces.json")
		w := &sworld{ids: map[domain.Namespace]int{}, init: init}
		return w.program(threads)
	}}
}

// unsaved is mscenario with a data directory that can vanish.
func unsaved(name string, bound int, init []mop, threads [][]mop) lib.Scenario {
	dir := os.Getenv("VERIF_SCRATCH")
	return lib.Scenario{Name: name, Bound: bound, Group: shape(threads) + " with a vanishing directory", New: func() lib.Program {
		w := &sworld{ids: map[domain.Namespace]int{}, init: init, dir: dir + "/data", away: dir + "/away"}
		for _, d := range []string{w.dir, w.away} {
			if err := os.RemoveAll(d); err != nil {
				panic("VERIF-INTERNAL: " + err.Error())
			}
		}
		if err := os.Mkdir(w.dir, 0755); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		os.Setenv("REC_PATH", w.dir+"/")
		return w.program(threads)
	}}
}

func (w *sworld) program(threads [][]mop) lib.Program {
	w.svc = domain.NewNamespaceService(context.Background(), deltaFactory{}, indexFactory{})
	for i, t := range threads {
		for _, o := range t {
			w.calls = append(w.calls, &mcall{op: o, n: len(w.init) + len(w.calls) + 1, thread: fmt.Sprintf("thread%d", i)})
		}
	}
	return lib.Program{
		Body: func() {
			for i, o := range w.init {
				c := &mcall{op: o, n: i + 1}
				if w.do(c); c.got.err {
					mc.Failf("%v fails", o)
				}
			}
			w.kept = w.svc.GetNamespaces()
			for i := range threads {
				n := fmt.Sprintf("thread%d", i)
				w.names = append(w.names, n)
				mc.GoNamed(n, func() {
					for _, c := range w.calls {
						if c.thread == n {
							w.do(c)
						}
					}
				})
			}
		},
		After: w.judge,
	}
}

var twoNamespaces = []mop{{what: "create", name: "a", limit: 1, factor: 0.25}, {what: "create", name: "b", limit: 2, factor: 0.5}}

var managementCalls = []mop{
	{what: "create", name: "a", limit: 3, factor: 0.125},
	{what: "create", name: "c", limit: 4, factor: 0.75},
	{what: "create", name: "c", limit: 5, factor: 1},
	{what: "update", name: "a", to: "a", limit: 6, factor: 0.0625},
	{what: "update", name: "a", to: "c", limit: 7, factor: 0.875},
	{what: "update", name: "b", to: "c", limit: 8, factor: 0.375},
	{what: "update", name: "b", to: "a", limit: 9, factor: 0.625},
	{what: "delete", name: "a"},
	{what: "delete", name: "b"},
	{what: "get", name: "a"},
	{what: "get", name: "b"},
	{what: "get", name: "c"},
	{what: "list"},
	{what: "save"},
}

func init() {
	start, ops := twoNamespaces, managementCalls
	name := func(t ...[]mop) string {
		var l []string
		for _, o := range t {
			l = append(l, strings.Trim(fmt.Sprint(o), "[]"))
		}
		return strings.Join(l, " | ")
	}
	checks["C20"] = lib.Check{Level: "model_checking",
		Rule: "Every schedule up to the stated preemption bound of every pair and triple of management calls from a fixed set of 14 (colliding names) on a service with two namespaces, and of pairs of threads with two calls each; the results, the final registry and the reloaded saved registry of each schedule must be explained by one sequential order that respects real time.",
		Assumptions: []string{
			"sequentially consistent memory; preemption at lock operations and at statements that access shared memory",
			"listed namespaces are compared by identity; their settings are compared in the final registry",
		},
		Scenarios: func(th bool) []lib.Scenario {
			var s []lib.Scenario
			b2, b3 := 2, 1
			if th {
				b2, b3 = 3, 2
			}
			for i := range ops {
				for j := i; j < len(ops); j++ {
					t := [][]mop{{ops[i]}, {ops[j]}}
					s = append(s, mscenario(name(t...), b2, start, t))
					for k := j; k < len(ops); k++ {
						t := [][]mop{{ops[i]}, {ops[j]}, {ops[k]}}
						s = append(s, mscenario(name(t...), b3, start, t))
					}
				}
			}
			for _, t := range [][][]mop{
				{{ops[9], ops[9]}, {ops[10], ops[10]}},
				{{ops[9], ops[7]}, {ops[10], ops[8]}},
				{{ops[9], ops[3]}, {ops[10]}},
			} {
				s = append(s, mscenario(name(t...), b2, start, t))
			}
			change := ops[:9]
			for i := range change {
				for j := range change {
					for k := range ops {
						if !th && k != 0 && k != 7 && k != 12 {
							continue
						}
						t := [][]mop{{change[i], change[j]}, {ops[k]}}
						s = append(s, mscenario(name(t...), b3, start, t))
						if th {
							for _, l := range []int{1, 4, 12} {
								t := [][]mop{{change[i], change[j]}, {ops[k], ops[l]}}
								s = append(s, mscenario(name(t...), 1, start, t))
							}
						}
					}
				}
			}
			vanish, back := mop{what: "vanish"}, mop{what: "return"}
			for i := range ops {
				for j := i; j < len(ops); j++ {
					for _, t := range [][][]mop{
						{{ops[i]}, {ops[j]}, {vanish}},
						{{ops[i]}, {ops[j]}, {vanish, back}},
					} {
						s = append(s, unsaved(name(t...), b3, start, t))
					}
				}
			}
			for i := range change {
				for k := range ops {
					t := [][]mop{{vanish, change[i], back}, {ops[k]}}
					s = append(s, unsaved(name(t...), b2, start, t))
				}
			}
			return s
		}, Fn: func(r *lib.Run) { r.Schedules() }}
}
