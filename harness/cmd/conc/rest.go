//go:build go1.24

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"

	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

// hcall is one HTTP request.
type hcall struct {
	op         mop // create, update, get, list
	invalid    bool
	n          int // identity of what it creates
	thread     string
	begin, end int
	code       int
	body       []byte
	shown      []hshown
	done       bool
}

type hshown struct {
	Name   string   `json:"name"`
	Type   string   `json:"type"`
	Limit  uint     `json:"maxSimilarProfiles"`
	Factor *float32 `json:"dislikeFactor"`
}

func (c *hcall) String() string {
	if c.invalid {
		return "invalid " + c.op.String()
	}
	return c.op.String()
}

func (c *hcall) request() (method, path, body string) {
	o := c.op
	if o.what == "raw" {
		f := append(strings.SplitN(o.name, " ", 3), "")
		return f[0], f[1], f[2]
	}
	factor := o.factor
	if c.invalid {
		factor = 1.5
	}
	switch o.what {
	case "create":
		return "POST", "", fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":%v}`, o.name, o.limit, factor)
	case "update":
		return "PUT", "/" + o.name, fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":%v}`, o.to, o.limit, factor)
	case "get":
		return "GET", "/" + o.name, ""
	}
	return "GET", "", ""
}

type hworld struct {
	svc    *domain.NamespaceService
	engine *gin.Engine
	calls  []*hcall
	init   []mop
	names  []string
	time   int
}

//go:norace
func (w *hworld) do(c *hcall) {
	if c.op.what == "vanish" {
		if err := os.RemoveAll(os.Getenv("REC_PATH")); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		c.code = http.StatusCreated
		return
	}
	w.time++
	c.begin = w.time
	mc.Log("%v", c)
	m, p, b := c.request()
	rq, err := http.NewRequest(m, "http://host/api/v1/namespaces"+p, strings.NewReader(b))
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	if m != "GET" {
		rq.Header.Set("Content-Type", "application/json")
	}
	rec := httptest.NewRecorder()
	w.engine.ServeHTTP(rec, rq)
	c.code, c.body = rec.Code, rec.Body.Bytes()
	w.time++
	c.end = w.time
	c.done = true
	mc.Log("%v: %d %s", c, c.code, c.body)
}

// read decodes a successful answer.
func (c *hcall) read() {
	if c.code/100 != 2 {
		if c.code < 400 || c.code > 499 {
			lib.Failf("status", "%v is answered with %d %q", c, c.code, c.body)
		}
		return
	}
	want := http.StatusOK
	if c.op.what == "create" {
		want = http.StatusCreated
	}
	if c.code != want {
		lib.Failf("status", "%v is answered with %d %q", c, c.code, c.body)
	}
	var err error
	if c.op.what == "list" {
		err = json.Unmarshal(c.body, &c.shown)
	} else {
		c.shown = make([]hshown, 1)
		err = json.Unmarshal(c.body, &c.shown[0])
	}
	if err != nil {
		lib.Failf("body", "%v is answered with %d %q: %v", c, c.code, c.body, err)
	}
	for _, x := range c.shown {
		if x.Type != "like" {
			lib.Failf("body", "%v is answered with %d %q", c, c.code, c.body)
		}
	}
}

// regular tells whether every value the answer shows was the value of that
// namespace at some moment of the request.
func (x *hshown) regular(id int, states [][]reg) bool {
	name, limit, factor := false, false, x.Factor == nil
	for _, s := range states {
		for _, r := range s {
			if r.id == id {
				name = name || r.name == x.Name
				limit = limit || r.limit == x.Limit
				factor = factor || r.factor == *x.Factor
			}
		}
	}
	return name && limit && factor
}

func (w *hworld) judge(e *mc.Exec) {
	for _, n := range w.names {
		if !e.Ended(n) {
			lib.Failf("hang", "%s never returns (%s)", n, e.Waiting(n))
		}
	}
	for _, c := range w.calls {
		c.read()
	}
	listed := describeReg(w.svc.GetNamespaces())
	fresh := domain.NewNamespaceService(context.Background(), deltaFactory{}, indexFactory{})
	if err := fresh.LoadNamespaces(); err != nil {
		lib.Failf("saved", "the saved registry cannot be loaded: %v (listed: %v)", err, listed)
	}
	if saved := describeReg(fresh.GetNamespaces()); strings.Join(saved, ";") != strings.Join(listed, ";") {
		lib.Failf("saved", "the saved registry holds %v, the service lists %v", saved, listed)
	}
	var state []reg
	for i, o := range w.init {
		state, _ = o.apply(state, i+1)
	}
	calls := w.calls
	states := [][]reg{state}
	order := []*hcall{}
	ids := []string{} // what the calls addressed
	used := make([]bool, len(calls))
	// explained compares the answers with the order found.
	explained := func() bool {
		var l []string
		for _, r := range states[len(states)-1] {
			l = append(l, fmt.Sprintf("%s/like limit %d factor %v", r.name, r.limit, r.factor))
		}
		sort.Strings(l)
		if strings.Join(l, ";") != strings.Join(listed, ";") {
			return false
		}
		for k, c := range order {
			if c.code/100 != 2 {
				continue
			}
			// The states of the registry while the request was served.
			lo, hi := 0, len(order)
			for j, d := range order {
				if d.end < c.begin {
					lo = j + 1
				}
			}
			for j := len(order) - 1; j >= 0 && order[j].begin > c.end; j-- {
				hi = j
			}
			during := states[lo : hi+1]
			f := strings.Fields(ids[k])
			if len(f) != len(c.shown) {
				return false
			}
			taken := make([]bool, len(f))
			var match func(i int) bool
			match = func(i int) bool {
				if i == len(f) {
					return true
				}
				var id int
				fmt.Sscan(f[i], &id)
				for j := range c.shown {
					if !taken[j] && c.shown[j].regular(id, during) {
						taken[j] = true
						if match(i + 1) {
							return true
						}
						taken[j] = false
					}
				}
				return false
			}
			if !match(0) {
				return false
			}
		}
		return true
	}
	var search func(n int) bool
	search = func(n int) bool {
		if n == len(calls) {
			return explained()
		}
		for i, c := range calls {
			if used[i] {
				continue
			}
			first := true
			for j, d := range calls {
				if !used[j] && j != i && d.end < c.begin {
					first = false
				}
			}
			if !first {
				continue
			}
			s := states[len(states)-1]
			s2, r := s, result{err: true}
			if !c.invalid {
				s2, r = c.op.apply(s, c.n)
			}
			ok := !r.err && !(c.op.what == "get" && r.ids == "")
			if ok != (c.code/100 == 2) {
				continue
			}
			used[i] = true
			states, order, ids = append(states, s2), append(order, c), append(ids, r.ids)
			found := search(n + 1)
			states, order, ids = states[:len(states)-1], order[:len(order)-1], ids[:len(ids)-1]
			used[i] = false
			if found {
				return true
			}
		}
		return false
	}
	if !search(0) {
		var l []string
		for _, c := range calls {
			l = append(l, fmt.Sprintf("%s: %v -> %d %s", c.thread, c, c.code, strings.Join(strings.Fields(string(c.body)), " ")))
		}
		lib.Failf("order", "no order of the requests explains: %s; final registry %v", strings.Join(l, "; "), listed)
	}
}

type hop struct {
	mop
	invalid bool
}

func (o hop) String() string {
	if o.invalid {
		return "invalid " + o.mop.String()
	}
	return o.mop.String()
}

func hscenario(bound int, init []mop, threads [][]hop) lib.Scenario {
	dir := os.Getenv("VERIF_SCRATCH") + "/"
	for _, o := range init {
		if o.what == "vanish" {
			dir += "data/" // can do without
		}
	}
	var titles []string
	for _, t := range threads {
		titles = append(titles, strings.Trim(fmt.Sprint(t), "[]"))
	}
	return lib.Scenario{Name: strings.Join(titles, " | "), Bound: bound, Group: shape(threads), New: func() lib.Program {
		os.Setenv("REC_PATH", dir)
		os.Mkdir(dir, 0755)
		l, _ := os.ReadDir(dir)
		for _, e := range l {
			os.Remove(dir + e.Name())
		}
		w := &hworld{init: init}
		w.svc = domain.NewNamespaceService(context.Background(), deltaFactory{}, indexFactory{})
		w.engine = gin.New()
		endpoints.NewNamespaceEndpoint(w.svc).RegisterRoutes(w.engine)
		for i, t := range threads {
			for _, o := range t {
				w.calls = append(w.calls, &hcall{op: o.mop, invalid: o.invalid, n: len(init) + len(w.calls) + 1, thread: fmt.Sprintf("client%d", i)})
			}
		}
		return lib.Program{
			Body: func() {
				for _, o := range init {
					c := &hcall{op: o}
					if w.do(c); c.code != http.StatusCreated {
						mc.Failf("%v is answered with %d %q", o, c.code, c.body)
					}
				}
				for i := range threads {
					n := fmt.Sprintf("client%d", i)
					w.names = append(w.names, n)
					mc.GoNamed(n, func() {
						for _, c := range w.calls {
							if c.thread == n {
								w.do(c)
							}
						}
					})
				}
			},
			After: w.judge,
		}
	}}
}

var httpRequests = []hop{
	{mop{what: "create", name: "a", limit: 3, factor: 0.125}, false},
	{mop{what: "create", name: "c", limit: 4, factor: 0.75}, false},
	{mop{what: "create", name: "c", limit: 5, factor: 1}, false},
	{mop{what: "update", name: "a", to: "a", limit: 6, factor: 0.0625}, false},
	{mop{what: "update", name: "a", to: "c", limit: 7, factor: 0.875}, false},
	{mop{what: "update", name: "b", to: "c", limit: 8, factor: 0.375}, false},
	{mop{what: "update", name: "b", to: "a", limit: 9, factor: 0.625}, false},
	{mop{what: "update", name: "c", to: "c", limit: 10, factor: 0}, false},
	{mop{what: "update", name: "c", to: "d", limit: 13, factor: 0.1875}, false},
	{mop{what: "get", name: "a"}, false},
	{mop{what: "get", name: "b"}, false},
	{mop{what: "get", name: "c"}, false},
	{mop{what: "list"}, false},
	{mop{what: "create", name: "d", limit: 11, factor: 0.5}, true},
	{mop{what: "update", name: "a", to: "a", limit: 12, factor: 0.5}, true},
}

func init() {
	gin.SetMode(gin.ReleaseMode)
	start, ops := twoNamespaces, httpRequests
	checks["C31"] = lib.Check{Level: "model_checking",
		Rule: "Every schedule up to the stated preemption bound of every pair and triple of HTTP requests from a fixed set of 15 (colliding names, two of them invalid), served by the real endpoints, router and service with two namespaces, and of pairs of clients with two requests each; one sequential order of the requests that respects real time must explain every status, the namespaces shown, the final registry and the saved one.",
		Assumptions: []string{
			"sequentially consistent memory; preemption at lock operations and at statements that access shared memory",
			"requests are handed to the router directly, without a network",
			"an answer may combine values that the namespace had at different moments of the request",
		},
		Scenarios: func(th bool) []lib.Scenario {
			var s []lib.Scenario
			b2, b3 := 2, 1
			if th {
				b2, b3 = 3, 2
			}
			for i := range ops {
				for j := i; j < len(ops); j++ {
					s = append(s, hscenario(b2, start, [][]hop{{ops[i]}, {ops[j]}}))
					for k := j; k < len(ops); k++ {
						s = append(s, hscenario(b3, start, [][]hop{{ops[i]}, {ops[j]}, {ops[k]}}))
					}
				}
			}
			for i := range ops {
				for j := range ops {
					for _, k := range []int{3, 4, 6, 9, 12} {
						s = append(s, hscenario(b3, start, [][]hop{{ops[i], ops[j]}, {ops[k]}}))
						if th {
							s = append(s, hscenario(1, start, [][]hop{{ops[i], ops[j]}, {ops[k], ops[1]}}))
						}
					}
				}
			}
			return s
		}, Fn: func(r *lib.Run) { r.Schedules() }}
}
