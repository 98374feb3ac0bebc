//go:build go1.24

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"

	"recengine/internal/api/shard"
	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C24"] = lib.Check{Level: "model_checking", Procs: true,
		Rule: "Breadth-first over all sequences of HTTP requests (create, update, get, list; valid and invalid; on colliding names) to the real routes, handlers and service over real files, merged on the registry's state; after every request all namespaces are listed and got, and compared with a reference registry, the service's own list and a registry loaded anew. And every combination of the values of the body's fields, one request each.",
		Assumptions: []string{
			"a name with uppercase letters, underscores or hyphens, a limit that is not a positive integer, and a factor that is rounded into the range may be refused or accepted; an accepted one must be shown faithfully",
			"an update without a limit may keep the limit or set the default one",
		},
		Fn: checkC24,
	}
}

// ent is the model's namespace.
type ent struct {
	name   string
	limit  uint
	factor float32
}

func (e ent) String() string { return fmt.Sprintf("%s/like/%d/%v", e.name, e.limit, e.factor) }

// field is a value of a field of a body, as JSON text; "" leaves it out.
type verdict int

const (
	good verdict = iota
	bad
	open
)

type field struct {
	text    string
	verdict verdict
	name    string // what it means
	num     float64
}

// req is a request.
type req struct {
	method string // POST, PUT, GET
	path   string // below /api/v1/namespaces
	raw    string // the body if it is not made of fields
	name   field
	typ    field
	limit  field
	factor field
	isRaw  bool
	way    *way
}

// way is a way a request may arrive in, other than the usual one.
type way struct {
	title   string
	verdict verdict
	body    func(string) string
	path    func(string) string
	edit    func(*http.Request)
}

// trickle delivers a byte at a time.
type trickle struct{ s string }

func (t *trickle) Read(b []byte) (int, error) {
	if t.s == "" {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	b[0], t.s = t.s[0], t.s[1:]
	return 1, nil
}

func (q *req) body() string {
	if q.isRaw {
		return q.raw
	}
	var l []string
	add := func(k string, f field) {
		if f.text != "" {
			l = append(l, fmt.Sprintf("%q:%s", k, f.text))
		}
	}
	add("name", q.name)
	add("type", q.typ)
	add("maxSimilarProfiles", q.limit)
	add("dislikeFactor", q.factor)
	return "{" + strings.Join(l, ",") + "}"
}

func (q *req) String() string {
	if q.way != nil {
		u := *q
		u.way = nil
		return u.String() + " (" + q.way.title + ")"
	}
	if q.method == "GET" {
		return "GET namespaces" + q.path
	}
	return q.method + " namespaces" + q.path + " " + q.body()
}

const defaultLimit = 1000

// server is the real thing over a directory.
type server struct {
	dir     string
	svc     *domain.NamespaceService
	handler http.Handler
	hidden  []any // other objects that may remember something
}

func newServer(dir string) *server {
	os.Setenv("REC_PATH", dir)
	s := &server{dir: dir, svc: domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())}
	s.handler, s.hidden = handlerOf(shard.NewApplication(&shard.ApplicationDto{Config: &shard.Config{Host: "localhost", Port: 8080}, NsService: s.svc}))
	if s.handler == nil {
		engine := gin.New()
		endpoints.NewNamespaceEndpoint(s.svc).RegisterRoutes(engine)
		s.handler, s.hidden = engine, nil
	}
	return s
}

// handlerOf is what the application's server hands its requests to (nil if it
// is not among the application's fields), and the application's other objects.
func handlerOf(app *shard.Application) (handler http.Handler, others []any) {
	v := reflect.ValueOf(app).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch o := reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().Interface().(type) {
		case *http.Server:
			if o != nil && o.Handler != nil {
				handler = o.Handler
			}
		case http.Handler:
		default:
			if f.Kind() == reflect.Pointer {
				others = append(others, o)
			}
		}
	}
	return
}

func (s *server) send(method, path, body string, w *way) (int, []byte) {
	if w != nil && w.body != nil {
		body = w.body(body)
	}
	if w != nil && w.path != nil {
		path = w.path(path)
	}
	rq, err := http.NewRequest(method, "http://host/api/v1/namespaces"+path, strings.NewReader(body))
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	if method != "GET" {
		rq.Header.Set("Content-Type", "application/json")
	}
	if w != nil && w.edit != nil {
		w.edit(rq)
	}
	rec := httptest.NewRecorder()
	s.handler.ServeHTTP(rec, rq)
	return rec.Code, rec.Body.Bytes()
}

// shown is a namespace in an answer.
type shown struct {
	Name   *string  `json:"name"`
	Type   *string  `json:"type"`
	Limit  *uint    `json:"maxSimilarProfiles"`
	Factor *float32 `json:"dislikeFactor"` // not shown now
}

func (x shown) is(e ent) bool {
	return x.Name != nil && *x.Name == e.name && x.Type != nil && *x.Type == "like" && x.Limit != nil && *x.Limit == e.limit && (x.Factor == nil || *x.Factor == e.factor)
}

func one(what string, data []byte) shown {
	var x shown
	if err := json.Unmarshal(data, &x); err != nil || x.Name == nil || x.Type == nil || x.Limit == nil {
		lib.Failf("answer", "%s is answered with %q", what, data)
	}
	return x
}

func find(m []ent, name string) int {
	for i := range m {
		if m[i].name == name {
			return i
		}
	}
	return -1
}

func describe(m []ent) string {
	var l []string
	for _, e := range m {
		l = append(l, e.String())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// plus makes a zero positive.
func plus(f float32) float32 {
	if f == 0 {
		return 0
	}
	return f
}

func listed(svc *domain.NamespaceService) string {
	var l []string
	for _, ns := range svc.GetNamespaces() {
		l = append(l, fmt.Sprintf("%s/%s/%d/%v", ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles(), plus(ns.GetDislikeFactor())))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// compare asks for everything.
func (s *server) compare(m []ent, names []string, saved bool, after string) {
	code, data := s.send("GET", "", "", nil)
	var l []shown
	if err := json.Unmarshal(data, &l); code != 200 || err != nil || l == nil {
		lib.Failf("list", "after %s listing is answered with %d %q", after, code, data)
	}
	seen := map[string]bool{}
	for _, x := range l {
		i := -1
		if x.Name != nil {
			i = find(m, *x.Name)
		}
		if i < 0 || !x.is(m[i]) || seen[*x.Name] {
			lib.Failf("list", "after %s listing is answered with %q, registered are [%s]", after, data, describe(m))
		}
		seen[*x.Name] = true
	}
	if len(l) != len(m) {
		lib.Failf("list", "after %s listing is answered with %q, registered are [%s]", after, data, describe(m))
	}
	for _, n := range names {
		code, data := s.send("GET", "/"+n, "", nil)
		i := find(m, n)
		if i < 0 {
			if code != 404 {
				lib.Failf("get", "after %s getting %s is answered with %d %q, registered are [%s]", after, n, code, data, describe(m))
			}
			continue
		}
		if code != 200 || !one("getting "+n, data).is(m[i]) {
			lib.Failf("get", "after %s getting %s is answered with %d %q, registered are [%s]", after, n, code, data, describe(m))
		}
	}
	if got := listed(s.svc); got != describe(m) {
		lib.Failf("registry", "after %s the registry holds [%s], should be [%s]", after, got, describe(m))
	}
	if !saved {
		return
	}
	os.Setenv("REC_PATH", s.dir)
	s2 := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	if err := s2.LoadNamespaces(); err != nil || listed(s2) != describe(m) {
		lib.Failf("saved", "after %s a restarted server has [%s] (error %v), should have [%s]", after, listed(s2), err, describe(m))
	}
}

// do sends the request and judges the answer; it returns what is registered then.
func (s *server) do(q *req, m []ent) (after []ent, accepted bool) {
	code, data := s.send(q.method, q.path, q.body(), q.way)
	answer := fmt.Sprintf("%v is answered with %d %q; registered were [%s]", q, code, data, describe(m))
	if q.method == "GET" {
		i := find(m, strings.TrimPrefix(q.path, "/"))
		switch {
		case q.path == "":
			if code != 200 {
				lib.Failf("status", "%s", answer)
			}
		case i >= 0 && code != 200, i < 0 && code != 404:
			lib.Failf("status", "%s", answer)
		}
		return m, false
	}
	what := good
	for _, f := range []field{q.name, q.factor, q.limit} {
		if f.verdict == bad {
			what = bad
		} else if f.verdict == open && what == good {
			what = open
		}
	}
	if q.method == "POST" && q.typ.verdict == bad || q.isRaw {
		what = bad
	}
	if q.way != nil && q.way.verdict == open && what == good {
		what = open
	}
	i := -1
	if q.method == "POST" {
		if what != bad && find(m, q.name.name) >= 0 {
			what = bad
		}
	} else {
		i = find(m, strings.TrimPrefix(q.path, "/"))
		switch {
		case i < 0:
			if what == good && code != 404 {
				lib.Failf("status", "%s", answer)
			}
			what = bad
		case what != bad && q.name.name != m[i].name && find(m, q.name.name) >= 0:
			what = bad
		}
	}
	ok := code >= 200 && code < 300
	if what == bad && (code < 400 || code > 499) || what == good && !ok || what == open && !ok && (code < 400 || code > 499) {
		lib.Failf("status", "%s", answer)
	}
	if !ok {
		return m, false
	}
	if q.method == "POST" && code != 201 {
		lib.Failf("status", "%s", answer)
	}
	x := one(q.String(), data)
	e := ent{q.name.name, uint(q.limit.num), float32(q.factor.num)}
	may := []uint{e.limit}
	if q.limit.num == 0 {
		may = []uint{defaultLimit}
		if i >= 0 {
			may = append(may, m[i].limit)
		}
	}
	fits := false
	for _, l := range may {
		fits = fits || *x.Limit == l
	}
	if q.limit.verdict == open {
		fits = true
	}
	e.limit = *x.Limit
	if q.factor.verdict == open {
		// As it is rounded.
		for _, ns := range s.svc.GetNamespaces() {
			if ns.GetName().Value() == e.name {
				e.factor = plus(ns.GetDislikeFactor())
			}
		}
		if e.factor < 0 || e.factor > 1 || e.factor != e.factor {
			lib.Failf("factor", "%s; the factor is %v", answer, e.factor)
		}
	}
	if !fits || !x.is(e) {
		lib.Failf("answer", "%s", answer)
	}
	after = append([]ent{}, m...)
	if q.method == "POST" {
		return append(after, e), true
	}
	after[i] = e
	return after, true
}

// ------------------------------------------------------------ sequences

type restSystem struct {
	s     *server
	m     []ent
	reqs  []req
	names []string
	saved bool
}

func (x *restSystem) Do(i int) bool {
	q := &x.reqs[i]
	before, had := x.file()
	m, ok := x.s.do(q, x.m)
	if !ok {
		if now, has := x.file(); has != had || listedFile(now) != listedFile(before) {
			lib.Failf("saved", "%v changes the saved registry from %q to %q", q, before, now)
		}
	}
	x.m = m
	x.saved = x.saved || ok
	x.s.compare(m, x.names, x.saved, q.String())
	return true
}

// listedFile is what matters of a registry file.
func listedFile(data []byte) string {
	var v any
	if json.Unmarshal(data, &v) != nil {
		return string(data)
	}
	return fmt.Sprint(v)
}

func (x *restSystem) file() ([]byte, bool) {
	d, err := os.ReadFile(filepath.Join(x.s.dir, "namespaces.json"))
	return d, err == nil
}

func (x *restSystem) Hash(h *lib.Hasher) {
	for _, ns := range x.s.svc.GetNamespaces() {
		h.Str(fmt.Sprint(ns.GetName().Value(), " ", ns.GetMaxSimilarProfiles(), " ", ns.GetDislikeFactor()))
	}
	// And whatever else the service and the endpoints remember.
	h.Any(x.s.svc)
	for _, o := range x.s.hidden {
		h.Any(o)
	}
	d, has := x.file()
	h.Str(fmt.Sprint(has))
	h.Bytes(d)
}

func nameField(n string) field {
	v := open
	if plainName(n) {
		v = good
	}
	return field{text: fmt.Sprintf("%q", n), verdict: v, name: n}
}

// plainName tells whether the name must be accepted: a lowercase letter, then
// lowercase letters and digits.
func plainName(n string) bool {
	for i := 0; i < len(n); i++ {
		if !(n[i] >= 'a' && n[i] <= 'z' || i > 0 && n[i] >= '0' && n[i] <= '9') {
			return false
		}
	}
	return n != ""
}

func limitField(n uint64) field { return field{text: fmt.Sprint(n), num: float64(n)} }

func factorField(f float64) field { return field{text: fmt.Sprint(f), num: f} }

var likeType = field{text: `"like"`}

func emptyDir(dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

func space(name string, names []string, limits []uint64, factors []float64, start []ent, depth int) lib.Space {
	var reqs []req
	miss := field{verdict: bad}
	for _, n := range names {
		for _, f := range factors {
			for _, l := range limits {
				lf := limitField(l)
				if l == 0 {
					lf = field{} // left out
				}
				reqs = append(reqs, req{method: "POST", name: nameField(n), typ: likeType, limit: lf, factor: factorField(f)})
				for _, to := range names {
					reqs = append(reqs, req{method: "PUT", path: "/" + n, name: nameField(to), limit: lf, factor: factorField(f)})
				}
			}
		}
		reqs = append(reqs,
			req{method: "POST", name: nameField(n), typ: field{text: `"dislike"`, verdict: bad}, factor: factorField(0.5)},
			req{method: "POST", name: nameField(n), typ: miss, factor: factorField(0.5)},
			req{method: "POST", name: nameField(n), typ: likeType, factor: miss},
			req{method: "POST", name: nameField(n), typ: likeType, factor: field{text: "1.5", verdict: bad}},
			req{method: "PUT", path: "/" + n, name: nameField(n), factor: miss},
			req{method: "PUT", path: "/" + n, name: nameField(names[0]), factor: field{text: "-0.5", verdict: bad}},
			req{method: "PUT", path: "/" + n, name: miss, factor: factorField(0.5)},
			req{method: "PUT", path: "/" + n, name: field{text: `"no name"`, verdict: bad}, factor: factorField(0.5)},
			req{method: "PUT", path: "/" + n, raw: "{", isRaw: true},
			req{method: "GET", path: "/" + n},
		)
	}
	reqs = append(reqs,
		req{method: "POST", name: miss, typ: likeType, factor: factorField(0.5)},
		req{method: "POST", name: field{text: `"1a"`, verdict: bad}, typ: likeType, factor: factorField(0.5)},
		req{method: "POST", raw: "", isRaw: true},
		req{method: "GET"})
	var ops []string
	for i := range reqs {
		ops = append(ops, reqs[i].String())
	}
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "data")
	all := append([]string{}, names...)
	for _, e := range start {
		if find([]ent{}, e.name) < 0 {
			all = append(all, e.name)
		}
	}
	return lib.Space{
		Name: name, Depth: depth, Starts: []string{describe(start)}, Ops: ops,
		New: func(int) lib.System {
			emptyDir(dir)
			x := &restSystem{s: newServer(dir), reqs: reqs, names: all}
			if len(start) > 0 {
				var l []map[string]any
				for _, e := range start {
					l = append(l, map[string]any{"name": e.name, "type": "like", "maxSimilarProfiles": e.limit, "dislikeFactor": e.factor})
				}
				data, _ := json.Marshal(l)
				if err := os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644); err != nil {
					panic("VERIF-INTERNAL: " + err.Error())
				}
				if err := x.s.svc.LoadNamespaces(); err != nil {
					lib.Failf("load", "the registry %s cannot be loaded: %v", data, err)
				}
				x.m, x.saved = append([]ent{}, start...), true
			}
			return x
		},
	}
}

// ------------------------------------------------------------ bodies

func checkC24(r *lib.Run) {
	depth := 4
	if r.Thorough {
		depth = 6
	}
	r.BFS(space("two names, three limits, three factors", []string{"a", "b"}, []uint64{0, 1, 7}, []float64{0, 0.5, 1}, nil, depth+1))
	r.BFS(space("three names that begin alike", []string{"a", "ab", "a1"}, []uint64{0, 3}, []float64{0.25, 1}, nil, depth))
	r.BFS(space("four names", []string{"a", "b", "c", "d"}, []uint64{5}, []float64{0}, nil, depth+1))
	r.BFS(space("names that only the registry accepts", []string{"a", "A-b"}, []uint64{0, 2}, []float64{0, 1}, []ent{{"A-b", 4, 0.5}, {"a_c", 1 << 31, 0.75}}, depth-1))
	r.BFS(space("a long registry", []string{"n3", "n17", "new"}, []uint64{0}, []float64{0.5}, manyEnts(20), 3))
	for _, n := range []int{7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1024, 1025} {
		r.BFS(space(fmt.Sprintf("%d namespaces", n), []string{fmt.Sprint("n", n/2), fmt.Sprint("n", n-1), "new"}, []uint64{0}, []float64{0.5}, manyEnts(n), 1))
	}
	bodies(r)
}

func manyEnts(n int) []ent {
	var l []ent
	for i := 0; i < n; i++ {
		l = append(l, ent{fmt.Sprint("n", i), uint(i + 1), float32(i) / 2048})
	}
	return l
}

func bodies(r *lib.Run) {
	named := func(text, meaning string, v verdict) field { return field{text: text, verdict: v, name: meaning} }
	long := strings.Repeat("a", 300)
	names := []field{
		{verdict: bad}, named("null", "", bad), named(`""`, "", bad), nameField("x"), nameField("x1"), nameField("taken"), nameField("tak"), nameField("other"),
		nameField(long), nameField("X"), nameField("Taken"), nameField("a-b"), nameField("a_b"), named(`"a\u0062"`, "ab", good),
		named(`"1a"`, "", bad), named(`"1"`, "", bad), named(`"a b"`, "", bad), named(`" a"`, "", bad), named(`"a "`, "", bad), named(`"a\n"`, "", bad), named(`"a.b"`, "", bad),
		named(`"a/b"`, "", bad), named(`"../a"`, "", bad), named(`"é"`, "", bad), named(`"aé"`, "", bad), named(`"ａ"`, "", bad), named(`"a\u0000"`, "", bad), named(`"-a"`, "", bad), named(`"_a"`, "", bad),
		named("5", "", bad), named("true", "", bad), named(`["a"]`, "", bad), named(`{"a":"b"}`, "", bad), named("a", "", bad),
	}
	types := []field{{verdict: bad}, likeType, {text: `"dislike"`, verdict: bad}, {text: `"Like"`, verdict: bad}, {text: `"LIKE"`, verdict: bad}, {text: `""`, verdict: bad}, {text: `"like "`, verdict: bad}, {text: `"lik"`, verdict: bad}, {text: `"likes"`, verdict: bad}, {text: "null", verdict: bad}, {text: "1", verdict: bad}, {text: `["like"]`, verdict: bad}}
	num := func(text string, n float64, v verdict) field { return field{text: text, num: n, verdict: v} }
	limits := []field{{}, limitField(1), limitField(2), limitField(999), limitField(1000), limitField(1001), limitField(1 << 31), limitField(1<<32 - 1), limitField(1 << 32), limitField(1 << 53),
		num("null", 0, open), num("0", 0, open), num("-1", 0, open), num("1.5", 0, open), num("1.0", 0, open), num("1e3", 0, open), num(`"5"`, 0, open), num("18446744073709551615", 0, open), num("18446744073709551616", 0, open), num("true", 0, open), num("[]", 0, open)}
	factors := []field{{verdict: bad}, num("0", 0, good), num("0.0", 0, good), num("-0", 0, good), num("0e5", 0, good), num("1", 1, good), num("1.0", 1, good), num("10e-1", 1, good), num("0.5", 0.5, good), num("0.1", 0.1, good), num("1e-3", 1e-3, good), num("0.99999994", 0.99999994, good), num("1e-45", float64(float32(math.SmallestNonzeroFloat32)), open), num("1.00000001", 0, open), num("0.99999999999", 0, open), num("1e-60", 0, open), num("-1e-60", 0, open),
		num("1.1", 0, bad), num("1.0000002", 0, bad), num("2", 0, bad), num("-1", 0, bad), num("-0.1", 0, bad), num("-1e-30", 0, bad), num("1e39", 0, bad), num("1e400", 0, bad), num("3e38", 0, bad),
		num("null", 0, bad), num(`"0.5"`, 0, bad), num("true", 0, bad), num("[0.5]", 0, bad), num("NaN", 0, bad), num("Infinity", 0, bad), num("{}", 0, bad)}
	start := []ent{{"taken", 42, 0.5}, {"other", 43, 0.25}}
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "bodies")
	try := func(q *req) {
		emptyDir(dir)
		s := newServer(dir)
		var l []map[string]any
		for _, e := range start {
			l = append(l, map[string]any{"name": e.name, "type": "like", "maxSimilarProfiles": e.limit, "dislikeFactor": e.factor})
		}
		data, _ := json.Marshal(l)
		if err := os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		if err := s.svc.LoadNamespaces(); err != nil {
			lib.Failf("load", "the registry %s cannot be loaded: %v", data, err)
		}
		m, ok := s.do(q, start)
		if now, _ := os.ReadFile(filepath.Join(dir, "namespaces.json")); !ok && !bytes.Equal(now, data) && listedFile(now) != listedFile(data) {
			lib.Failf("saved", "%v changes the saved registry to %q", q, now)
		}
		names := []string{"taken", "other", "nothing"}
		if plainName(q.name.name) {
			names = append(names, q.name.name)
		}
		s.compare(m, names, true, q.String())
	}
	all := func(title string, make func(n, t, l, f field) req, names, types, limits, factors []field) {
		total := len(names) * len(types) * len(limits) * len(factors)
		at := func(i int) req {
			n := names[i%len(names)]
			i /= len(names)
			t := types[i%len(types)]
			i /= len(types)
			l := limits[i%len(limits)]
			return make(n, t, l, factors[i/len(limits)])
		}
		r.ForEach(title, total, func(i int) string { q := at(i); return q.String() }, func(i int) { q := at(i); try(&q) })
	}
	create := func(n, t, l, f field) req { return req{method: "POST", name: n, typ: t, limit: l, factor: f} }
	update := func(n, t, l, f field) req {
		return req{method: "PUT", path: "/taken", name: n, typ: t, limit: l, factor: f}
	}
	none := []field{{}}
	okName, okType, okLimit, okFactor := names[3:8], types[1:3], limits[:5], factors[1:12:12]
	if r.Thorough {
		all("create: all names, types, limits and factors", create, names, types, limits, factors)
		all("update: all names, limits and factors", update, names, none, limits, factors)
	} else {
		okFactor = []field{factors[0], factors[1], factors[5], factors[8], factors[17]}
		all("create: all names and types", create, names, types, limits[:2], okFactor)
		all("create: all limits and factors", create, okName, okType, limits, factors)
		all("create: all names and factors", create, names, types[1:2], okLimit, factors)
		all("update: all names and limits", update, names, none, limits, okFactor)
		all("update: all limits and factors", update, okName, none, limits, factors)
	}
	raws := []string{"", " ", "null", "true", "5", `"a"`, "[]", "[{}]", "{}", "{", "}", "{]", `{"name"}`, `{"name":}`, `{"name":"x"`, `name=x&type=like`, "\x00", "\xff\xfe", "<ns/>", `{"name":"x","type":"like","dislikeFactor":0.5`, `[{"name":"x","type":"like","dislikeFactor":0.5}]`, `{"Name":{},"type":"like","dislikeFactor":0.5}`, strings.Repeat("[", 10000), strings.Repeat(`{"name":`, 10000)}
	r.ForEach("bodies that are no such objects", 2*len(raws), func(i int) string { return fmt.Sprintf("%.60q", raws[i/2]) }, func(i int) {
		q := req{method: "POST", raw: raws[i/2], isRaw: true}
		if i%2 == 1 {
			q = req{method: "PUT", path: "/taken", raw: raws[i/2], isRaw: true}
		}
		try(&q)
	})
	header := func(k, v string, verdict verdict) *way {
		t := k + ": " + v
		if v == "" {
			t = "no " + k
		}
		return &way{title: t, verdict: verdict, edit: func(rq *http.Request) {
			rq.Header.Del(k)
			if v != "" {
				rq.Header.Set(k, v)
			}
		}}
	}
	bodyWay := func(title string, v verdict, f func(string) string) *way {
		return &way{title: title, verdict: v, body: f}
	}
	ways := []*way{
		{title: "of unknown length", edit: func(rq *http.Request) { rq.ContentLength = -1 }},
		{title: "a byte at a time", edit: func(rq *http.Request) {
			d, _ := io.ReadAll(rq.Body)
			rq.Body = io.NopCloser(&trickle{string(d)})
		}},
		{title: "a byte at a time, of unknown length", edit: func(rq *http.Request) {
			d, _ := io.ReadAll(rq.Body)
			rq.Body = io.NopCloser(&trickle{string(d)})
			rq.ContentLength = -1
		}},
		{title: "with a query", edit: func(rq *http.Request) {
			rq.URL.RawQuery = "name=other&namespace=other&type=no&maxSimilarProfiles=77&dislikeFactor=0.125"
		}},
		{title: "with an escaped letter in the path", path: func(p string) string {
			if len(p) < 2 {
				return p
			}
			return fmt.Sprintf("%s%%%02X", p[:len(p)-1], p[len(p)-1])
		}},
		{title: "by HTTP/1.0", edit: func(rq *http.Request) { rq.Proto, rq.ProtoMajor, rq.ProtoMinor = "HTTP/1.0", 1, 0 }},
		{title: "to another host", edit: func(rq *http.Request) { rq.Host = "other:1" }},
		header("Content-Type", "application/json; charset=utf-8", good),
		header("Content-Type", "application/json;charset=UTF-8", good),
		header("Content-Type", "", open),
		header("Content-Type", "application/x-www-form-urlencoded", open),
		header("Content-Type", "multipart/form-data; boundary=x", open),
		header("Content-Type", "text/plain", open),
		header("Content-Type", "application/xml", open),
		header("Content-Type", "application/vnd.api+json", open),
		header("Accept", "*/*", good),
		header("Accept", "application/json", good),
		header("Accept", "text/html,application/xhtml+xml,*/*;q=0.8", good),
		header("Accept-Encoding", "identity", good),
		header("Expect", "100-continue", good),
		header("X-Http-Method-Override", "DELETE", good),
		header("Connection", "close", good),
		bodyWay("surrounded by spaces", good, func(b string) string { return " \r\n\t" + b + "\n \t\r\n" }),
		bodyWay("spread over lines", good, func(b string) string {
			var o bytes.Buffer
			if json.Indent(&o, []byte(b), "", "    ") != nil {
				return b
			}
			return o.String()
		}),
		bodyWay("after much space", good, func(b string) string { return strings.Repeat(" ", 1<<16) + b }),
		bodyWay("fields in the reverse order", good, func(b string) string {
			l := strings.Split(b[1:len(b)-1], ",")
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			return "{" + strings.Join(l, ",") + "}"
		}),
		bodyWay("with another field", open, func(b string) string { return `{"x":{"name":"other"},` + b[1:] }),
		bodyWay("with another type", open, func(b string) string { return `{"type":"like",` + b[1:] }),
		bodyWay("after a byte order mark", open, func(b string) string { return "\ufeff" + b }),
	}
	var arrivals []req
	for _, w := range ways {
		for _, l := range []field{{}, limitField(7)} {
			for _, n := range []string{"x", "taken", "other"} {
				arrivals = append(arrivals, req{way: w, method: "POST", name: nameField(n), typ: likeType, limit: l, factor: factorField(1)})
				for _, p := range []string{"/taken", "/none"} {
					arrivals = append(arrivals, req{way: w, method: "PUT", path: p, name: nameField(n), limit: l, factor: factorField(0)})
				}
			}
			arrivals = append(arrivals, req{way: w, method: "POST", name: nameField("x"), typ: likeType, limit: l, factor: field{verdict: bad}},
				req{way: w, method: "PUT", path: "/taken", name: nameField("x"), limit: l, factor: field{text: "2", verdict: bad}})
		}
		if w.body == nil {
			arrivals = append(arrivals, req{way: w, method: "GET"}, req{way: w, method: "GET", path: "/taken"}, req{way: w, method: "GET", path: "/none"})
		}
	}
	r.ForEach("ways to arrive", len(arrivals), func(i int) string { return arrivals[i].String() }, func(i int) { try(&arrivals[i]) })
	paths := []string{"nothing", "take", "takenn", "t", "Taken", "TAKEN", "taken%20", "taken%00", "tak%65n%2f", "1a", "-", "_", ".", "a.b", "%2e%2e", "é", "taken.json", "namespaces", "taken-", "taken_", "other2", long}
	r.ForEach("unknown namespaces", 3*len(paths), func(i int) string { return paths[i/3] }, func(i int) {
		p := paths[i/3]
		emptyDir(dir)
		s := newServer(dir)
		for _, e := range start {
			q := req{method: "POST", name: nameField(e.name), typ: likeType, limit: limitField(uint64(e.limit)), factor: factorField(float64(e.factor))}
			s.do(&q, nil)
		}
		q := req{method: "GET", path: "/" + p}
		switch i % 3 {
		case 1:
			q = req{method: "PUT", path: "/" + p, name: nameField("x"), factor: factorField(0.5)}
		case 2:
			q = req{method: "PUT", path: "/" + p, name: nameField("taken"), factor: field{verdict: bad}}
		}
		code, data := s.send(q.method, q.path, q.body(), q.way)
		known := isName(p)
		if code < 400 || code > 499 || known && i%3 != 2 && code != 404 {
			if !(code >= 300 && code < 400 && !known) {
				lib.Failf("status", "%v is answered with %d %q; registered are [%s]", &q, code, data, describe(start))
			}
		}
		s.compare(start, []string{"taken", "other"}, true, q.String())
	})
}

// isName tells whether the text can be a namespace's name.
func isName(s string) bool {
	for i := 0; i < len(s); i++ {
		b := s[i]
		letter := 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
		if !letter && (i == 0 || !('0' <= b && b <= '9' || b == '_' || b == '-')) {
			return false
		}
	}
	return s != ""
}
