//go:build go1.24

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C33"] = lib.Check{Level: "exploration", Procs: true,
		Rule:        "Every combination of a value of each field (good, missing, out of its limits, of another type) in creations and updates of existing, missing and misnamed namespaces, bodies that are no objects, questions about missing and misnamed namespaces, and a registry that cannot be saved; one request each to the application's handler. Non-trivial: the request is to be refused.",
		Assumptions: []string{"field names are compared without regard to letter case", "what a name must be like beyond letters, digits, underscores and hyphens is not prescribed here: such a name may be named or not"},
		Fn:          checkC33,
	}
}

// value is one of a field: how it is judged when it is the only thing wrong.
type value struct {
	text string // "" leaves the field out
	kind int
}

const (
	fine     = iota
	missing  // has to be there
	below    // violates a limit
	above    // violates another one
	chars    // contains what is not permitted
	choice   // not one of those that exist
	perhaps  // may be refused
	mistyped // cannot be understood
	occupied // refused for another reason
)

// complaint is the answer to a refused request.
type complaint struct {
	Error   *string `json:"error"`
	Message *string `json:"message"`
	Errors  []struct {
		Field   *string `json:"field"`
		Message *string `json:"message"`
	} `json:"errors"`
}

// asked sends a request and takes the answer apart.
func (s *server) asked(method, path, body string) (code int, x complaint, text string) {
	rq, err := http.NewRequest(method, "http://host/api/v1/namespaces"+path, strings.NewReader(body))
	if err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	if method != "GET" {
		rq.Header.Set("Content-Type", "application/json")
	}
	rec := httptest.NewRecorder()
	s.handler.ServeHTTP(rec, rq)
	code = rec.Code
	text = fmt.Sprintf("%s namespaces%s %s is answered with %d %q", method, path, body, code, rec.Body.Bytes())
	if code < 300 {
		return
	}
	if code < 400 || code > 599 {
		lib.Failf("status", "%s", text)
	}
	if t := rec.Header().Get("Content-Type"); !strings.HasPrefix(t, "application/json") {
		lib.Failf("type", "%s of the type %q", text, t)
	}
	var any map[string]json.RawMessage
	if err := json.Unmarshal(rec.Body.Bytes(), &any); err != nil || any == nil {
		lib.Failf("form", "%s, not one JSON object", text)
	}
	if err := json.Unmarshal(rec.Body.Bytes(), &x); err != nil {
		lib.Failf("form", "%s, not of the form of an error: %v", text, err)
	}
	return
}

// told requires a plain error with a text.
func (x complaint) told(text string) {
	if x.Message == nil || strings.TrimSpace(*x.Message) == "" || len(x.Errors) > 0 {
		lib.Failf("message", "%s, should tell what is wrong", text)
	}
}

// fields requires a list of the wrong fields and returns what is said of each.
func (x complaint) fields(text string) map[string]string {
	if x.Error == nil || *x.Error != "validation" || len(x.Errors) == 0 {
		lib.Failf("fields", "%s, should name the wrong fields", text)
	}
	m := map[string]string{}
	for _, f := range x.Errors {
		if f.Field == nil || f.Message == nil || strings.TrimSpace(*f.Message) == "" {
			lib.Failf("fields", "%s, one of the errors has no field or no message", text)
		}
		k := strings.ToLower(*f.Field)
		if _, ok := m[k]; ok {
			lib.Failf("fields", "%s, naming a field twice", text)
		}
		m[k] = *f.Message
	}
	return m
}

func checkC33(r *lib.Run) {
	start := []ent{{"taken", 42, 0.5}, {"other", 43, 0.25}}
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "refusals")
	fresh := func() *server {
		emptyDir(dir)
		s := newServer(dir)
		var l []map[string]any
		for _, e := range start {
			l = append(l, map[string]any{"name": e.name, "type": "like", "maxSimilarProfiles": e.limit, "dislikeFactor": e.factor})
		}
		data, _ := json.Marshal(l)
		if err := os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		if err := s.svc.LoadNamespaces(); err != nil {
			lib.Failf("load", "the registry %s cannot be loaded: %v", data, err)
		}
		return s
	}
	names := []value{{`"x"`, fine}, {"", missing}, {"null", missing}, {`""`, missing}, {`"a b"`, chars}, {`"é"`, chars}, {`"a/b"`, chars}, {`"../a"`, chars}, {`"a\u0000"`, chars}, {`"a."`, chars},
		{`"1a"`, perhaps}, {`"X"`, perhaps}, {`"a-b"`, perhaps}, {`"_"`, perhaps}, {`"taken"`, occupied}, {"5", mistyped}, {`["x"]`, mistyped}, {"true", mistyped}}
	types := []value{{`"like"`, fine}, {"", missing}, {"null", missing}, {`""`, missing}, {`"dislike"`, choice}, {`"Like"`, choice}, {`"like "`, choice}, {"1", mistyped}, {`{"like":1}`, mistyped}}
	limits := []value{{"", fine}, {"7", fine}, {"0", perhaps}, {`"7"`, mistyped}, {"-1", mistyped}, {"1.5", mistyped}, {"18446744073709551616", mistyped}}
	factors := []value{{"0.5", fine}, {"0", fine}, {"1", fine}, {"", missing}, {"null", missing}, {"-0.1", below}, {"-1e30", below}, {"1.1", above}, {"3e38", above}, {"1e39", mistyped}, {`"0.5"`, mistyped}, {"[]", mistyped}}
	fieldNames := []string{"name", "type", "maxSimilarProfiles", "dislikeFactor"}
	// said is what is said of a field with one kind of wrong value.
	judge := func(code int, x complaint, text string, v [4]value) map[string]string {
		wrong, may := map[string]bool{}, map[string]bool{}
		unread, taken := false, false
		for i, f := range v {
			k := strings.ToLower(fieldNames[i])
			switch f.kind {
			case missing, below, above, chars, choice:
				wrong[k] = true
			case perhaps:
				may[k] = true
			case mistyped:
				unread = true
				may[k] = true
			case occupied:
				taken = true
			}
		}
		if code < 300 {
			if len(wrong) > 0 || unread || taken {
				lib.Failf("accepted", "%s, should be refused", text)
			}
			return nil
		}
		if code >= 500 {
			lib.Failf("status", "%s, though the server is all right", text)
		}
		r.Nontrivial.Add(1)
		listed := len(x.Errors) > 0
		switch {
		case unread && !listed, !listed && taken && len(wrong) == 0, !listed && len(wrong) == 0 && len(may) > 0:
			x.told(text)
			return nil
		case len(wrong) == 0 && len(may) == 0 && !taken:
			lib.Failf("refused", "%s, should be accepted", text)
		}
		m := x.fields(text)
		for k := range m {
			if !wrong[k] && !may[k] && !(taken && k == "name") {
				lib.Failf("fields", "%s, naming %q in which nothing is wrong", text, k)
			}
		}
		for k := range wrong {
			if m[k] == "" && !unread {
				lib.Failf("fields", "%s, not naming %q", text, k)
			}
		}
		return m
	}
	body := func(v [4]value) string {
		var l []string
		for i, f := range v {
			if f.text != "" {
				l = append(l, fmt.Sprintf("%q:%s", fieldNames[i], f.text))
			}
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	all := func(title, method, path string, types []value) {
		n := len(names) * len(types) * len(limits) * len(factors)
		at := func(i int) (v [4]value) {
			for k, l := range [][]value{names, types, limits, factors} {
				v[k] = l[i%len(l)]
				i /= len(l)
			}
			if path == "/taken" && v[0].kind == occupied {
				v[0].kind = fine
			}
			return
		}
		r.ForEach(title, n, func(i int) string { return method + " namespaces" + path + " " + body(at(i)) }, func(i int) {
			v := at(i)
			code, x, text := fresh().asked(method, path, body(v))
			judge(code, x, text, v)
		})
	}
	all("creating", "POST", "", types)
	all("updating", "PUT", "/taken", []value{{"", fine}})
	all("updating another to a name that may be taken", "PUT", "/other", []value{{"", fine}})

	// Different mistakes are told apart.
	r.ForEach("what is said of a field", 4, func(i int) string { return fieldNames[i] }, func(i int) {
		lists := [][]value{names, types, limits, factors}
		said := map[int]string{}
		for _, f := range lists[i] {
			v := [4]value{names[0], types[0], limits[0], factors[0]}
			v[i] = f
			if f.kind == fine || f.kind > choice {
				continue
			}
			code, x, text := fresh().asked("POST", "", body(v))
			m := judge(code, x, text, v)
			msg := m[strings.ToLower(fieldNames[i])]
			said[f.kind] = msg
			for k, other := range said {
				if k != f.kind && other == msg {
					lib.Failf("vague", "%s, the same as for another mistake in that field", text)
				}
			}
		}
	})

	// What is not about a field.
	type other struct {
		method, path, body string
		low, high          int
	}
	var others []other
	for _, b := range []string{"", "{", "[]", "null", "5", `"x"`, "{}x", `{"name":}`, `{"name":"x"`, "\x00", "\xff", `{"name":"x","type":"like","dislikeFactor":0.5`, `{"name":"x","type":"like","dislikeFactor":0.5]`, `[{"name":"x","type":"like","dislikeFactor":0.5}]`} {
		if b != "null" && b != "{}x" { // as an object without fields
			others = append(others, other{"POST", "", b, 400, 499}, other{"PUT", "/taken", b, 400, 499})
		}
		others = append(others, other{"PUT", "/nothing", b, 404, 404})
	}
	goodBody := `{"name":"x","type":"like","dislikeFactor":0.5}`
	for _, p := range []string{"/nothing", "/t", "/takenn", "/x", "/" + strings.Repeat("a", 300)} {
		others = append(others, other{"GET", p, "", 404, 404}, other{"PUT", p, goodBody, 404, 404})
	}
	for _, p := range []string{"/1a", "/a%20b", "/%C3%A9", "/a.b", "/a%00", "/-", "/_a", "/..a", "/%2e"} {
		others = append(others, other{"GET", p, "", 400, 499}, other{"PUT", p, goodBody, 400, 499})
	}
	r.ForEach("other reasons", len(others), func(i int) string { return fmt.Sprint(others[i]) }, func(i int) {
		o := others[i]
		code, x, text := fresh().asked(o.method, o.path, o.body)
		if code < o.low || code > o.high {
			lib.Failf("status", "%s", text)
		}
		r.Nontrivial.Add(1)
		x.told(text)
	})
	lost := []other{{"POST", "", goodBody, 400, 599}, {"PUT", "/taken", goodBody, 400, 599}, {"PUT", "/taken", `{"name":"taken","dislikeFactor":0.5}`, 400, 599}, {"PUT", "/other", `{"name":"x","maxSimilarProfiles":5,"dislikeFactor":0}`, 400, 599}}
	r.ForEach("a registry that cannot be saved", len(lost), func(i int) string { return fmt.Sprint(lost[i]) }, func(i int) {
		o := lost[i]
		s := fresh()
		emptyDir(dir)
		if err := os.Remove(dir); err != nil {
			panic("VERIF-INTERNAL: " + err.Error())
		}
		code, x, text := s.asked(o.method, o.path, o.body)
		if code < o.low {
			lib.Failf("status", "%s, though it cannot be saved", text)
		}
		r.Nontrivial.Add(1)
		x.told(text)
	})
}
