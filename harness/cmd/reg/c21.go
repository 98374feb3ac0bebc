//go:build go1.24

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/zzverif/lib"
)

// verdict is what must become of a registry file.
type verdict int

const (
	mustFail verdict = iota
	mustLoad
	either
)

func nameOK(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9' || c == '_' || c == '-')) {
			return false
		}
	}
	return len(s) > 0
}

// repeatedKeys tells whether an object has two keys that may mean the same.
func repeatedKeys(data []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(data))
	var walk func() bool
	walk = func() bool {
		t, err := dec.Token()
		if err != nil {
			return false
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return false
				}
				n := strings.ToLower(fmt.Sprint(k))
				if seen[n] {
					return true
				}
				seen[n] = true
				if walk() {
					return true
				}
			}
			dec.Token()
		case json.Delim('['):
			for dec.More() {
				if walk() {
					return true
				}
			}
			dec.Token()
		}
		return false
	}
	return walk()
}

// judgeRegistry is an independent reading of the registry format.
func judgeRegistry(data []byte) (verdict, []ent) {
	if !json.Valid(data) {
		return mustFail, nil
	}
	if repeatedKeys(data) {
		return either, nil
	}
	var top any
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	if dec.Decode(&top) != nil {
		return mustFail, nil
	}
	if top == nil {
		return either, nil
	}
	arr, ok := top.([]any)
	if !ok {
		return mustFail, nil
	}
	v := mustLoad
	loose := func() {
		if v == mustLoad {
			v = either
		}
	}
	var out []ent
	for _, x := range arr {
		m, ok := x.(map[string]any)
		if !ok {
			if x == nil {
				return mustFail, nil // no name
			}
			return mustFail, nil
		}
		e := ent{}
		get := func(k string) (any, bool) {
			r, ok := m[k]
			if ok {
				return r, true
			}
			for q, y := range m {
				if strings.EqualFold(q, k) {
					loose()
					return y, true
				}
			}
			return nil, false
		}
		if len(m) != 4 {
			loose()
		}
		n, _ := get("name")
		s, ok := n.(string)
		if !ok || !nameOK(s) {
			return mustFail, nil
		}
		e.name = s
		t, _ := get("type")
		if t != "like" {
			return mustFail, nil
		}
		if l, ok := get("maxSimilarProfiles"); ok && l != nil {
			num, ok := l.(json.Number)
			if !ok {
				return mustFail, nil
			}
			var u uint
			if _, err := fmt.Sscanf(num.String(), "%d", &u); err != nil || fmt.Sprint(u) != num.String() {
				if strings.HasPrefix(num.String(), "-") {
					return mustFail, nil
				}
				loose()
			}
			if u == 0 {
				loose()
			}
			e.limit = u
		} else {
			loose()
		}
		if f, ok := get("dislikeFactor"); ok && f != nil {
			num, ok := f.(json.Number)
			if !ok {
				return mustFail, nil
			}
			x, err := num.Float64()
			if err != nil || math.IsInf(float64(float32(x)), 0) {
				return mustFail, nil
			}
			if x < 0 || x > 1 {
				loose()
			}
			e.factor = float32(x)
		} else {
			loose()
		}
		if find(out, e.name) >= 0 {
			return mustFail, nil
		}
		out = append(out, e)
	}
	return v, out
}

// tryLoad loads the file and compares with the independent reading.
func tryLoad(dir string, data []byte, what string, before *domain.NamespaceService) {
	if err := os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644); err != nil {
		panic("VERIF-INTERNAL: " + err.Error())
	}
	svc := before
	if svc == nil {
		svc = newService(dir)
	}
	was := listed(svc)
	err := svc.LoadNamespaces()
	v, want := judgeRegistry(data)
	switch {
	case err != nil:
		if got := listed(svc); got != was {
			lib.Failf("registered", "%s: loading fails (%v) but registers [%s]", what, err, got)
		}
		if v == mustLoad {
			lib.Failf("refused", "%s: loading fails: %v", what, err)
		}
	case v == mustFail:
		lib.Failf("accepted", "%s: a malformed registry is loaded as [%s]: %q", what, listed(svc), data)
	case v == mustLoad:
		if got := listed(svc); got != describe(want) {
			lib.Failf("loaded", "%s: loaded as [%s], should be [%s]", what, got, describe(want))
		}
	default:
		names := map[string]bool{}
		for _, ns := range svc.GetNamespaces() {
			n := ns.GetName().Value()
			if names[n] || !nameOK(n) {
				lib.Failf("loaded", "%s: loaded as [%s]", what, listed(svc))
			}
			names[n] = true
		}
	}
}

// base makes a service with some namespaces and returns its registry file.
func base(dir string, es []ent) ([]byte, *domain.NamespaceService) {
	emptyDir(dir)
	svc := newService(dir)
	for _, e := range es {
		if _, err := (mop{what: "create", name: e.name, limit: e.limit, factor: e.factor}).do(svc); err != nil {
			lib.Failf("create", "creating %v fails: %v", e, err)
		}
	}
	if err := svc.SaveNamespaces(); err != nil {
		lib.Failf("save", "saving fails: %v", err)
	}
	data, err := os.ReadFile(filepath.Join(dir, "namespaces.json"))
	if err != nil {
		lib.Failf("save", "there is no namespaces.json after saving: %v", err)
	}
	return data, svc
}

func init() {
	checks["C21"] = lib.Check{Level: "model_checking", Procs: true,
		Rule: "Breadth-first over all histories of create, update, delete, save and restart on colliding names and settings until no new state appears, comparing list, look-ups and a freshly loaded service with a reference list after every call; all settings on a grid of boundary values; all registry files that differ from a valid one by truncation, one byte, one token or one field, judged by an independent reading of the format.",
		Assumptions: []string{
			"states with equal listed namespaces (in order) and equal directory content behave equally",
			"a registry that is legal JSON but unusual (extra or differently cased keys, factor out of range, null) may be loaded or refused",
		},
		Fn: checkC21,
	}
}

func checkC21(r *lib.Run) {
	names := []string{"a", "ab", "A"}
	settings := []ent{{limit: 0, factor: 0}, {limit: 7, factor: 0.3}}
	r.BFS(regSpace("histories, three names, two settings", names, settings, 40))
	r.BFS(regSpace("histories, two names, four settings", []string{"a", "a-b"}, []ent{{limit: 1, factor: 1}, {limit: 1000, factor: 0.1}, {limit: math.MaxUint64, factor: 1e-7}, {limit: 0, factor: 0.5}}, 40))
	r.BFS(regSpace("histories, three names, three settings", names, []ent{{limit: 0, factor: 0}, {limit: 7, factor: 0.3}, {limit: 1 << 40, factor: 1}}, 40))
	r.BFS(regSpace("histories, four names, one setting", []string{"a", "b", "c", "d"}, []ent{{limit: 3, factor: 0.25}}, 40))
	if r.Thorough {
		r.BFS(regSpace("histories, four names, two settings", []string{"a", "b", "c", "d"}, settings, 40))
		r.BFS(regSpace("histories, five names, one setting", []string{"a", "b", "c", "d", "e"}, settings[1:], 40))
		r.BFS(regSpace("histories, three names, five settings", names, []ent{{limit: 0, factor: 0}, {limit: 7, factor: 0.3}, {limit: 1 << 40, factor: 1}, {limit: 8, factor: 0.3}, {limit: 7, factor: 0.7}}, 40))
	}
	dir := scratch("files")

	// Settings.
	var factors []float32
	for _, b := range []uint32{0, 1, 2, 0x007fffff, 0x00800000, 0x00800001, 0x3f7fffff, 0x3f800000, 0x3dcccccd, 0x3eaaaaab, 0x3f000001, 0x3effffff} {
		factors = append(factors, math.Float32frombits(b))
	}
	for e := uint32(0); e < 127; e++ {
		factors = append(factors, math.Float32frombits(e<<23|0x2aaaab), math.Float32frombits(e<<23), math.Float32frombits(e<<23|0x7fffff))
	}
	for i := 0; i <= 100; i++ {
		factors = append(factors, float32(i)/100)
	}
	limits := []uint{0, 1, 2, 999, 1000, 1001, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}
	n := len(factors) * len(limits)
	at := func(i int) (float32, uint) { return factors[i%len(factors)], limits[i/len(factors)] }
	r.ForEach("settings", n, func(i int) string { f, l := at(i); return fmt.Sprintf("factor %v, limit %d", f, l) }, func(i int) {
		f, l := at(i)
		emptyDir(dir)
		svc := newService(dir)
		var m []ent
		for _, o := range []mop{
			{what: "create", name: "x", limit: l, factor: f},
			{what: "create", name: "y", limit: 5, factor: 0.5},
			{what: "update", name: "y", to: "y", limit: l, factor: f},
			{what: "update", name: "x", to: "z", limit: 6, factor: 0.75},
		} {
			if _, err := o.do(svc); err != nil {
				lib.Failf("result", "%v fails: %v", o, err)
			}
			m, _ = o.apply(m)
			checkAll(svc, dir, m, []string{"x", "y", "z"}, true)
		}
	})

	// Many namespaces and long names.
	sizes := []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}
	for i := 140; i > 0; i-- {
		sizes = append(sizes, i)
	}
	r.ForEach("large registries", len(sizes), func(i int) string { return fmt.Sprintf("%d namespaces", sizes[i]) }, func(i int) {
		emptyDir(dir)
		svc := newService(dir)
		var m []ent
		for k := 0; k < sizes[i]; k++ {
			o := mop{what: "create", name: fmt.Sprintf("n%d", k), limit: uint(k + 1), factor: float32(k) / float32(sizes[i])}
			if k%10 == 9 {
				o.name += strings.Repeat("_x-", 100)
			}
			if _, err := o.do(svc); err != nil {
				lib.Failf("result", "%v fails: %v", o, err)
			}
			m, _ = o.apply(m)
		}
		checkAll(svc, dir, m, []string{"n0", "n1"}, true)
		for k := 0; k < sizes[i]; k += 2 {
			o := mop{what: "delete", name: fmt.Sprintf("n%d", k)}
			if _, err := o.do(svc); err != nil {
				lib.Failf("result", "%v fails: %v", o, err)
			}
			m, _ = o.apply(m)
		}
		checkAll(svc, dir, m, []string{"n0", "n1"}, true)
	})

	// Damaged registries.
	regs := [][]ent{{}, {{"a", 3, 0.25}}, {{"a", 3, 0.25}, {"bc", 1000, 1}}}
	for ri, es := range regs {
		var data []byte
		if m := lib.Guard(func() { data, _ = base(dir, es) }); m != "" {
			r.ForEach("base", 8, func(int) string { return "saving a registry" }, func(int) { lib.Failf("save", "%s", m) })
			continue
		}
		type edit struct {
			what string
			data []byte
		}
		var edits []edit
		add := func(what string, d []byte) { edits = append(edits, edit{what, d}) }
		add("unchanged", data)
		for i := range data {
			add(fmt.Sprintf("cut to %d bytes", i), data[:i])
			for b := 0; b < 256; b++ {
				if byte(b) != data[i] {
					d := append([]byte(nil), data...)
					d[i] = byte(b)
					add(fmt.Sprintf("byte %d set to %q", i, b), d)
				}
			}
			d := append(append([]byte(nil), data[:i]...), data[i+1:]...)
			add(fmt.Sprintf("byte %d removed", i), d)
			for _, b := range []byte("[]{},:\"0a-. \x00") {
				d := append(append(append([]byte(nil), data[:i]...), b), data[i:]...)
				add(fmt.Sprintf("%q inserted at %d", b, i), d)
			}
		}
		for _, t := range []string{" ", "\n", "x", "]", "[]", "{", "\x00", ",", "null", string(data)} {
			add(fmt.Sprintf("%q appended", t), append(append([]byte(nil), data...), t...))
			add(fmt.Sprintf("%q prepended", t), append([]byte(t), data...))
		}
		if len(data) > 0 {
			// Zero-filled and missing ranges.
			for i := 0; i < len(data); i++ {
				for j := i + 2; j <= len(data); j += 3 {
					d := append([]byte(nil), data...)
					for k := i; k < j; k++ {
						d[k] = 0
					}
					add(fmt.Sprintf("bytes %d to %d zeroed", i, j), d)
					add(fmt.Sprintf("bytes %d to %d removed", i, j), append(append([]byte(nil), data[:i]...), data[j:]...))
				}
			}
		}
		r.ForEach(fmt.Sprintf("damaged registry of %d namespaces", len(es)), len(edits), func(i int) string { return edits[i].what }, func(i int) {
			emptyDir(dir)
			tryLoad(dir, edits[i].data, edits[i].what, nil)
			if ri == 1 && i%7 == 0 {
				// Over a service that has namespaces already.
				_, svc := base(dir, regs[2])
				tryLoad(dir, edits[i].data, edits[i].what+", loaded a second time", svc)
			}
		})
	}

	// Records.
	nameVals := []string{`"a"`, `"a-_9"`, `""`, `"9"`, `"-a"`, `"a b"`, `"a/b"`, `"../a"`, `"a.b"`, `"a\n"`, `"\u0061"`, `"é"`, `"a\u0000"`, `1`, `null`, `["a"]`, `{}`, `true`}
	typeVals := []string{`"like"`, `"Like"`, `"like "`, `""`, `"dislike"`, `null`, `1`, `"\u006cike"`}
	limitVals := []string{`1`, `0`, `-1`, `1.5`, `18446744073709551615`, `18446744073709551616`, `"1"`, `null`, `[]`, `true`, `1e2`, `9007199254740993`}
	factorVals := []string{`0`, `1`, `0.5`, `1.5`, `-0.5`, `"0.5"`, `null`, `1e39`, `1e400`, `{}`, `false`, `1e-50`, `0.1`, `0.333333343`}
	second := []string{``, `,{"name":"q","type":"like","maxSimilarProfiles":4,"dislikeFactor":0.5}`, `,{"name":"a","type":"like","maxSimilarProfiles":4,"dislikeFactor":0.5}`, `,null`, `,{}`, `,[]`, `,"a"`, `,1`}
	total := len(nameVals) * len(typeVals) * len(limitVals) * len(factorVals) * len(second) * 2
	rec := func(i int) []byte {
		pick := func(l []string) string { v := l[i%len(l)]; i /= len(l); return v }
		nm, ty, li, fa, se := pick(nameVals), pick(typeVals), pick(limitVals), pick(factorVals), pick(second)
		one := fmt.Sprintf(`{"name":%s,"type":%s,"maxSimilarProfiles":%s,"dislikeFactor":%s}`, nm, ty, li, fa)
		if i == 1 && se != "" {
			return []byte("[" + se[1:] + "," + one + "]")
		}
		return []byte("[" + one + se + "]")
	}
	r.ForEach("records", total, func(i int) string { return string(rec(i)) }, func(i int) {
		tryLoad(dir, rec(i), "the registry", nil)
	})
	keys := []string{"name", "type", "maxSimilarProfiles", "dislikeFactor"}
	vals := []string{`"a"`, `"like"`, `3`, `0.25`}
	tops := []string{"", " ", "null", "{}", "1", `"a"`, "true", "[null]", "[[]]", "[1]", "[{}]", "[]", " [ ] ", "[,]", "[{},]", "NaN", "\xef\xbb\xbf[]", "[]]", "[][]"}
	r.ForEach("missing, repeated and extra fields", 81+len(tops), func(i int) string { return fmt.Sprint(i) }, func(i int) {
		if i >= 81 {
			emptyDir(dir)
			tryLoad(dir, []byte(tops[i-81]), tops[i-81], nil)
			return
		}
		var l []string
		for k := range keys {
			for n := i % 3; n > 0; n-- {
				l = append(l, fmt.Sprintf("%q:%s", keys[k], vals[k]))
			}
			i /= 3
		}
		s := "[{" + strings.Join(l, ",") + "}]"
		tryLoad(dir, []byte(s), s, nil)
		s = "[{" + strings.Join(append(l, `"x":1`), ",") + "}]"
		tryLoad(dir, []byte(s), s, nil)
	})

	// No readable file.
	r.ForEach("unreadable registries", 3, func(i int) string {
		return []string{"no file", "a directory in its place", "no data directory"}[i]
	}, func(i int) {
		emptyDir(dir)
		d := dir
		switch i {
		case 1:
			os.Mkdir(filepath.Join(dir, "namespaces.json"), 0755)
		case 2:
			d = filepath.Join(dir, "missing")
		}
		svc := newService(d)
		if err := svc.LoadNamespaces(); err == nil {
			lib.Failf("accepted", "loading does not fail")
		}
		if got := listed(svc); got != "" {
			lib.Failf("registered", "loading registers [%s]", got)
		}
	})
	data, err := func() (d []byte, err error) {
		if m := lib.Guard(func() { d, _ = base(dir, regs[2]) }); m != "" {
			err = fmt.Errorf("%s", m)
		}
		return
	}()
	if err == nil {
		// Every call failing while the registry is read.
		w := &world{root: dir}
		r.Enumerate("failing reads", func(c *lib.C) {
			emptyDir(dir)
			os.WriteFile(filepath.Join(dir, "namespaces.json"), data, 0644)
			f := &failing{c: c, w: w, on: true}
			w.decide, w.dead = f.decide, false
			svc := newService(dir)
			var err error
			w.run(func() { err = svc.LoadNamespaces() })
			if got := listed(svc); err != nil && got != "" {
				lib.Failf("registered", "loading fails (%v) but registers [%s]", err, got)
			} else if err == nil && got != describe(regs[2]) {
				lib.Failf("loaded", "loading succeeds but lists [%s]", got)
			}
		})
	}
}
