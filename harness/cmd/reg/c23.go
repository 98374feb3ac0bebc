//go:build go1.24

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"recengine/internal/domain"
	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

// liker is what a namespace of this type offers its users.
type liker interface {
	Like(user uint64, item uint64) error
}

// stopped asks whether the namespaces refuse requests because they have been
// stopped. Nothing processes requests here: a request to a namespace that has
// not been stopped stays in its queue.
func stopped(nss []domain.Namespace) []bool {
	out := make([]bool, len(nss))
	for i, ns := range nss {
		l, ok := ns.(liker)
		if !ok {
			continue
		}
		mc.GoNamed("probe", func() {
			l.Like(1, 1)
			out[i] = true
		})
	}
	mc.Sleep(time.Second) // of virtual time: until nothing else can run
	return append([]bool{}, out...)
}

func init() {
	checks["C23"] = lib.Check{Level: "fault_enumeration", Procs: true,
		Rule: "Every history of successful management calls up to the stated length on a fixed set of calls, followed by every call that must be rejected or in which any one file-system call fails (once or from then on, writes after several partial lengths), up to three times in a row; the listed namespaces (identity and settings), look-ups, running state and a freshly loaded registry are compared with those before; then the cause is removed and the call repeated.",
		Assumptions: []string{
			"a namespace runs unless it has been stopped; it is probed with a request that a stopped namespace answers with an error",
			"if no registry had been saved before, a missing one is as before",
		},
		Fn: checkC23,
	}
}

type snapshot struct {
	nss    []domain.Namespace
	listed string
}

func snap(svc *domain.NamespaceService) snapshot {
	return snapshot{svc.GetNamespaces(), listed(svc)}
}

func checkC23(r *lib.Run) {
	dir := scratch("data")
	w := &world{root: dir}
	ops := crashOps()
	ops = append(ops, mop{what: "update", name: "zz", to: "zz", limit: 1, factor: 1}, mop{what: "update", name: "zz", to: "a", limit: 1, factor: 1},
		mop{what: "update", name: "a", to: "bcd", limit: 9, factor: 0.75}, mop{what: "delete", name: "zz"}, mop{what: "create", name: "a", limit: 77, factor: 0.5},
		mop{what: "create", name: "A", limit: 78, factor: 0.5})
	names := []string{"a", "A", "bcd", "xyz", "zz"}

	same := func(svc *domain.NamespaceService, was snapshot, m []ent, exists bool, why string) {
		now := snap(svc)
		if now.listed != was.listed {
			lib.Failf("listed", "%s, but the listed namespaces change from [%s] to [%s]", why, was.listed, now.listed)
		}
		for _, a := range was.nss {
			n := a.GetName()
			if got := svc.GetNamespaceByName(n); got != a {
				lib.Failf("identity", "%s, but the namespace %s is not the same any more (found: %v)", why, n.Value(), got != nil)
			}
		}
		for _, n := range names {
			if (svc.GetNamespaceByName(parseName(n)) != nil) != (find(m, n) >= 0) {
				lib.Failf("lookup", "%s, but looking up %s differs; registered are [%s]", why, n, describe(m))
			}
		}
		s2, err := reload(dir)
		if exists && err != nil {
			lib.Failf("saved", "%s, but the saved registry cannot be loaded any more: %v", why, err)
		}
		if listed(s2) != describe(m) && (exists || listed(s2) != "") {
			lib.Failf("saved", "%s, but the saved registry holds [%s] instead of [%s]", why, listed(s2), describe(m))
		}
		for i, st := range stopped(was.nss) {
			if st {
				lib.Failf("stopped", "%s, but the namespace %s does not run any more", why, was.nss[i].GetName().Value())
			}
		}
	}

	// start is how many namespaces are registered at first, next to those the
	// calls are about.
	start := 0
	saved := map[int]map[string][]byte{}
	run := func(name string, length, repeats int, all bool) {
		r.Enumerate(name, func(c *lib.C) {
			emptyDir(dir)
			var failed any
			body := func() {
				svc := newService(dir)
				var m []ent
				exists := false
				do := func(o mop) error {
					w.begin()
					defer w.end()
					_, err := o.do(svc)
					return err
				}
				f := &failing{c: c, w: w, all: all}
				w.decide, w.dead = f.decide, false
				good := func(o mop) {
					after, ok := o.apply(m)
					c.Note("%v", o)
					was := snap(svc)
					if err := do(o); (err == nil) != ok {
						lib.Failf("result", "%v returns error %v; registered are [%s]", o, err, describe(m))
					}
					m, exists = after, true
					checkAll(svc, dir, m, names, true)
					st := stopped(was.nss)
					for i, ns := range was.nss {
						gone := true
						for _, k := range svc.GetNamespaces() {
							gone = gone && k != ns
						}
						if st[i] != gone {
							lib.Failf("stopped", "after %v a namespace that is registered: %v has been stopped: %v", o, !gone, st[i])
						}
					}
				}
				if start > 0 {
					if saved[start] == nil {
						s0 := newService(dir)
						for i := 0; i < start; i++ {
							o := mop{what: "create", name: fmt.Sprintf("n%d", i), limit: uint(i) << 30, factor: float32(i) / 256}
							if _, err := o.do(s0); err != nil {
								lib.Failf("result", "%v returns error %v", o, err)
							}
						}
						saved[start] = map[string][]byte{}
						l, _ := os.ReadDir(dir)
						for _, e := range l {
							saved[start][e.Name()], _ = os.ReadFile(filepath.Join(dir, e.Name()))
						}
					}
					for f, data := range saved[start] {
						if err := os.WriteFile(filepath.Join(dir, f), data, 0644); err != nil {
							panic("VERIF-INTERNAL: " + err.Error())
						}
					}
					if err := svc.LoadNamespaces(); err != nil {
						lib.Failf("reload", "the saved registry cannot be loaded: %v", err)
					}
					for i := 0; i < start; i++ {
						m, _ = mop{what: "create", name: fmt.Sprintf("n%d", i), limit: uint(i) << 30, factor: float32(i) / 256}.apply(m)
					}
					exists = true
				}
				n := c.Choose(length + 1)
				for i := 0; i < n; i++ {
					o := ops[c.Choose(len(ops))]
					if _, ok := o.apply(m); !ok {
						lib.Skip()
					}
					good(o)
				}
				o := ops[c.Choose(len(ops))]
				after, ok := o.apply(m)
				was := snap(svc)
				for i := 0; ; i++ {
					f.on, f.hit = true, false
					c.Note("%v", o)
					err := do(o)
					f.on = false
					c.Note("  answered: error %v", err)
					if err == nil {
						if !ok {
							lib.Failf("result", "%v is not rejected; registered are [%s]", o, describe(m))
						}
						m = after
						checkAll(svc, dir, m, names, true)
						return
					}
					if ok && !f.hit {
						lib.Failf("result", "%v fails though nothing is wrong: %v; registered are [%s]", o, err, describe(m))
					}
					why := fmt.Sprintf("%v returns error %v", o, err)
					if ok {
						why += " after an injected failure"
					}
					same(svc, was, m, exists, why)
					if i+1 >= repeats || c.Choose(2) == 0 {
						break
					}
				}
				c.Interesting()
				if !ok {
					// Remove the cause.
					switch {
					case o.what == "create":
						good(mop{what: "delete", name: o.name})
					case find(m, o.name) < 0:
						good(mop{what: "create", name: o.name, limit: 4, factor: 0.5})
					}
					if o.what == "update" && o.to != o.name && find(m, o.to) >= 0 {
						good(mop{what: "delete", name: o.to})
					}
				}
				good(o)
			}
			mc.Execute(nil, 0, false, func() {
				defer func() {
					w.end()
					failed = recover()
				}()
				body()
			}, func(e *mc.Exec) {}, func(e *mc.Exec) { e.NoForeign = true })
			if failed != nil {
				panic(failed)
			}
		})
	}
	few := ops
	for _, start = range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 64} {
		// The namespace in the middle and the last one.
		mid, last := fmt.Sprintf("n%d", start/2), fmt.Sprintf("n%d", start-1)
		ops = []mop{{what: "create", name: "a", limit: 3, factor: 0.25}, {what: "delete", name: mid}, {what: "delete", name: last}, {what: "delete", name: "n0"},
			{what: "update", name: mid, to: "x", limit: 1 << 40, factor: 0.1}, {what: "update", name: last, to: last, limit: 0, factor: 0}, {what: "update", name: "n0", to: last, limit: 9, factor: 0.75}, {what: "create", name: mid, limit: 3, factor: 0.25}}
		run(fmt.Sprintf("%d namespaces, one failure", start), 0, 1, false)
	}
	start, ops = 0, few
	if r.Thorough {
		run("four calls before, one failure", 4, 1, false)
		run("three calls before, every partial write, up to two failures", 3, 2, true)
		run("two calls before, up to three failures", 2, 3, false)
		return
	}
	run("three calls before, one failure", 3, 1, false)
	run("two calls before, every partial write", 2, 1, true)
	run("two calls before, up to two failures", 2, 2, false)
	run("one call before, up to three failures", 1, 3, false)
}
