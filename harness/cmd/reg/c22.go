//go:build go1.24

package main

import (
	"fmt"
	"os"

	"recengine/internal/domain"
	"recengine/internal/zzverif/lib"
)

// crashOps are the calls of the histories: names a and b, few settings.
func crashOps() []mop {
	return []mop{
		{what: "create", name: "a", limit: 3, factor: 0.25},
		{what: "create", name: "bcd", limit: 1<<40 + 77, factor: 1},
		{what: "update", name: "a", to: "a", limit: 12345678, factor: 0.1},
		{what: "update", name: "a", to: "xyz", limit: 3, factor: 0.25},
		{what: "update", name: "bcd", to: "a", limit: 0, factor: 0},
		{what: "delete", name: "a"},
		{what: "delete", name: "bcd"},
		{what: "save"},
	}
}

// sameLengthOps are calls most of which leave the registry as long as before.
func sameLengthOps() []mop {
	ops := []mop{{what: "create", name: "a", limit: 11, factor: 0.1}, {what: "create", name: "b", limit: 22, factor: 0.2}}
	for _, from := range []string{"a", "b"} {
		for _, to := range []string{"a", "b", "c"} {
			ops = append(ops, mop{what: "update", name: from, to: to, limit: 22, factor: 0.2}, mop{what: "update", name: from, to: to, limit: 33, factor: 0.1})
		}
	}
	return append(ops, mop{what: "delete", name: "a"})
}

// afterCrash loads the registry and returns the state it holds, which must be
// one of those given; exists tells whether a registry had been saved before.
func afterCrash(dir string, before, after []ent, exists bool) (*domain.NamespaceService, []ent, bool) {
	svc, err := reload(dir)
	got := listed(svc)
	if err != nil {
		if exists {
			lib.Failf("damaged", "the registry cannot be loaded after the crash: %v; before the call it held [%s]", err, describe(before))
		}
		if got != "" {
			lib.Failf("damaged", "loading fails (%v) but registers [%s]", err, got)
		}
		return svc, nil, false
	}
	if got == describe(after) {
		return svc, after, true
	}
	if got != describe(before) {
		lib.Failf("neither", "after the crash the registry holds [%s]; before the call [%s], after it [%s]", got, describe(before), describe(after))
	}
	return svc, before, true
}

func init() {
	checks["C22"] = lib.Check{Level: "fault_enumeration", Procs: true,
		Rule: "Every history of management calls up to the stated length on a fixed set of eight calls, and on one of fifteen most of which keep the length of the registry; in the last call the process dies before every file-system call that changes something and after every part of every write; the registry is then loaded by a new service, goes on being managed, and crashes again in the same way. Also with an earlier call whose saving failed, and with a file-system call failing in the last call before the crash.",
		Assumptions: []string{
			"the process dies, the operating system does not: completed writes and renames stay",
			"what a call has written before the crash is a prefix of each write; completed calls are atomic",
			"if no registry has been saved yet, a load error after the crash stands for the empty registry",
		},
		Fn: checkC22,
	}
}

func checkC22(r *lib.Run) {
	dir := scratch("data")
	w := &world{root: dir}
	ops := crashOps()
	// failing is how many calls before the last one a file-system call fails;
	// -1: nowhere.
	run := func(name string, length int, all, again bool, failAt int) {
		r.Enumerate(name, func(c *lib.C) {
			emptyDir(dir)
			svc := newService(dir)
			var m []ent
			exists := false
			on := false
			w.dead = false
			f := &failing{c: c, w: w}
			cp := crashPoints(c, w, &on, all)
			n := 1 + c.Choose(length)
			for i := 0; i < n; i++ {
				k := c.Choose(len(ops))
				o := ops[k]
				after, ok := o.apply(m)
				if !ok && i < n-1 {
					lib.Skip() // rejected calls change nothing: see C23
				}
				c.Note("%v", o)
				on = i == n-1
				w.decide = cp
				fails := failAt >= 0 && i == n-1-failAt
				if fails {
					*f = failing{c: c, w: w, on: true}
					w.decide = func(op *os.VerifOp) answer {
						if a := f.decide(op); a.fail || !f.hit {
							return a
						}
						return cp(op)
					}
				}
				var err error
				if w.run(func() { _, err = o.do(svc) }) {
					svc, m, exists = afterCrash(dir, m, after, exists)
					on = false
					break
				}
				if fails && f.hit {
					if err != nil {
						after = m
						ok = false
					}
				} else if ok != (err == nil) {
					lib.Failf("result", "%v returns error %v", o, err)
				}
				m = after
				if ok {
					exists = true
				}
				c.Note("  answered: error %v", err)
				if exists {
					if s2, err := reload(dir); err != nil || listed(s2) != describe(m) {
						lib.Failf("reload", "after %v the saved registry holds [%s] (error %v), should hold [%s]", o, listed(s2), err, describe(m))
					}
				}
			}
			// The process dies between calls as well.
			if !w.dead && exists {
				svc, m, exists = afterCrash(dir, m, m, exists)
			}
			crashed := w.dead
			w.dead = false
			// The new process goes on.
			rounds := 1
			if again && crashed {
				rounds = 2
			}
			for i := 0; i < rounds; i++ {
				o := mop{what: "create", name: fmt.Sprintf("new%d", i), limit: 5, factor: 0.5}
				if i == 0 && rounds == 2 {
					o = ops[c.Choose(len(ops))]
				}
				after, ok := o.apply(m)
				c.Note("%v", o)
				on = again && crashed && i == 0
				w.decide = cp
				var err error
				if w.run(func() { _, err = o.do(svc) }) {
					svc, m, exists = afterCrash(dir, m, after, exists)
					w.dead = false
					continue
				}
				if ok != (err == nil) {
					lib.Failf("result", "after the restart %v returns error %v", o, err)
				}
				m = after
				if ok {
					exists = true
				}
				if exists {
					checkAll(svc, dir, m, []string{"a", "b", "c", "bcd", "xyz", "new0", "new1"}, true)
				}
			}
		})
	}
	if r.Thorough {
		run("seven calls, every torn write", 7, true, false, -1)
		ops = sameLengthOps()
		run("four calls keeping the length of the registry, every torn write", 4, true, false, -1)
		run("three calls keeping the length of the registry, crash, one call crashing as well", 3, true, true, -1)
		ops = crashOps()
		run("four calls, crash, one call crashing as well", 4, true, true, -1)
		run("six calls, crash, one call crashing as well, five torn writes", 6, false, true, -1)
		run("five calls, the second to last failing", 5, false, false, 1)
		run("five calls, the last failing and then crashing", 5, false, true, 0)
		return
	}
	run("five calls, every torn write", 5, true, false, -1)
	ops = sameLengthOps()
	run("three calls keeping the length of the registry, every torn write", 3, true, false, -1)
	ops = crashOps()
	run("two calls, crash, one call crashing as well", 2, true, true, -1)
	run("four calls, crash, one call crashing as well, five torn writes", 4, false, true, -1)
	run("three calls, the second to last failing", 3, false, false, 1)
	run("four calls, the last failing and then crashing", 4, false, true, 0)
}
