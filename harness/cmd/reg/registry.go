//go:build go1.24

package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzverif/lib"
)

func parseName(s string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		lib.Failf("name", "the name %q is refused: %v", s, err)
	}
	return n
}

// ent is the model's namespace.
type ent struct {
	name   string
	limit  uint
	factor float32
}

func (e ent) String() string { return fmt.Sprintf("%s/like/%d/%v", e.name, e.limit, e.factor) }

// mop is a management call.
type mop struct {
	what   string // create, update, delete, save
	name   string
	to     string
	limit  uint
	factor float32
}

func (o mop) String() string {
	switch o.what {
	case "create":
		return fmt.Sprintf("create(%s, %d, %v)", o.name, o.limit, o.factor)
	case "update":
		return fmt.Sprintf("update(%s to %s, %d, %v)", o.name, o.to, o.limit, o.factor)
	case "delete":
		return "delete(" + o.name + ")"
	}
	return o.what
}

const defaultLimit = 1000

func find(s []ent, n string) int {
	for i := range s {
		if s[i].name == n {
			return i
		}
	}
	return -1
}

// apply runs the call on the model; ok is false if it must be rejected.
func (o mop) apply(s []ent) (after []ent, ok bool) {
	limit := o.limit
	if limit == 0 {
		limit = defaultLimit
	}
	s = append([]ent{}, s...)
	i := find(s, o.name)
	switch o.what {
	case "create":
		if i >= 0 {
			return s, false
		}
		return append(s, ent{o.name, limit, o.factor}), true
	case "update":
		if i < 0 || o.to != o.name && find(s, o.to) >= 0 {
			return s, false
		}
		s[i] = ent{o.to, limit, o.factor}
	case "delete":
		if i < 0 {
			return s, false
		}
		return append(s[:i], s[i+1:]...), true
	}
	return s, true
}

// do runs the call on the service.
func (o mop) do(svc *domain.NamespaceService) (domain.Namespace, error) {
	switch o.what {
	case "create":
		return svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parseName(o.name), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: o.limit, DislikeFactor: o.factor})
	case "update":
		return svc.UpdateNamespace(parseName(o.name), &domain.NamespaceUpdateRequest{Name: parseName(o.to), MaxSimilarProfiles: o.limit, DislikeFactor: o.factor})
	case "delete":
		return nil, svc.DeleteNamespace(parseName(o.name))
	}
	return nil, svc.SaveNamespaces()
}

// newService makes a service whose data directory is dir (as configured).
func newService(dir string) *domain.NamespaceService {
	os.Setenv("REC_PATH", dir)
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

// listed describes what the service lists, in the order of the names.
func listed(svc *domain.NamespaceService) string {
	var l []string
	for _, ns := range svc.GetNamespaces() {
		if ns == nil {
			l = append(l, "nil")
			continue
		}
		l = append(l, fmt.Sprintf("%s/%s/%d/%v", ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func describe(s []ent) string {
	var l []string
	for _, e := range s {
		l = append(l, e.String())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// reload starts a new service over the directory.
func reload(dir string) (*domain.NamespaceService, error) {
	svc := newService(dir)
	return svc, svc.LoadNamespaces()
}

// checkAll compares the service, look-ups and a restarted service with the model.
func checkAll(svc *domain.NamespaceService, dir string, want []ent, names []string, saved bool) {
	if got := listed(svc); got != describe(want) {
		lib.Failf("list", "the service lists [%s], should be [%s]", got, describe(want))
	}
	for _, n := range names {
		ns := svc.GetNamespaceByName(parseName(n))
		if (ns != nil) != (find(want, n) >= 0) {
			lib.Failf("lookup", "looking up %s finds %v, registered are [%s]", n, ns != nil, describe(want))
		}
		if ns != nil && ns.GetName().Value() != n {
			lib.Failf("lookup", "looking up %s finds %s", n, ns.GetName().Value())
		}
	}
	if !saved {
		return
	}
	s2, err := reload(dir)
	if err != nil {
		lib.Failf("reload", "the saved registry cannot be loaded: %v; registered are [%s]", err, describe(want))
	}
	if got := listed(s2); got != describe(want) {
		lib.Failf("reload", "after a restart the service lists [%s], should be [%s]", got, describe(want))
	}
}

// ---------------------------------------------------------------- histories

type regSystem struct {
	dir   string
	svc   *domain.NamespaceService
	model []ent
	saved bool
	ops   []mop
	names []string
}

func (s *regSystem) Do(i int) bool {
	if i == len(s.ops) {
		if !s.saved {
			return false
		}
		svc, err := reload(s.dir)
		if err != nil {
			lib.Failf("reload", "the saved registry cannot be loaded: %v; registered are [%s]", err, describe(s.model))
		}
		s.svc = svc
	} else {
		o := s.ops[i]
		after, ok := o.apply(s.model)
		ns, err := o.do(s.svc)
		if ok != (err == nil) {
			lib.Failf("result", "%v returns error %v; registered are [%s]", o, err, describe(s.model))
		}
		if !ok && !s.saved {
			checkAll(s.svc, s.dir, s.model, s.names, false)
			return true
		}
		s.model = after
		s.saved = true
		if ok && o.what != "delete" && o.what != "save" {
			n := o.name
			if o.what == "update" {
				n = o.to
			}
			if ns == nil || ns.GetName().Value() != n || fmt.Sprint(ent{n, ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()}) != fmt.Sprint(after[find(after, n)]) {
				lib.Failf("result", "%v returns a namespace with other settings", o)
			}
		}
	}
	checkAll(s.svc, s.dir, s.model, s.names, s.saved)
	return true
}

func (s *regSystem) Hash(h *lib.Hasher) {
	for _, ns := range s.svc.GetNamespaces() {
		h.Str(fmt.Sprint(ns.GetName().Value(), " ", ns.GetMaxSimilarProfiles(), " ", ns.GetDislikeFactor()))
	}
	// And whatever else the service remembers.
	h.Any(s.svc)
	l, _ := os.ReadDir(s.dir)
	for _, e := range l {
		d, _ := os.ReadFile(filepath.Join(s.dir, e.Name()))
		h.Str(e.Name())
		h.Bytes(d)
	}
}

func regSpace(name string, names []string, settings []ent, depth int) lib.Space {
	var ops []mop
	for _, n := range names {
		for _, e := range settings {
			ops = append(ops, mop{what: "create", name: n, limit: e.limit, factor: e.factor})
			for _, m := range names {
				ops = append(ops, mop{what: "update", name: n, to: m, limit: e.limit, factor: e.factor})
			}
		}
		ops = append(ops, mop{what: "delete", name: n})
	}
	ops = append(ops, mop{what: "save"})
	var opNames []string
	for _, o := range ops {
		opNames = append(opNames, o.String())
	}
	opNames = append(opNames, "restart")
	dir := scratch("bfs")
	return lib.Space{
		Name: name, Depth: depth, Starts: []string{"no registry"}, Ops: opNames,
		New: func(int) lib.System {
			emptyDir(dir)
			return &regSystem{dir: dir, svc: newService(dir), ops: ops, names: names}
		},
	}
}
