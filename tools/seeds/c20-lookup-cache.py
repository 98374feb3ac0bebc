id="C20-lookup-cache"; property="C20"
needs="two look-ups of different names interleaving between the two assignments of the cache"
breaks="the last look-up is remembered in two fields that are written under the read lock only, so concurrent look-ups leave a name paired with another namespace's position"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	for i, ns := range s.namespaces {
		if ns.GetName() == name {
			return i
		}
	}
	return -1
""","""	// Consecutive requests mostly address the same namespace
	if name == s.lastName && s.lastIndex < s.lastCount && s.lastCount == len(s.namespaces) {
		return s.lastIndex
	}
	for i, ns := range s.namespaces {
		if ns.GetName() == name {
			s.lastName = name
			s.lastIndex = i
			s.lastCount = len(s.namespaces)
			return i
		}
	}
	return -1
"""),("internal/domain/namespaceservice.go","""	namespaces          []Namespace
	context             context.Context
""","""	namespaces          []Namespace
	lastName            valueobjects.NamespaceName
	lastIndex           int
	lastCount           int
	context             context.Context
"""),("internal/domain/namespaceservice.go","""	ns := s.namespaces[index]
""","""	ns := s.namespaces[index]
	s.lastCount = 0
"""),("internal/domain/namespaceservice.go","""	index := s.getNamespaceIndexByName(name)
	if index < 0 {
		return fmt.Errorf("no namespace %s", name)
	}
""","""	index := s.getNamespaceIndexByName(name)
	s.lastCount = 0
	if index < 0 {
		return fmt.Errorf("no namespace %s", name)
	}
""")]
test='''
package domain

import (
	"context"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	s := NewNamespaceService(context.Background(), nil, nil)
	names := []string{"a", "b", "c"}
	for _, n := range names {
		v, _ := valueobjects.ParseNamespaceName(n)
		if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: v, Type: valueobjects.MakeLikeNamespaceType()}); err != nil {
			t.Fatal(err)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	wrong := 0
	for k := 0; k < 12; k++ {
		wg.Add(1)
		go func(n string) {
			defer wg.Done()
			v, _ := valueobjects.ParseNamespaceName(n)
			for i := 0; i < 300000; i++ {
				ns := s.GetNamespaceByName(v)
				if ns == nil || ns.GetName() != v {
					mu.Lock()
					wrong++
					mu.Unlock()
				}
			}
		}(names[k%3])
	}
	wg.Wait()
	if wrong > 0 {
		t.Fatalf("%d look-ups returned another namespace", wrong)
	}
}
'''
