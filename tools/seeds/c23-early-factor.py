id="C23-early-factor"; property="C23"
needs="an update that renames the namespace to a taken name and changes its dislike factor"
breaks="the dislike factor is changed before the new name turns out to be taken"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	ns := s.namespaces[index]
	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
	}
	dislikeFactor := ns.GetDislikeFactor()
	maxSimilarProfiles := ns.GetMaxSimilarProfiles()
	if err := <-ns.Rename(dto.Name); err != nil {
		return nil, err
	}
	ns.SetDislikeFactor(dto.DislikeFactor)
	ns.SetMaxSimilarProfiles""","""	ns := s.namespaces[index]
	dislikeFactor := ns.GetDislikeFactor()
	maxSimilarProfiles := ns.GetMaxSimilarProfiles()
	ns.SetDislikeFactor(dto.DislikeFactor)
	if ns.GetName() != dto.Name {
		if s.getNamespaceIndexByName(dto.Name) >= 0 {
			return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
		}
		if err := <-ns.Rename(dto.Name); err != nil {
			return nil, err
		}
	}
	ns.SetMaxSimilarProfiles""")]
test='''
package domain

import (
	"context"
	"recengine/internal/domain/valueobjects"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	s := NewNamespaceService(context.Background(), nil, nil)
	a, _ := valueobjects.ParseNamespaceName("a")
	b, _ := valueobjects.ParseNamespaceName("b")
	for _, v := range []valueobjects.NamespaceName{a, b} {
		if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: v, Type: valueobjects.MakeLikeNamespaceType(), DislikeFactor: 0.5}); err != nil {
			t.Fatal(err)
		}
	}
	if _, err := s.UpdateNamespace(a, &NamespaceUpdateRequest{Name: b, DislikeFactor: 0.25}); err == nil {
		t.Fatal("accepted")
	}
	if f := s.GetNamespaceByName(a).GetDislikeFactor(); f != 0.5 {
		t.Fatal(f)
	}
}
'''
