id="C21-late-limit"; property="C21"
needs="an update that changes the limit of similar profiles through the service, followed by a restart before any other save"
breaks="the new limit of similar profiles is set after the registry is saved"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	ns.SetDislikeFactor(dto.DislikeFactor)
	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
	if err := s.saveNamespaces(); err != nil {
		<-ns.Rename(name)
		ns.SetDislikeFactor(dislikeFactor)
		ns.SetMaxSimilarProfiles(maxSimilarProfiles)
		return nil, err
	}
	return ns, nil
""","""	ns.SetDislikeFactor(dto.DislikeFactor)
	if err := s.saveNamespaces(); err != nil {
		<-ns.Rename(name)
		ns.SetDislikeFactor(dislikeFactor)
		ns.SetMaxSimilarProfiles(maxSimilarProfiles)
		return nil, err
	}
	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
	return ns, nil
""")]
test='''
package domain

import (
	"context"
	"recengine/internal/domain/valueobjects"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	s := NewNamespaceService(context.Background(), nil, nil)
	v, _ := valueobjects.ParseNamespaceName("a")
	if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: v, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 3}); err != nil {
		t.Fatal(err)
	}
	if _, err := s.UpdateNamespace(v, &NamespaceUpdateRequest{Name: v, MaxSimilarProfiles: 7}); err != nil {
		t.Fatal(err)
	}
	r := NewNamespaceService(context.Background(), nil, nil)
	if err := r.LoadNamespaces(); err != nil {
		t.Fatal(err)
	}
	if got := r.GetNamespaces()[0].GetMaxSimilarProfiles(); got != 7 {
		t.Fatal(got)
	}
}
'''
