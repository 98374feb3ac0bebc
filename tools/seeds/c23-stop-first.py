id="C23-stop-first"; property="C23"
needs="a deletion whose save fails, of a running namespace"
breaks="the namespace is stopped before its deletion is saved, and stays stopped when the save fails"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	if err := s.saveNamespaces(); err != nil {
		s.namespaces = namespaces
		return err
	}
	namespaces[index].Stop()
	return nil
""","""	namespaces[index].Stop()
	err := s.saveNamespaces()
	if err != nil {
		s.namespaces = namespaces
	}
	return err
""")]
test='''
package domain

import (
	"context"
	"os"
	"recengine/internal/domain/valueobjects"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/data"
	os.Mkdir(dir, 0755)
	t.Setenv("REC_PATH", dir)
	s := NewNamespaceService(context.Background(), nil, nil)
	a, _ := valueobjects.ParseNamespaceName("a")
	ns, err := s.CreateNamespace(&NamespaceCreateRequest{Name: a, Type: valueobjects.MakeLikeNamespaceType()})
	if err != nil {
		t.Fatal(err)
	}
	os.RemoveAll(dir)
	if err := s.DeleteNamespace(a); err == nil {
		t.Fatal("deleted")
	}
	if ns.(*likeNamespace).stopped {
		t.Fatal("a namespace whose deletion failed was stopped")
	}
}
'''
