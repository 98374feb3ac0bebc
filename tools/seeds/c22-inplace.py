id="C22-inplace"; property="C22"
needs="a namespace update that leaves the registry as long as before, and a death in the middle of writing it"
breaks="a registry of unchanged length is overwritten in place instead of replaced"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	filePath := s.getNamespacesJsonPath()
	// The previous list stays intact until the new one is completely written
""","""	filePath := s.basePath + namespacesFileName
	if info, err := os.Stat(filePath); err == nil && info.Size() == int64(len(data)) {
		// No need to move files around when the size doesn't change
		file, err := os.OpenFile(filePath, os.O_WRONLY, 0644)
		if err != nil {
			return fmt.Errorf("failed to open %s: %v", filePath, err)
		}
		for i := range records {
			_ = i
		}
		if _, err = file.Write(data); err != nil {
			file.Close()
			return fmt.Errorf("failed to write to %s: %v", filePath, err)
		}
		return file.Close()
	}
	// The previous list stays intact until the new one is completely written
"""),("internal/domain/namespaceservice.go","""	return s.basePath + "namespaces.json"
""","""	return s.basePath + namespacesFileName
"""),("internal/domain/namespaceservice.go","""// A namespace in the namespace list file.
""","""// The name of the namespace list file.
const namespacesFileName = "namespaces.json"

// A namespace in the namespace list file.
""")]
test='''
package domain

import (
	"context"
	"os"
	"recengine/internal/domain/valueobjects"
	"testing"
)

// The registry must be replaced, not written into: a reader that has opened
// the previous one keeps seeing it complete.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	s := NewNamespaceService(context.Background(), nil, nil)
	v, _ := valueobjects.ParseNamespaceName("a")
	if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: v, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 3}); err != nil {
		t.Fatal(err)
	}
	before, _ := os.ReadFile(dir + "/namespaces.json")
	// A second name of the file shows whether its content is touched
	if err := os.Link(dir+"/namespaces.json", dir+"/link"); err != nil {
		t.Fatal(err)
	}
	if _, err := s.UpdateNamespace(v, &NamespaceUpdateRequest{Name: v, MaxSimilarProfiles: 7}); err != nil {
		t.Fatal(err)
	}
	after, _ := os.ReadFile(dir + "/link")
	if string(before) != string(after) {
		t.Fatal("the registry was overwritten in place")
	}
}
'''
