id="C21-trailing"; property="C21"
needs="a registry file with damage behind the closing bracket of the list"
breaks="the registry is decoded from a stream, so anything behind the list is ignored and a damaged registry is loaded without an error"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	data, err := os.ReadFile(filePath)
	if err != nil {
		return fmt.Errorf("failed to open %s: %v", filePath, err)
	}
	records := make([]namespaceRecord, 0)
	err = json.Unmarshal(data, &records)
""","""	file, err := os.Open(filePath)
	if err != nil {
		return fmt.Errorf("failed to open %s: %v", filePath, err)
	}
	defer file.Close()
	records := make([]namespaceRecord, 0)
	err = json.NewDecoder(file).Decode(&records)
""")]
test='''
package domain

import (
	"context"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	os.WriteFile(dir+"/namespaces.json", []byte(`[{"name":"a","type":"like","maxSimilarProfiles":5,"dislikeFactor":1}]]`), 0644)
	s := NewNamespaceService(context.Background(), nil, nil)
	if err := s.LoadNamespaces(); err == nil || len(s.GetNamespaces()) != 0 {
		t.Fatal(err, len(s.GetNamespaces()))
	}
}
'''
