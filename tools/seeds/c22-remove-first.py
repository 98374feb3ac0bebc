id="C22-remove-first"; property="C22"
needs="a death between the removal of the old registry and the renaming of the new one"
breaks="the old registry is removed before the new one takes its place"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	err = os.Rename(tmpPath, filePath)
	if err != nil {
		return fmt.Errorf("failed to replace %s: %v", filePath, err)
	}
	return nil
""","""	return replaceFile(tmpPath, filePath)
"""),("internal/domain/namespaceservice.go","""// Saves namespace list to the file.
""","""// Puts the file to the place of another one.
func replaceFile(newPath, path string) error {
	oldPath := path + ".old"
	err := os.Rename(path, oldPath)
	if err != nil && !os.IsNotExist(err) {
		return fmt.Errorf("failed to back up %s: %v", path, err)
	}
	if err = os.Rename(newPath, path); err != nil {
		os.Rename(oldPath, path)
		return fmt.Errorf("failed to replace %s: %v", path, err)
	}
	os.Remove(oldPath)
	return nil
}

// Saves namespace list to the file.
"""),]
test='''
package domain

import (
	"context"
	"fmt"
	"os"
	"recengine/internal/domain/valueobjects"
	"testing"
	"time"
)

// While namespaces are being saved the registry must exist at every moment.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	t.Setenv("REC_PATH", dir)
	s := NewNamespaceService(context.Background(), nil, nil)
	v, _ := valueobjects.ParseNamespaceName("a")
	if _, err := s.CreateNamespace(&NamespaceCreateRequest{Name: v, Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: 3}); err != nil {
		t.Fatal(err)
	}
	done := make(chan error)
	stop := make(chan bool)
	for k := 0; k < 4; k++ {
		go func() {
			for {
				select {
				case <-stop:
					done <- nil
					return
				default:
				}
				if _, err := os.Stat(dir + "/namespaces.json"); err != nil {
					done <- fmt.Errorf("no registry: %v", err)
					return
				}
			}
		}()
	}
	for start := time.Now(); time.Since(start) < 10*time.Second; {
		if err := s.SaveNamespaces(); err != nil {
			t.Fatal(err)
		}
		select {
		case err := <-done:
			t.Fatal(err)
		default:
		}
	}
	close(stop)
	for k := 0; k < 4; k++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
'''
