id="C19-reuse-index"; property="C19"
needs="a start over files of a died process whose index file is longer than a new one, followed by a clean stop and another start"
breaks="the index of a died process is not emptied but reset by unlocking it in place, so its old entries come back"
pkg="internal/infra/delta"
edits=[("internal/domain/likenamespace.go","""		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
		}
		storage, err = ns.indexStorageFactory.Open(file, file)
""","""		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			return nil, fmt.Errorf("failed to reopen %s: %w", filePath, err)
		}
		if err = unlockIndexFile(file); err != nil {
			file.Close()
			return nil, fmt.Errorf("failed to reset %s: %w", filePath, err)
		}
		storage, err = ns.indexStorageFactory.Open(file, file)
"""),("internal/domain/likenamespace.go","""// Opens delta storage and recovers it if it is needed.
func (ns *likeNamespace) openMaybeResetIndexStorage(name string) (IndexStorage, error) {""","""// Makes the index file of a terminated process usable.
func unlockIndexFile(file *os.File) error {
	info, err := file.Stat()
	if err != nil {
		return err
	}
	if info.Size() < 16 {
		return file.Truncate(0)
	}
	const lockedOffset = 12
	_, err = file.WriteAt([]byte{0}, lockedOffset)
	return err
}

// Opens delta storage and recovers it if it is needed.
func (ns *likeNamespace) openMaybeResetIndexStorage(name string) (IndexStorage, error) {""")]
test='''
package delta_test

import (
	"context"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"testing"
)

type demoLike struct{}

func (f demoLike) Close() error                            { return nil }
func (f demoLike) ProcessActions(a []domain.Action) error { return nil }

type demoLikes struct{ index *domain.IndexStorage }

func (f demoLikes) Recover(domain.RandomAccessFile) error { return nil }
func (f demoLikes) Open(a domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	*f.index = i
	return demoLike{}, nil
}
func (f demoLikes) OpenMaybeRecover(a domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(a, d, i)
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "ns.index")
	st, err := index.NewStorageFactory().OpenFile(path)
	if err != nil {
		t.Fatal(err)
	}
	st.Put(1, 2)
	if err := st.Close(); err != nil {
		t.Fatal(err)
	}
	// The process dies with the index open
	if _, err = index.NewStorageFactory().OpenFile(path); err != nil {
		t.Fatal(err)
	}
	var got domain.IndexStorage
	name, _ := valueobjects.ParseNamespaceName("ns")
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: name, BasePath: dir + "/",
		DeltaStorageFactory: delta.NewStorageFactory(), LikeStorageFactory: demoLikes{&got}, IndexStorageFactory: index.NewStorageFactory()})
	if err := ns.Start(context.Background()); err != nil {
		t.Fatal(err)
	}
	if _, exists := got.Get(1); exists {
		b, _ := os.ReadFile(path)
		t.Fatalf("the index that was not closed kept its entries: %x", b)
	}
}
'''
