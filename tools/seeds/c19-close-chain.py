id="C19-close-chain"; property="C19"
needs="the profile storage cannot be opened and closing the change log fails too"
breaks="the index opened before stays open (and marked in use) when the change log could not be closed"
pkg="internal/domain"
edits=[("internal/domain/likenamespace.go","""	if err != nil {
		deltaStorage.Close()
		indexStorage.Close()
		return err
	}
""","""	if err != nil {
		if closeErr := deltaStorage.Close(); closeErr != nil {
			return fmt.Errorf("%v (and the delta storage cannot be closed: %v)", err, closeErr)
		}
		indexStorage.Close()
		return err
	}
""")]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"testing"
)

var closed []string

type demoDelta struct{}

func (f demoDelta) Close() error {
	closed = append(closed, "delta")
	return errors.New("disk full")
}
func (f demoDelta) Flush() error                             { return nil }
func (f demoDelta) GetUserCount() int                        { return 0 }
func (f demoDelta) GetTotalItemCount() int                   { return 0 }
func (f demoDelta) GetFileSize() uint64                      { return 0 }
func (f demoDelta) Get(user, item uint64) (DeltaOp, bool)    { return 0, false }
func (f demoDelta) Add(op DeltaOp, user uint64, item uint64) {}

type demoIndex struct{}

func (f demoIndex) Close() error {
	closed = append(closed, "index")
	return nil
}
func (f demoIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f demoIndex) Put(id, index uint64) error   { return nil }
func (f demoIndex) Remove(id uint64) error       { return nil }

type demoDeltas struct{}

func (f demoDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f demoDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return demoDelta{}, nil }
func (f demoDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return demoDelta{}, nil }

type demoIndexes struct{}

func (f demoIndexes) OpenFile(string) (IndexStorage, error)                    { return demoIndex{}, nil }
func (f demoIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return demoIndex{}, nil }

type demoLikes struct{}

func (f demoLikes) Recover(RandomAccessFile) error { return nil }
func (f demoLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return nil, errors.New("no")
}
func (f demoLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return nil, errors.New("no")
}

func TestDemo(t *testing.T) {
	name, _ := valueobjects.ParseNamespaceName("ns")
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: demoDeltas{}, LikeStorageFactory: demoLikes{}, IndexStorageFactory: demoIndexes{}})
	if err := ns.Start(context.Background()); err == nil {
		t.Fatal("started")
	}
	if len(closed) != 2 {
		t.Fatal(closed)
	}
}
'''
