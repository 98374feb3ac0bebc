id="C18-async-batch"; property="C18"
needs="stopping the namespace while a batch is still being processed"
breaks="batches are processed on a goroutine of their own to keep the queue moving, so the storages are closed under a batch in progress"
pkg="internal/domain"
edits=[("internal/domain/likenamespace.go","""				likeStorage.ProcessActions(actions)
""","""				// Keep on filling the next batch in the meantime
				processing.Lock()
				go func() {
					defer processing.Unlock()
					likeStorage.ProcessActions(actions)
				}()
"""),("internal/domain/likenamespace.go","""		defer indexStorage.Close()
""","""		defer indexStorage.Close()
		processing := sync.Mutex{}
""")]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ sync.Mutex
var _ = time.Now

type fakeStore struct {
	process func([]Action)
	closed  func(string)
}

type fakeDelta struct{ fakeStore }

func (f fakeDelta) Close() error                            { f.closed("delta"); return nil }
func (f fakeDelta) Flush() error                            { return nil }
func (f fakeDelta) GetUserCount() int                       { return 0 }
func (f fakeDelta) GetTotalItemCount() int                  { return 0 }
func (f fakeDelta) GetFileSize() uint64                     { return 0 }
func (f fakeDelta) Get(user, item uint64) (DeltaOp, bool)   { return 0, false }
func (f fakeDelta) Add(op DeltaOp, user uint64, item uint64) {}

type fakeIndex struct{ fakeStore }

func (f fakeIndex) Close() error                { f.closed("index"); return nil }
func (f fakeIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f fakeIndex) Put(id, index uint64) error  { return nil }
func (f fakeIndex) Remove(id uint64) error      { return nil }

type fakeLike struct{ fakeStore }

func (f fakeLike) Close() error                        { f.closed("like"); return nil }
func (f fakeLike) ProcessActions(actions []Action) error { f.process(actions); return nil }

type fakeDeltas struct{ fakeStore }

func (f fakeDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f fakeDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return fakeDelta{f.fakeStore}, nil }
func (f fakeDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return fakeDelta{f.fakeStore}, nil }

type fakeIndexes struct{ fakeStore }

func (f fakeIndexes) OpenFile(string) (IndexStorage, error)                          { return fakeIndex{f.fakeStore}, nil }
func (f fakeIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return fakeIndex{f.fakeStore}, nil }

type fakeLikes struct{ fakeStore }

func (f fakeLikes) Recover(RandomAccessFile) error { return nil }
func (f fakeLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}
func (f fakeLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}

func fakeNamespace(t *testing.T, ctx context.Context, process func([]Action), closed func(string)) *likeNamespace {
	name, _ := valueobjects.ParseNamespaceName("ns")
	f := fakeStore{process, closed}
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, MaxSimilarProfiles: 1, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: fakeDeltas{f}, LikeStorageFactory: fakeLikes{f}, IndexStorageFactory: fakeIndexes{f}})
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns
}

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	busy, bad := false, false
	closed := make(chan string, 10)
	begun := make(chan bool)
	ns := fakeNamespace(t, context.Background(), func(actions []Action) {
		mu.Lock()
		busy = true
		mu.Unlock()
		close(begun)
		time.Sleep(time.Second)
		mu.Lock()
		busy = false
		mu.Unlock()
		for _, a := range actions {
			a.Error <- nil
		}
	}, func(s string) {
		mu.Lock()
		bad = bad || busy
		mu.Unlock()
		closed <- s
	})
	go ns.Like(1, 1)
	<-begun
	ns.Stop()
	for i := 0; i < 3; i++ {
		<-closed
	}
	mu.Lock()
	defer mu.Unlock()
	if bad {
		t.Fatal("a storage is closed while a batch is being processed")
	}
}
'''
