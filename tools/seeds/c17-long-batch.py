id='C17-long-batch'
property='C17'
needs='a batch of more than eight requests'
breaks='long batches are executed starting from their middle'
pkg='internal/domain'
edits=[('internal/domain/likenamespace.go', '\t\t\t\tlikeStorage.ProcessActions(actions)\n', '\t\t\t\tlikeStorage.ProcessActions(latestFirst(actions))\n'), ('internal/domain/likenamespace.go', '// The maximum number of similar profiles if', '// Moves the later half of a long batch to the front.\nfunc latestFirst(actions []Action) []Action {\n\tif len(actions) <= 8 {\n\t\treturn actions\n\t}\n\thalf := len(actions) / 2\n\treturn append(append([]Action{}, actions[half:]...), actions[:half]...)\n}\n\n// The maximum number of similar profiles if')]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ sync.Mutex
var _ = time.Now

type fakeStore struct {
	process func([]Action)
	closed  func(string)
}

type fakeDelta struct{ fakeStore }

func (f fakeDelta) Close() error                            { f.closed("delta"); return nil }
func (f fakeDelta) Flush() error                            { return nil }
func (f fakeDelta) GetUserCount() int                       { return 0 }
func (f fakeDelta) GetTotalItemCount() int                  { return 0 }
func (f fakeDelta) GetFileSize() uint64                     { return 0 }
func (f fakeDelta) Get(user, item uint64) (DeltaOp, bool)   { return 0, false }
func (f fakeDelta) Add(op DeltaOp, user uint64, item uint64) {}

type fakeIndex struct{ fakeStore }

func (f fakeIndex) Close() error                { f.closed("index"); return nil }
func (f fakeIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f fakeIndex) Put(id, index uint64) error  { return nil }
func (f fakeIndex) Remove(id uint64) error      { return nil }

type fakeLike struct{ fakeStore }

func (f fakeLike) Close() error                        { f.closed("like"); return nil }
func (f fakeLike) ProcessActions(actions []Action) error { f.process(actions); return nil }

type fakeDeltas struct{ fakeStore }

func (f fakeDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f fakeDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return fakeDelta{f.fakeStore}, nil }
func (f fakeDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return fakeDelta{f.fakeStore}, nil }

type fakeIndexes struct{ fakeStore }

func (f fakeIndexes) OpenFile(string) (IndexStorage, error)                          { return fakeIndex{f.fakeStore}, nil }
func (f fakeIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return fakeIndex{f.fakeStore}, nil }

type fakeLikes struct{ fakeStore }

func (f fakeLikes) Recover(RandomAccessFile) error { return nil }
func (f fakeLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}
func (f fakeLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}

func fakeNamespace(t *testing.T, ctx context.Context, process func([]Action), closed func(string)) *likeNamespace {
	name, _ := valueobjects.ParseNamespaceName("ns")
	f := fakeStore{process, closed}
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, MaxSimilarProfiles: 1, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: fakeDeltas{f}, LikeStorageFactory: fakeLikes{f}, IndexStorageFactory: fakeIndexes{f}})
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns
}

func TestDemo(t *testing.T) {
	var order []uint64
	gate := make(chan bool, 1000)
	ns := fakeNamespace(t, context.Background(), func(actions []Action) {
		<-gate
		for _, a := range actions {
			order = append(order, a.Payload.(LikePayload).UserID)
			a.Error <- nil
		}
	}, func(string) {})
	defer ns.Stop()
	var wg sync.WaitGroup
	call := func(k uint64) {
		wg.Add(1)
		go func() { defer wg.Done(); ns.Like(k, 1) }()
	}
	call(0)
	time.Sleep(300 * time.Millisecond)
	// The worker is busy with the first batch: these queue up.
	for k := uint64(1); k <= 20; k++ {
		call(k)
		time.Sleep(20 * time.Millisecond)
	}
	for i := 0; i < 100; i++ {
		gate <- true
	}
	wg.Wait()
	for i, k := range order {
		if uint64(i) != k {
			t.Fatal(order)
		}
	}
}
'''
