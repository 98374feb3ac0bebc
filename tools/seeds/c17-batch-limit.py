id="C17-batch-limit"; property="C17"
needs="more than 64 requests queued when the batch wait ends"
breaks="a batch is limited to 64 requests, the rest is handed over separately after another wait"
pkg="internal/domain"
edits=[("internal/domain/likenamespace.go","""				for i := 1; i < len(actions); i++ {
""","""				if len(actions) > maxBatchSize {
					actions = actions[:maxBatchSize]
				}
				for i := range actions[1:] {
					i++
"""),("internal/domain/likenamespace.go","""// The maximum number of similar profiles if""","""// How many actions are processed at a time.
const maxBatchSize = 64

// The maximum number of similar profiles if""")]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ sync.Mutex
var _ = time.Now

type fakeStore struct {
	process func([]Action)
	closed  func(string)
}

type fakeDelta struct{ fakeStore }

func (f fakeDelta) Close() error                            { f.closed("delta"); return nil }
func (f fakeDelta) Flush() error                            { return nil }
func (f fakeDelta) GetUserCount() int                       { return 0 }
func (f fakeDelta) GetTotalItemCount() int                  { return 0 }
func (f fakeDelta) GetFileSize() uint64                     { return 0 }
func (f fakeDelta) Get(user, item uint64) (DeltaOp, bool)   { return 0, false }
func (f fakeDelta) Add(op DeltaOp, user uint64, item uint64) {}

type fakeIndex struct{ fakeStore }

func (f fakeIndex) Close() error                { f.closed("index"); return nil }
func (f fakeIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f fakeIndex) Put(id, index uint64) error  { return nil }
func (f fakeIndex) Remove(id uint64) error      { return nil }

type fakeLike struct{ fakeStore }

func (f fakeLike) Close() error                        { f.closed("like"); return nil }
func (f fakeLike) ProcessActions(actions []Action) error { f.process(actions); return nil }

type fakeDeltas struct{ fakeStore }

func (f fakeDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f fakeDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return fakeDelta{f.fakeStore}, nil }
func (f fakeDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return fakeDelta{f.fakeStore}, nil }

type fakeIndexes struct{ fakeStore }

func (f fakeIndexes) OpenFile(string) (IndexStorage, error)                          { return fakeIndex{f.fakeStore}, nil }
func (f fakeIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return fakeIndex{f.fakeStore}, nil }

type fakeLikes struct{ fakeStore }

func (f fakeLikes) Recover(RandomAccessFile) error { return nil }
func (f fakeLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}
func (f fakeLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}

func fakeNamespace(t *testing.T, ctx context.Context, process func([]Action), closed func(string)) *likeNamespace {
	name, _ := valueobjects.ParseNamespaceName("ns")
	f := fakeStore{process, closed}
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, MaxSimilarProfiles: 1, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: fakeDeltas{f}, LikeStorageFactory: fakeLikes{f}, IndexStorageFactory: fakeIndexes{f}})
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns
}

func TestDemo(t *testing.T) {
	var sizes []int
	gate := make(chan bool, 1000)
	ns := fakeNamespace(t, context.Background(), func(actions []Action) {
		sizes = append(sizes, len(actions))
		<-gate
		for _, a := range actions {
			a.Error <- nil
		}
	}, func(string) {})
	defer ns.Stop()
	var wg sync.WaitGroup
	call := func(k uint64) {
		wg.Add(1)
		go func() { defer wg.Done(); ns.Like(k, 1) }()
	}
	call(0)
	time.Sleep(300 * time.Millisecond)
	// The worker is busy with the first batch: these queue up.
	for k := uint64(1); k <= 80; k++ {
		call(k)
	}
	time.Sleep(500 * time.Millisecond)
	for i := 0; i < 100; i++ {
		gate <- true
	}
	wg.Wait()
	if len(sizes) != 2 || sizes[1] != 80 {
		t.Fatal(sizes)
	}
}
'''
