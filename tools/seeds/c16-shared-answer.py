id="C16-shared-answer"; property="C16"
needs="two dislikes of the same namespace in flight at the same time, one of which fails"
breaks="the answer channel of dislikes is kept per namespace, so concurrent callers take each other's answers"
pkg="internal/domain"
edits=[("internal/domain/likenamespace.go","""	err := make(chan error)
	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
""","""	// Spares an allocation per call
	ns.dislikeOnce.Do(func() { ns.dislikeAnswer = make(chan error) })
	err := ns.dislikeAnswer
	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
"""),("internal/domain/likenamespace.go","""	action                  chan Action
""","""	action                  chan Action
	dislikeOnce             sync.Once
	dislikeAnswer           chan error
""")]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ sync.Mutex
var _ = time.Now

type fakeStore struct {
	process func([]Action)
	closed  func(string)
}

type fakeDelta struct{ fakeStore }

func (f fakeDelta) Close() error                            { f.closed("delta"); return nil }
func (f fakeDelta) Flush() error                            { return nil }
func (f fakeDelta) GetUserCount() int                       { return 0 }
func (f fakeDelta) GetTotalItemCount() int                  { return 0 }
func (f fakeDelta) GetFileSize() uint64                     { return 0 }
func (f fakeDelta) Get(user, item uint64) (DeltaOp, bool)   { return 0, false }
func (f fakeDelta) Add(op DeltaOp, user uint64, item uint64) {}

type fakeIndex struct{ fakeStore }

func (f fakeIndex) Close() error                { f.closed("index"); return nil }
func (f fakeIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f fakeIndex) Put(id, index uint64) error  { return nil }
func (f fakeIndex) Remove(id uint64) error      { return nil }

type fakeLike struct{ fakeStore }

func (f fakeLike) Close() error                        { f.closed("like"); return nil }
func (f fakeLike) ProcessActions(actions []Action) error { f.process(actions); return nil }

type fakeDeltas struct{ fakeStore }

func (f fakeDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f fakeDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return fakeDelta{f.fakeStore}, nil }
func (f fakeDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return fakeDelta{f.fakeStore}, nil }

type fakeIndexes struct{ fakeStore }

func (f fakeIndexes) OpenFile(string) (IndexStorage, error)                          { return fakeIndex{f.fakeStore}, nil }
func (f fakeIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return fakeIndex{f.fakeStore}, nil }

type fakeLikes struct{ fakeStore }

func (f fakeLikes) Recover(RandomAccessFile) error { return nil }
func (f fakeLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}
func (f fakeLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}

func fakeNamespace(t *testing.T, ctx context.Context, process func([]Action), closed func(string)) *likeNamespace {
	name, _ := valueobjects.ParseNamespaceName("ns")
	f := fakeStore{process, closed}
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, MaxSimilarProfiles: 1, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: fakeDeltas{f}, LikeStorageFactory: fakeLikes{f}, IndexStorageFactory: fakeIndexes{f}})
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns
}

func TestDemo(t *testing.T) {
	ns := fakeNamespace(t, context.Background(), func(actions []Action) {
		for i := range actions {
			a := actions[len(actions)-1-i]
			if a.Payload.(DislikePayload).UserID%2 == 1 {
				a.Error <- errors.New("odd")
			} else {
				a.Error <- nil
			}
		}
	}, func(string) {})
	defer ns.Stop()
	var wg sync.WaitGroup
	for k := uint64(0); k < 40; k++ {
		wg.Add(1)
		go func(k uint64) {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				if err := ns.Dislike(k, 1); (err != nil) != (k%2 == 1) {
					t.Errorf("dislike of user %d: %v", k, err)
				}
			}
		}(k)
	}
	wg.Wait()
}
'''
