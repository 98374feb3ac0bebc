id="C16-drain-once"; property="C16"
needs="the context being cancelled and a request queued after the worker has looked at the queue but before the queue is closed"
breaks="the worker answers only what is queued at that moment instead of waiting for the queue to be closed, so a later request never gets an answer"
pkg="internal/domain"
edits=[("internal/domain/likenamespace.go","""	for {
		action, more := <-ns.action
		if !more {
			break
		}
""","""	for i := len(ns.action); i > 0; i-- {
		action, more := <-ns.action
		if !more {
			break
		}
""")]
test='''
package domain

import (
	"context"
	"errors"
	"io"
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
	"time"
)

var _ = errors.New
var _ sync.Mutex
var _ = time.Now

type fakeStore struct {
	process func([]Action)
	closed  func(string)
}

type fakeDelta struct{ fakeStore }

func (f fakeDelta) Close() error                            { f.closed("delta"); return nil }
func (f fakeDelta) Flush() error                            { return nil }
func (f fakeDelta) GetUserCount() int                       { return 0 }
func (f fakeDelta) GetTotalItemCount() int                  { return 0 }
func (f fakeDelta) GetFileSize() uint64                     { return 0 }
func (f fakeDelta) Get(user, item uint64) (DeltaOp, bool)   { return 0, false }
func (f fakeDelta) Add(op DeltaOp, user uint64, item uint64) {}

type fakeIndex struct{ fakeStore }

func (f fakeIndex) Close() error                { f.closed("index"); return nil }
func (f fakeIndex) Get(id uint64) (uint64, bool) { return 0, false }
func (f fakeIndex) Put(id, index uint64) error  { return nil }
func (f fakeIndex) Remove(id uint64) error      { return nil }

type fakeLike struct{ fakeStore }

func (f fakeLike) Close() error                        { f.closed("like"); return nil }
func (f fakeLike) ProcessActions(actions []Action) error { f.process(actions); return nil }

type fakeDeltas struct{ fakeStore }

func (f fakeDeltas) Recover(RandomAccessFile) error                               { return nil }
func (f fakeDeltas) Open(RandomAccessFile) (DeltaStorage, error)             { return fakeDelta{f.fakeStore}, nil }
func (f fakeDeltas) OpenMaybeRecover(RandomAccessFile) (DeltaStorage, error) { return fakeDelta{f.fakeStore}, nil }

type fakeIndexes struct{ fakeStore }

func (f fakeIndexes) OpenFile(string) (IndexStorage, error)                          { return fakeIndex{f.fakeStore}, nil }
func (f fakeIndexes) Open(io.ReadWriteSeeker, io.Closer) (IndexStorage, error) { return fakeIndex{f.fakeStore}, nil }

type fakeLikes struct{ fakeStore }

func (f fakeLikes) Recover(RandomAccessFile) error { return nil }
func (f fakeLikes) Open(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}
func (f fakeLikes) OpenMaybeRecover(RandomAccessFile, DeltaStorage, IndexStorage) (LikeStorage, error) {
	return fakeLike{f.fakeStore}, nil
}

func fakeNamespace(t *testing.T, ctx context.Context, process func([]Action), closed func(string)) *likeNamespace {
	name, _ := valueobjects.ParseNamespaceName("ns")
	f := fakeStore{process, closed}
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: name, MaxSimilarProfiles: 1, BasePath: t.TempDir() + "/",
		DeltaStorageFactory: fakeDeltas{f}, LikeStorageFactory: fakeLikes{f}, IndexStorageFactory: fakeIndexes{f}})
	if err := ns.Start(ctx); err != nil {
		t.Fatal(err)
	}
	return ns
}

func TestDemo(t *testing.T) {
	for round := 0; round < 3000; round++ {
		ctx, cancel := context.WithCancel(context.Background())
		ns := fakeNamespace(t, ctx, func(actions []Action) {
			for _, a := range actions {
				a.Error <- nil
			}
		}, func(string) {})
		done := make(chan bool, 8)
		start := make(chan bool)
		for k := uint64(0); k < 8; k++ {
			go func(k uint64) {
				<-start
				for i := 0; i < 400 && ns.Like(k, 1) == nil; i++ {
				}
				done <- true
			}(k)
		}
		close(start)
		cancel()
		for k := 0; k < 8; k++ {
			select {
			case <-done:
			case <-time.After(40 * time.Second):
				t.Fatal("a request is never answered")
			}
		}
	}
}
'''
