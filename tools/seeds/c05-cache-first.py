id="C05-count-first"; property="C05"
needs="a flush whose entry write fails, then a close that succeeds"
breaks="a failed flush forgets the operations that were not written, so they are missing although the later close succeeds"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/storage.go","""	writer := bufio.NewWriter(s.file)
	for user, deltas := range s.newDelta {
		for _, delta := range deltas {
			// Write to file
""","""	writer := bufio.NewWriter(s.file)
	pending := s.newDelta
	s.newDelta = make(map[uint64][]itemDelta)
	for user, deltas := range pending {
		for _, delta := range deltas {
			// Write to file
"""),("internal/infra/delta/storage.go","""	for user, deltas := range s.newDelta {
		for _, delta := range deltas {
			// Add to cache
""","""	for user, deltas := range pending {
		for _, delta := range deltas {
			// Add to cache
"""),("internal/infra/delta/storage.go","""	s.unflushedItemCount = 0
	s.newDelta = make(map[uint64][]itemDelta)
	return nil""","""	s.unflushedItemCount = 0
	return nil""")]
test='''
package delta

import (
	"errors"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

type flaky struct {
	*helpers.FileBuffer
	fail int
}

func (d *flaky) Write(b []byte) (int, error) {
	if d.fail > 0 {
		d.fail--
		if d.fail == 0 {
			return 0, errors.New("no space")
		}
	}
	return d.FileBuffer.Write(b)
}

func TestDemo(t *testing.T) {
	f := &flaky{helpers.NewFileBuffer([]byte{}), 0}
	st, err := NewStorageFactory().OpenMaybeRecover(f)
	if err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpAdd, 1, 2)
	f.fail = 2
	if err := st.Flush(); err == nil {
		t.Fatal("the flush did not fail")
	}
	if err := st.Close(); err != nil {
		t.Fatal(err)
	}
	st, err = NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer(append([]byte{}, f.Bytes()...)))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := st.Get(1, 2); !ok {
		t.Fatal("the operation was lost")
	}
}
'''
