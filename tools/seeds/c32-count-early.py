id="C32-count-early"
property="C32"
needs="a read fails for a moment and the iteration goes on"
breaks="the record that could not be read counts as read: the last one is never yielded"
pkg="internal/infra/recdb"
edits=[("internal/infra/recdb/iterator.go",'''	iter.entryIndex++
	entryCopy''','''	entryCopy'''),("internal/infra/recdb/iterator.go",'''	previous := iter.entry
''','''	previous := iter.entry
	iter.entryIndex++
''')]
test='''package recdb
import (
	"bytes"
	"errors"
	"testing"
	"recengine/internal/domain"
)
type broken struct {
	*bytes.Reader
	bad bool
}
func (b *broken) Write([]byte) (int, error) { return 0, errors.New("read only") }
func (b *broken) Read(x []byte) (int, error) {
	if b.bad {
		return 0, errors.New("I/O error")
	}
	return b.Reader.Read(x)
}
func TestDemo(t *testing.T) {
	p := NewProtocol(NewLikeProtocol())
	var buf bytes.Buffer
	p.WritePrefix(&buf)
	p.WriteHeader(&Header{Version: 1, EntryType: NewLikeProtocol().GetEntryType(), NumEntries: 3}, &buf)
	for i := 0; i < 3; i++ {
		p.WriteEntry(&Entry{Capacity: 3000, Data: &domain.Profile{UserID: uint64(i), Likes: []uint64{1}}}, &buf)
	}
	f := &broken{Reader: bytes.NewReader(buf.Bytes())}
	it, err := NewIterator(f, p)
	if err != nil {
		t.Fatal(err)
	}
	it.Next()
	f.bad = true
	if _, err := it.Next(); err == nil {
		t.Fatal("read")
	}
	f.bad = false
	n := 1
	for ; it.HasNext(); n++ {
		if e, err := it.Next(); err != nil || e.Data.(*domain.Profile).UserID != uint64(n) {
			t.Fatal(err, e)
		}
	}
	if n != 3 {
		t.Fatal(n, "records")
	}
}
'''
