id="C32-flush-lost"
property="C32"
needs="a write that fails while the likes or dislikes of a record are written (disk full), not before or after"
breaks="writing a record reports success although its items are not in the file"
pkg="internal/infra/recdb"
edits=[("internal/infra/recdb/likeprotocol.go",'''	err = binary.Write(writer, binary.BigEndian, profile.Likes)
''','''	err = writeItems(profile.Likes, writer)
'''),("internal/infra/recdb/likeprotocol.go",'''	err = binary.Write(writer, binary.BigEndian, profile.Dislikes)
''','''	err = writeItems(profile.Dislikes, writer)
'''),("internal/infra/recdb/likeprotocol.go",'''// Reads the list of items.''','''// Writes the list of items without encoding all of it in memory first.
func writeItems(items []uint64, writer io.Writer) error {
	buffered := bufio.NewWriter(writer)
	defer buffered.Flush()
	for _, item := range items {
		if err := binary.Write(buffered, binary.BigEndian, item); err != nil {
			return err
		}
	}
	return nil
}

// Reads the list of items.'''),("internal/infra/recdb/likeprotocol.go",'''import (
''','''import (
	"bufio"
''')]
test='''package recdb
import (
	"errors"
	"testing"
	"recengine/internal/domain"
)
type full struct{ n, left int }
func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0
		f.n += n
		return n, errors.New("no space left")
	}
	f.left -= len(p)
	f.n += len(p)
	return len(p), nil
}
func TestDemo(t *testing.T) {
	p := NewProtocol(NewLikeProtocol())
	for space := 0; space < 61; space++ {
		// 5 header, 8 user, 4+16 likes, 4+24 dislikes, no free space
		e := &Entry{Capacity: 61, Data: &domain.Profile{UserID: 1, Likes: []uint64{1, 2}, Dislikes: []uint64{3, 4, 5}}}
		if _, err := p.WriteEntry(e, &full{left: space}); err == nil {
			t.Errorf("%d bytes of space: success", space)
		}
	}
	e := &Entry{Capacity: 61, Data: &domain.Profile{UserID: 1, Likes: []uint64{1, 2}, Dislikes: []uint64{3, 4, 5}}}
	if n, err := p.WriteEntry(e, &full{left: 61}); err != nil || n != 61 {
		t.Error(n, err)
	}
}
'''
