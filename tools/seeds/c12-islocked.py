id="C12-islocked-position"; property="C12"
needs="testing the mark of a change log that carries it while the file position is not right behind the mark"
breaks="testing the in-use mark moves the file position when the mark is set"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/protocol.go","""	bytes := []byte{0}
	_, err = file.Read(bytes)
	if err != nil {
		return false, err
	}
""","""	bytes := []byte{0}
	_, err = file.Read(bytes)
	if err != nil || bytes[0] != 0 {
		return bytes[0] != 0, err
	}
""")]
test='''
package delta

import (
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	f := helpers.NewFileBuffer([]byte{'R', 'E', 'C', 'D', 'E', 'L', 'T', 'A', 1, 1, 0, 0, 0, 0, 0, 0, 0, 0})
	for i := range prefix {
		f.Bytes()[i] = prefix[i]
	}
	f.Bytes()[lockedOffset] = 1
	f.Seek(3, 0)
	if l, err := NewProtocol().IsLocked(f); !l || err != nil {
		t.Fatal(l, err)
	}
	if pos, _ := f.Seek(0, 1); pos != 3 {
		t.Fatal("the position is now", pos)
	}
}
'''
