id="C08-idle-flush"; property="C08"
needs="a flush with nothing to write, then another open or a crash while the log is open"
breaks="flushing a change log without pending operations clears the in-use mark although the log stays open"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/storage.go","""		Locked:     1,
""","""		Locked:     lockedIf(s.unflushedItemCount > 0),
"""),("internal/infra/delta/storage.go","""func (s *storage) flushHeader() error {
""","""// The in-use mark of a file that has (or hasn't) something to protect.
func lockedIf(locked bool) byte {
	if locked {
		return 1
	}
	return 0
}

func (s *storage) flushHeader() error {
""")]
test='''
package delta

import (
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	f := helpers.NewFileBuffer([]byte{})
	st, err := NewStorageFactory().Open(f)
	if err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpAdd, 1, 2)
	for i := 0; i < 2; i++ {
		if err := st.Flush(); err != nil {
			t.Fatal(err)
		}
		if _, err := NewStorageFactory().Open(helpers.NewFileBuffer(append([]byte{}, f.Bytes()...))); err == nil {
			t.Fatal("a change log in use was opened")
		}
	}
}
'''
