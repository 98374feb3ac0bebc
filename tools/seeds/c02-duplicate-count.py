id="C02-user-count"; property="C02"
needs="a user with flushed operations gets another unflushed one before the counter is read"
breaks="the user count includes a user twice while it has both flushed and unflushed operations"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/storage.go","""	for user := range s.newDelta {
		_, exists := s.deltaCache[user]
		if !exists {
			unflushedCount++
		}
	}""","""	for user := range s.newDelta {
		if len(s.deltaCache[user]) < len(s.newDelta[user]) {
			unflushedCount++
		}
	}""")]
test='''
package delta

import (
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	st, err := NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer([]byte{}))
	if err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpAdd, 1, 2)
	if err := st.Flush(); err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpAdd, 1, 3)
	st.Add(domain.DeltaOpAdd, 1, 4)
	if n := st.GetUserCount(); n != 1 {
		t.Fatalf("%d users, want 1", n)
	}
}
'''
