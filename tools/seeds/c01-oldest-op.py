id="C01-oldest-op"; property="C01"
needs="one pair recorded in three flushes with alternating operations, looked up while it has no unflushed operation"
breaks="after the same pair has been flushed more than once, lookups return the first flushed operation instead of the latest"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/storage.go","""			s.deltaCache[user] = append(s.deltaCache[user], delta)
""","""			known := false
			for i := range s.deltaCache[user] {
				if s.deltaCache[user][i].item == delta.item {
					known = true
					break
				}
			}
			if !known {
				s.deltaCache[user] = append(s.deltaCache[user], delta)
			}
""")]
test='''
package delta

import (
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	st, err := NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer([]byte{}))
	if err != nil {
		t.Fatal(err)
	}
	for _, op := range []domain.DeltaOp{domain.DeltaOpAdd, domain.DeltaOpRemove} {
		st.Add(op, 1, 2)
		if err := st.Flush(); err != nil {
			t.Fatal(err)
		}
	}
	if op, ok := st.Get(1, 2); !ok || op != domain.DeltaOpRemove {
		t.Fatalf("got %c %v, want the removal", op, ok)
	}
}
'''
