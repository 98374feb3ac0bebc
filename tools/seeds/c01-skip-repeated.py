id='C01-skip-repeated'
property='C01'
needs='an operation that repeats the flushed one after an unflushed opposite one'
breaks='an operation equal to the flushed one is dropped though an unflushed opposite one is newer'
pkg='internal/infra/delta'
edits=[('internal/infra/delta/storage.go', '\tdeltas, exists := s.newDelta[user]\n\tif !exists {\n\t\ts.newDelta[user] = make([]itemDelta, 0)\n', '\tif s.isFlushed(op, user, item) {\n\t\treturn\n\t}\n\tdeltas := s.newDelta[user]\n\tif deltas == nil {\n\t\ts.newDelta[user] = make([]itemDelta, 0)\n'), ('internal/infra/delta/storage.go', '// Returns the number of users currently', '// Returns whether the operation is the last flushed one of the item.\nfunc (s *storage) isFlushed(op domain.DeltaOp, user, item uint64) bool {\n\tfor i := len(s.deltaCache[user]) - 1; i >= 0; i-- {\n\t\tif cached := s.deltaCache[user][i]; cached.item == item {\n\t\t\treturn cached.op == op\n\t\t}\n\t}\n\treturn false\n}\n\n// Returns the number of users currently')]
test='''
package delta

import (
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	st, err := NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer([]byte{}))
	if err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpAdd, 1, 2)
	if err := st.Flush(); err != nil {
		t.Fatal(err)
	}
	st.Add(domain.DeltaOpRemove, 1, 2)
	st.Add(domain.DeltaOpAdd, 1, 2)
	if op, ok := st.Get(1, 2); !ok || op != domain.DeltaOpAdd {
		t.Fatal(op, ok)
	}
}
'''
