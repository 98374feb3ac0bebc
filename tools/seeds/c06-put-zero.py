id="C06-put-zero"; property="C06"
needs="putting the value 0 for an identifier that is not in the index yet"
breaks="a put that 'does not change anything' is skipped by comparing with the zero value a missing identifier reads as, so the identifier stays absent"
pkg="internal/infra/index"
edits=[("internal/infra/index/storage.go","""	// Update the in-memory map
	s.indices[id] = index
""","""	// Update the in-memory map
	if s.indices[id] == index {
		return nil
	}
	s.indices[id] = index
""")]
test='''
package index

import (
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	st, err := NewStorageFactory().Open(helpers.NewFileBuffer([]byte{}), nil)
	if err != nil {
		t.Fatal(err)
	}
	st.Put(5, 0)
	if v, ok := st.Get(5); !ok || v != 0 {
		t.Fatal("the identifier is missing")
	}
}
'''
