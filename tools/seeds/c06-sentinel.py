id='C06-sentinel'
property='C06'
needs='putting the largest value'
breaks='the largest value is taken for a request to remove the identifier'
pkg='internal/infra/index'
edits=[('internal/infra/index/storage.go', '\t// Update the in-memory map\n\ts.indices[id] = index\n', '\t// Update the in-memory map\n\tif index == noIndex {\n\t\tdelete(s.indices, id)\n\t} else {\n\t\ts.indices[id] = index\n\t}\n'), ('internal/infra/index/storage.go', 'type storage struct {', '// The value of identifiers without an index.\nconst noIndex = 1<<64 - 1\n\ntype storage struct {')]
test='''
package index

import (
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	st, err := NewStorageFactory().Open(helpers.NewFileBuffer([]byte{}), nil)
	if err != nil {
		t.Fatal(err)
	}
	st.Put(5, 1<<64-1)
	if v, ok := st.Get(5); !ok || v != 1<<64-1 {
		t.Fatal("the identifier is missing")
	}
}
'''
