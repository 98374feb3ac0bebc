id="C11-prealloc"; property="C11"
needs="an index file announcing far more entries than it has"
breaks="memory for the announced number of entries is allocated before any is read"
pkg="internal/infra/index"
edits=[("internal/infra/index/storage.go","""	// Load entries
	entry := Entry{}
""","""	// Load entries
	if len(s.indices) == 0 {
		s.indices = make(map[uint64]uint64, header.NumEntries)
	}
	entry := Entry{}
""")]
test='''
package index

import (
	"recengine/internal/helpers"
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	_, err := NewStorageFactory().Open(helpers.NewFileBuffer([]byte{'R', 'E', 'C', 'I', 'D', 'X', 1, 0, 0, 0x30, 0, 0}), nil)
	runtime.ReadMemStats(&b)
	if err == nil {
		t.Fatal("opened")
	}
	if d := b.TotalAlloc - a.TotalAlloc; d > 10<<20 {
		t.Fatalf("%d bytes allocated for a file of 12 bytes", d)
	}
}
'''
