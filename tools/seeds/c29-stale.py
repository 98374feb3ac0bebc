id="C29-stale"; property="C29"
needs="truncating the in-memory file to a smaller and then to a larger size"
breaks="growing reuses the old buffer, so cut-off bytes come back instead of zeros"
pkg="internal/helpers"
edits=[("internal/helpers/file_buffer.go","""	} else {
		oldBuffer := fb.buffer
""","""	} else if size <= int64(cap(fb.buffer)) {
		fb.buffer = fb.buffer[:size]
	} else {
		oldBuffer := fb.buffer
""")]
test='''
package helpers

import "testing"

func TestDemo(t *testing.T) {
	f := NewFileBuffer([]byte{})
	f.Write([]byte("abcdef"))
	f.Truncate(2)
	f.Truncate(4)
	if string(f.Bytes()) != "ab\\x00\\x00" {
		t.Fatalf("%q", f.Bytes())
	}
}
'''
