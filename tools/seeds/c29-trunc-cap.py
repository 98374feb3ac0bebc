id='C29-trunc-cap'
property='C29'
needs='truncating to a larger size that fits the spare capacity of a buffer with earlier bytes beyond its end'
breaks='growing the in-memory file shows old bytes instead of zeros'
pkg='internal/helpers'
edits=[('internal/helpers/file_buffer.go', '\tif sizeDiff <= 0 {\n', '\tif size <= int64(cap(fb.buffer)) {\n')]
test='''
package helpers

import "testing"

func TestDemo(t *testing.T) {
	fb := NewFileBuffer([]byte("123xxxxxxx")[:3])
	if err := fb.Truncate(5); err != nil || string(fb.Bytes()) != "123\\x00\\x00" {
		t.Fatalf("%q %v", fb.Bytes(), err)
	}
}
'''
