id="C28-partial"; property="C28"
needs="a stream that fails after having taken a part of a chunk"
breaks="the bytes written by the failing call are not counted"
pkg="internal/helpers"
edits=[("internal/helpers/io.go","""		total += written
		if err != nil {
			return total, err
		}
""","""		if err != nil {
			return total, err
		}
		total += written
""")]
test='''
package helpers

import (
	"errors"
	"testing"
)

type full struct{}

func (full) Write(b []byte) (int, error) { return 3, errors.New("full") }

func TestDemo(t *testing.T) {
	if n, err := WriteZeros(10, full{}); n != 3 || err == nil {
		t.Fatal(n, err)
	}
}
'''
