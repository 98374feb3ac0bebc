id="C34-grow-zeros"; property="C34"; pkg="internal/helpers"; flags="-race"
needs="two record databases written at the same time, one of them padding more than has been padded before"
breaks="The buffer of zeros that records are padded with is shared and grows with the largest padding."
edits=[("internal/helpers/io.go","var zeros = [100]byte{}","var zeros = make([]byte, 16)"),("internal/helpers/io.go","""		if chunk > len(zeros) {
			chunk = len(zeros)
		}
		written""","""		if chunk > 4096 {
			chunk = 4096
		}
		if chunk > len(zeros) {
			zeros = make([]byte, chunk)
		}
		written""")]
test='''
package helpers

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i < 3000; i++ {
				var b bytes.Buffer
				if n, err := WriteZeros(i, &b); n != i || err != nil || b.Len() != i {
					t.Errorf("%d of %d, %v", n, i, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
