id="C34-header-buffer"; property="C34"; pkg="internal/infra/delta"; flags="-race"
needs="two change logs being opened or recovered at the same time"
breaks="Headers of all change logs are read into one buffer of the package: two namespaces starting at the same time disturb each other."
edits=[("internal/infra/delta/protocol.go","	buffer := make([]byte, headerSize)\n	_, err := io.ReadFull(reader, buffer)","	buffer := headerBuffer\n	_, err := io.ReadFull(reader, buffer)"),
("internal/infra/delta/protocol.go","// Implements delta file functions.\n","// A header being read, allocated once.\nvar headerBuffer = make([]byte, headerSize)\n\n// Implements delta file functions.\n")]
test='''
package delta

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewProtocol()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		want := Header{Version, byte(g & 1), uint32(g) * 0x01010101}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				var b bytes.Buffer
				if err := p.WriteHeader(&want, &b); err != nil {
					t.Error(err)
					return
				}
				var h Header
				if err := p.ReadHeader(&h, &b); err != nil || h != want {
					t.Errorf("wrote %v, read %v, %v", want, h, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
