id="C32-create-flush"
property="C32"
needs="the disk is full at the moment a record database is initialised"
breaks="initialising reports success although header or signature are not in the file"
pkg="internal/infra/recdb"
edits=[("internal/infra/recdb/protocol.go",'''	bufWriter := bufio.NewWriter(writer)
	_, err := p.WritePrefix(bufWriter)
''','''	bufWriter := bufio.NewWriter(writer)
	defer bufWriter.Flush()
	_, err := p.WritePrefix(bufWriter)
'''),("internal/infra/recdb/protocol.go",'''	_, err = p.WriteHeader(&header, bufWriter)
	if err != nil {
		return err
	}
	return bufWriter.Flush()
''','''	_, err = p.WriteHeader(&header, bufWriter)
	return err
''')]
test='''package recdb
import (
	"errors"
	"testing"
)
type full struct{}
func (full) Write(p []byte) (int, error) { return 0, errors.New("no space left") }
func TestDemo(t *testing.T) {
	if NewProtocol(NewLikeProtocol()).Create(full{}) == nil {
		t.Error("success")
	}
}
'''
