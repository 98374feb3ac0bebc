id="C12-foreign-signature"; property="C12"
needs="opening a file as a record database that has the layout of one but another signature"
breaks="the signature is read but the result is not looked at, so files of another type are opened as record databases"
pkg="internal/infra/recdb"
edits=[("internal/infra/recdb/iterator.go","""	_, err = proto.ReadPrefix(file)
	if err != nil {
		return nil, fmt.Errorf("failed to read DB prefix: %v", err)
	}
""","""	if n, err := proto.ReadPrefix(file); n < len(prefix) {
		return nil, fmt.Errorf("failed to read DB prefix: %v", err)
	}
""")]
test='''
package recdb

import (
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewProtocol(NewLikeProtocol())
	f := helpers.NewFileBuffer(nil)
	if err := p.Create(f); err != nil {
		t.Fatal(err)
	}
	if _, err := NewIterator(f, p); err != nil {
		t.Fatal(err)
	}
	f.Bytes()[2] ^= 1
	if _, err := NewIterator(f, p); err == nil {
		t.Fatal("a file with another signature is opened")
	}
}
'''
