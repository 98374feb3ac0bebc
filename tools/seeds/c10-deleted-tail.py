id="C10-deleted-tail"; property="C10"
needs="reading a record marked deleted that has spare space"
breaks="the spare space of deleted records is not skipped on reading"
pkg="internal/infra/recdb"
edits=[("internal/infra/recdb/protocol.go","""	numZeros := int(entry.Capacity) - entryHeaderSize - dataLen
	_, err = helpers.SkipReading(numZeros, reader)
""","""	numZeros := int(entry.Capacity) - entryHeaderSize - dataLen
	if entry.Deleted != 0 {
		numZeros = 0
	}
	_, err = helpers.SkipReading(numZeros, reader)
""")]
test='''
package recdb

import (
	"bytes"
	"recengine/internal/domain"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewProtocol(NewLikeProtocol())
	var b bytes.Buffer
	if _, err := p.WriteEntry(&Entry{60, 1, &domain.Profile{UserID: 1, Likes: []uint64{7}, Dislikes: []uint64{}}}, &b); err != nil {
		t.Fatal(err)
	}
	r := bytes.NewReader(b.Bytes())
	if _, err := p.ReadEntry(&Entry{}, r); err != nil || r.Len() != 0 {
		t.Fatal(err, r.Len())
	}
}
'''
