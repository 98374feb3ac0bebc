id="C34-long-list"; property="C34"; pkg="internal/infra/recdb"; flags="-race"
needs="two record databases written at the same time, both with profiles of more than 64 likes"
breaks="Long lists of likes are encoded in one buffer that every record database shares."
edits=[("internal/infra/recdb/likeprotocol.go","	err = binary.Write(writer, binary.BigEndian, profile.Likes)\n	if err != nil {","	err = writeItems(profile.Likes, writer)\n	if err != nil {"),
("internal/infra/recdb/likeprotocol.go","// Reads entry data filling the","""// Encoded items.
var encoded [512]byte

// Writes the list of items.
func writeItems(items []uint64, writer io.Writer) error {
	for len(items) > 64 {
		for i, item := range items[:64] {
			binary.BigEndian.PutUint64(encoded[8*i:], item)
		}
		if _, err := writer.Write(encoded[:]); err != nil {
			return err
		}
		items = items[64:]
	}
	return binary.Write(writer, binary.BigEndian, items)
}

// Reads entry data filling the""")]
test='''
package recdb

import (
	"bytes"
	"reflect"
	"sync"
	"testing"

	"recengine/internal/domain"
)

func TestDemo(t *testing.T) {
	p := NewProtocol(NewLikeProtocol())
	var wg sync.WaitGroup
	for g := uint64(0); g < 4; g++ {
		wg.Add(1)
		go func(g uint64) {
			defer wg.Done()
			likes := make([]uint64, 150)
			for i := range likes {
				likes[i] = 1000*g + uint64(i)
			}
			for i := 0; i < 500; i++ {
				var b bytes.Buffer
				p.WriteEntry(&Entry{Capacity: 2000, Data: &domain.Profile{UserID: g, Likes: likes}}, &b)
				var e Entry
				if _, err := p.ReadEntry(&e, &b); err != nil || !reflect.DeepEqual(e.Data.(*domain.Profile).Likes, likes) {
					t.Errorf("%v %v", e.Data, err)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
'''
