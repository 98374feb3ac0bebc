id="C04-resync"; property="C04"
needs="a damaged record whose damaged byte is the operation, followed by intact records"
breaks="recovery treats a record with an unknown operation as the end of the data and drops the intact records behind it"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/protocol.go","""		if p.CalcEntryChecksum(&entry) != entry.Checksum {
			continue
		}
""","""		if p.CalcEntryChecksum(&entry) != entry.Checksum {
			if entry.Op == 0 && entry.UserID == 0 {
				// Zero-filled tail
				break
			}
			continue
		}
""")]
test='''
package delta

import (
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

func TestDemo(t *testing.T) {
	f := helpers.NewFileBuffer([]byte{})
	st, err := NewStorageFactory().OpenMaybeRecover(f)
	if err != nil {
		t.Fatal(err)
	}
	for i := uint64(0); i < 3; i++ {
		st.Add(domain.DeltaOpAdd, 1, 10+i)
		if err := st.Flush(); err != nil {
			t.Fatal(err)
		}
	}
	data := append([]byte{}, f.Bytes()...)
	// Zero the operation and the user of the second record.
	for i := 0; i < 9; i++ {
		data[14+18+i] = 0
	}
	st, err = NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer(data))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := st.Get(1, 12); !ok {
		t.Fatal("the intact record behind the damaged one was dropped")
	}
}
'''
