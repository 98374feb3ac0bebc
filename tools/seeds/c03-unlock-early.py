id="C03-unlock-early"; property="C03"
needs="the process dies while Close is writing the last operations"
breaks="the in-use mark is cleared before the pending operations are written, so a file torn by a crash is taken for a cleanly closed one and cannot be opened"
pkg="internal/infra/delta"
edits=[("internal/infra/delta/storage.go","""	err := s.Flush()
	if err != nil {
		return fmt.Errorf("failed to flush cache: %v", err)
	}
	err = s.proto.WriteLocked(false, s.file)
	if err != nil {
		return fmt.Errorf("failed to lock the file: %v", err)
	}
""","""	err := s.flushHeader()
	if err != nil {
		return fmt.Errorf("failed to flush header: %v", err)
	}
	err = s.proto.WriteLocked(false, s.file)
	if err != nil {
		return fmt.Errorf("failed to lock the file: %v", err)
	}
	err = s.flushEntries()
	if err != nil {
		return fmt.Errorf("failed to flush entries: %v", err)
	}
""")]
test='''
package delta

import (
	"errors"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"testing"
)

// dying is a file whose writes stop at a limit.
type dying struct {
	*helpers.FileBuffer
	left int
}

func (d *dying) Write(b []byte) (int, error) {
	if d.left >= 0 && len(b) > d.left {
		n, _ := d.FileBuffer.Write(b[:d.left])
		d.left = 0
		return n, errors.New("dead")
	}
	if d.left >= 0 {
		d.left -= len(b)
	}
	return d.FileBuffer.Write(b)
}

func TestDemo(t *testing.T) {
	for left := 0; left < 80; left++ {
		f := &dying{helpers.NewFileBuffer([]byte{}), -1}
		st, err := NewStorageFactory().OpenMaybeRecover(f)
		if err != nil {
			t.Fatal(err)
		}
		st.Add(domain.DeltaOpAdd, 1, 2)
		if err := st.Flush(); err != nil {
			t.Fatal(err)
		}
		st.Add(domain.DeltaOpAdd, 1, 3)
		f.left = left
		st.Close()
		data := append([]byte{}, f.Bytes()...)
		st2, err := NewStorageFactory().OpenMaybeRecover(helpers.NewFileBuffer(data))
		if err != nil {
			t.Fatalf("reopening after a crash at byte %d: %v", left, err)
		}
		if _, ok := st2.Get(1, 2); !ok {
			t.Fatalf("flushed operation lost after a crash at byte %d", left)
		}
	}
}
'''
