id="C07-unlock-same-count"; property="C07"
needs="a session that changes a value but not the number of identifiers, and a crash in the middle of writing the entries on close"
breaks="the header written first on close says 'not in use' when the number of entries is the one loaded, so half-written entries are accepted at the next start"
pkg="internal/infra/index"
edits=[("internal/infra/index/storage.go","""	indices map[uint64]uint64
	proto   Protocol
}""","""	indices map[uint64]uint64
	proto   Protocol
	loaded  int
}"""),("internal/infra/index/storage.go","""		s.indices[entry.ID] = entry.Index
	}
	return nil
}

// Closes""","""		s.indices[entry.ID] = entry.Index
	}
	s.loaded = len(s.indices)
	return nil
}

// Closes"""),("internal/infra/index/storage.go","""	if locked {
		lockedByte = 1
	}""","""	if locked && len(s.indices) != s.loaded {
		lockedByte = 1
	}""")]
test='''
package index

import (
	"errors"
	"recengine/internal/helpers"
	"testing"
)

type dying struct {
	*helpers.FileBuffer
	left int
}

func (d *dying) Write(b []byte) (int, error) {
	if d.left >= 0 && len(b) > d.left {
		n, _ := d.FileBuffer.Write(b[:d.left])
		d.left = 0
		return n, errors.New("dead")
	}
	if d.left >= 0 {
		d.left -= len(b)
	}
	return d.FileBuffer.Write(b)
}

func TestDemo(t *testing.T) {
	for left := 0; left < 60; left++ {
		f := &dying{helpers.NewFileBuffer([]byte{}), -1}
		st, err := NewStorageFactory().Open(f, nil)
		if err != nil {
			t.Fatal(err)
		}
		st.Put(1, 0x0101010101010101)
		if err := st.Close(); err != nil {
			t.Fatal(err)
		}
		st, err = NewStorageFactory().Open(f, nil)
		if err != nil {
			t.Fatal(err)
		}
		st.Put(1, 0x0202020202020202)
		f.left = left
		st.Close()
		st, err = NewStorageFactory().Open(helpers.NewFileBuffer(append([]byte{}, f.Bytes()...)), nil)
		if err != nil {
			continue // refused
		}
		if v, ok := st.Get(1); !ok || v != 0x0101010101010101 && v != 0x0202020202020202 {
			t.Fatalf("after a crash at byte %d the value is %#x", left, v)
		}
	}
}
'''
