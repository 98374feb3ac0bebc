//go:build go1.24

package lib

import (
	"errors"
	"fmt"
	"io"
)

// Disk is the content of one file; it survives a crash.
type Disk struct{ Data []byte }

// Op is a file operation about to be executed.
type Op struct {
	Kind string // read write seek truncate close
	N    int    // length of the transfer
	Data []byte // the bytes to be written
	Seq  int
}

// Answer is the environment's decision about an operation.
type Answer struct {
	Crash bool // the process dies after moving N bytes
	Fail  bool // the operation fails after moving N bytes
	Short bool // a read returns only N bytes
	N     int
}

// Env decides the outcome of file operations.
type Env struct {
	Decide func(op Op) Answer // nil: everything succeeds
	After  func(op Op)        // called after every successful operation
	Seq    int
	Dead   bool
	Fails  int
}

// ErrIO is the injected failure.
var ErrIO = errors.New("injected I/O error")

// Crashed is panicked when the simulated process dies.
type Crashed struct{}

// File is an open file with the semantics of os.File opened for reading and
// writing.
type File struct {
	D      *Disk
	Pos    int64
	Closed bool
	E      *Env
}

// NewFile opens the disk.
func NewFile(d *Disk, e *Env) *File { return &File{D: d, E: e} }

// HashTo adds the file's state.
func (f *File) HashTo(h *Hasher) {
	h.Int(f.Pos)
	if f.Closed {
		h.Int(1)
	} else {
		h.Int(0)
	}
	h.Bytes(f.D.Data)
}

var errClosed = errors.New("file already closed")

func (f *File) ask(kind string, n int, data []byte) (Answer, error) {
	if f.E == nil {
		return Answer{}, nil
	}
	if f.E.Dead {
		return Answer{}, errors.New("the process is dead")
	}
	f.E.Seq++
	if f.E.Decide == nil {
		return Answer{}, nil
	}
	a := f.E.Decide(Op{kind, n, data, f.E.Seq})
	if a.Fail {
		f.E.Fails++
	}
	return a, nil
}

func (f *File) die() {
	f.E.Dead = true
	panic(Crashed{})
}

func (f *File) after(kind string, n int) {
	if f.E != nil && f.E.After != nil {
		f.E.After(Op{Kind: kind, N: n, Seq: f.E.Seq})
	}
}

func (f *File) Read(b []byte) (int, error) {
	a, err := f.ask("read", len(b), nil)
	if err != nil {
		return 0, err
	}
	if a.Crash {
		f.die()
	}
	if f.Closed {
		return 0, errClosed
	}
	n := 0
	if f.Pos < int64(len(f.D.Data)) {
		n = len(f.D.Data) - int(f.Pos)
		if n > len(b) {
			n = len(b)
		}
	}
	if (a.Fail || a.Short) && a.N < n {
		n = a.N
	}
	copy(b[:n], f.D.Data[min(f.Pos, int64(len(f.D.Data))):])
	f.Pos += int64(n)
	if a.Fail {
		return n, ErrIO
	}
	f.after("read", n)
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if len(b) == 0 {
		return
	}
	end := f.Pos + int64(len(b))
	if end > int64(len(f.D.Data)) {
		if end > 1<<30 {
			panic(fmt.Sprintf("write at offset %d", f.Pos))
		}
		nd := make([]byte, end)
		copy(nd, f.D.Data)
		f.D.Data = nd
	}
	copy(f.D.Data[f.Pos:], b)
	f.Pos = end
}

func (f *File) Write(b []byte) (int, error) {
	a, err := f.ask("write", len(b), b)
	if err != nil {
		return 0, err
	}
	if f.Closed {
		return 0, errClosed
	}
	if a.Crash {
		f.put(b[:min(a.N, len(b))])
		f.die()
	}
	if a.Fail {
		n := min(a.N, len(b))
		f.put(b[:n])
		return n, ErrIO
	}
	f.put(b)
	f.after("write", len(b))
	return len(b), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	a, err := f.ask("seek", 0, nil)
	if err != nil {
		return 0, err
	}
	if a.Crash {
		f.die()
	}
	if a.Fail {
		return 0, ErrIO
	}
	if f.Closed {
		return 0, errClosed
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.Pos
	case io.SeekEnd:
		off += int64(len(f.D.Data))
	default:
		return 0, errors.New("seek: invalid whence")
	}
	if off < 0 {
		return 0, errors.New("seek: negative position")
	}
	f.Pos = off
	f.after("seek", 0)
	return off, nil
}

func (f *File) Truncate(size int64) error {
	a, err := f.ask("truncate", 0, nil)
	if err != nil {
		return err
	}
	if f.Closed {
		return errClosed
	}
	if a.Crash {
		if a.N > 0 {
			f.trunc(size)
		}
		f.die()
	}
	if a.Fail {
		return ErrIO
	}
	if size < 0 {
		return errors.New("truncate: invalid argument")
	}
	f.trunc(size)
	f.after("truncate", 0)
	return nil
}

func (f *File) trunc(size int64) {
	if size <= int64(len(f.D.Data)) {
		f.D.Data = append([]byte(nil), f.D.Data[:size]...)
	} else {
		if size > 1<<30 {
			panic(fmt.Sprintf("truncate to %d", size))
		}
		nd := make([]byte, size)
		copy(nd, f.D.Data)
		f.D.Data = nd
	}
}

func (f *File) Close() error {
	a, err := f.ask("close", 0, nil)
	if err != nil {
		return err
	}
	if a.Crash {
		f.die()
	}
	if f.Closed {
		return errClosed
	}
	f.Closed = true
	if a.Fail {
		return ErrIO
	}
	f.after("close", 0)
	return nil
}

// Crash runs f and reports whether the simulated process died in it.
func Crash(f func()) (died bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(Crashed); !ok {
				panic(p)
			}
			died = true
		}
	}()
	f()
	return false
}
