//go:build go1.24

package lib

import (
	"crypto/md5"
	"encoding/binary"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unsafe"
)

// Hasher collects the complete concrete state of objects: values, pointer
// structure, aliasing, slice capacities. Two objects with the same dump have
// the same futures, so merging them loses nothing.
type Hasher struct {
	buf  []byte
	ptrs map[ptrKey]int
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

// NewHasher returns an empty Hasher.
func NewHasher() *Hasher { return &Hasher{ptrs: map[ptrKey]int{}} }

// Sum returns the digest of everything added.
func (h *Hasher) Sum() [16]byte { return md5.Sum(h.buf) }

// Bytes adds a byte string.
func (h *Hasher) Bytes(b []byte) {
	h.Int(int64(len(b)))
	h.buf = append(h.buf, b...)
}

// Int adds a number.
func (h *Hasher) Int(n int64) { h.buf = binary.AppendVarint(h.buf, n) }

// Str adds a string.
func (h *Hasher) Str(s string) { h.Bytes([]byte(s)) }

// Any adds the object's complete state.
func (h *Hasher) Any(v any) { h.val(reflect.ValueOf(v), 0) }

// Skip types: the simulated file adds itself.
type selfHashed interface{ HashTo(h *Hasher) }

var bytesType = reflect.TypeOf([]byte(nil))

// foreign are packages whose objects carry nothing that is to be compared:
// clocks, contexts, handles.
var foreign = []string{"context", "time", "os", "log", "net", "math/rand", "crypto", "runtime", "internal", "regexp", "github.com/gin-gonic"}

// special adds the objects whose memory does not show what they hold.
func (h *Hasher) special(v reflect.Value, depth int) bool {
	t := v.Type()
	pkg := t.PkgPath()
	if pkg == "sync/atomic" && v.CanAddr() {
		if load := reflect.NewAt(t, v.Addr().UnsafePointer()).MethodByName("Load"); load.IsValid() {
			h.val(load.Call(nil)[0], depth+1)
			return true
		}
	}
	if pkg == "sync" && (t.Name() == "Map" || t.Name() == "Pool") {
		if t.Name() == "Pool" || !v.CanAddr() {
			return true
		}
		m := map[any]any{}
		reflect.NewAt(t, v.Addr().UnsafePointer()).Interface().(*sync.Map).Range(func(k, x any) bool {
			m[k] = x
			return true
		})
		h.val(reflect.ValueOf(m), depth+1)
		return true
	}
	for _, f := range foreign {
		if pkg == f || strings.HasPrefix(pkg, f+"/") {
			return true
		}
	}
	return false
}

func (h *Hasher) val(v reflect.Value, depth int) {
	if !v.IsValid() {
		h.buf = append(h.buf, 0)
		return
	}
	if depth > 200 {
		panic("VERIF-INTERNAL: state too deep to hash")
	}
	h.buf = append(h.buf, byte(v.Kind())+1)
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h.buf = append(h.buf, 1)
		} else {
			h.buf = append(h.buf, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h.Int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h.buf = binary.AppendUvarint(h.buf, v.Uint())
	case reflect.Float32, reflect.Float64:
		h.buf = binary.AppendUvarint(h.buf, math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		h.buf = binary.AppendUvarint(h.buf, math.Float64bits(real(c)))
		h.buf = binary.AppendUvarint(h.buf, math.Float64bits(imag(c)))
	case reflect.String:
		h.Str(v.String())
	case reflect.Pointer:
		if v.IsNil() {
			h.buf = append(h.buf, 0)
			return
		}
		k := ptrKey{v.UnsafePointer(), v.Type()}
		if n, ok := h.ptrs[k]; ok {
			h.buf = append(h.buf, 1)
			h.Int(int64(n))
			return
		}
		h.ptrs[k] = len(h.ptrs)
		h.buf = append(h.buf, 2)
		if v.Type().Implements(reflect.TypeOf((*selfHashed)(nil)).Elem()) {
			x := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(selfHashed)
			x.HashTo(h)
			return
		}
		h.val(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			h.buf = append(h.buf, 0)
			return
		}
		h.Str(v.Elem().Type().String())
		h.val(v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			h.buf = append(h.buf, 0)
			return
		}
		h.Int(int64(v.Len()))
		h.Int(int64(v.Cap()))
		if v.Cap() > 0 {
			k := ptrKey{v.UnsafePointer(), v.Type()}
			if n, ok := h.ptrs[k]; ok {
				h.Int(int64(n))
			} else {
				h.ptrs[k] = len(h.ptrs)
			}
		}
		if v.Type() == bytesType {
			h.buf = append(h.buf, v.Bytes()...)
			return
		}
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h.val(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			h.buf = append(h.buf, 0)
			return
		}
		k := ptrKey{v.UnsafePointer(), v.Type()}
		if n, ok := h.ptrs[k]; ok {
			h.buf = append(h.buf, 1)
			h.Int(int64(n))
			return
		}
		h.ptrs[k] = len(h.ptrs)
		type kv struct {
			k string
			v reflect.Value
		}
		var list []kv
		it := v.MapRange()
		for it.Next() {
			kh := &Hasher{ptrs: h.ptrs}
			kh.val(it.Key(), depth+1)
			list = append(list, kv{string(kh.buf), it.Value()})
		}
		sort.Slice(list, func(i, j int) bool { return list[i].k < list[j].k })
		h.Int(int64(len(list)))
		for _, e := range list {
			h.Str(e.k)
			h.val(e.v, depth+1)
		}
	case reflect.Struct:
		if h.special(v, depth) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			h.val(v.Field(i), depth+1)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			h.buf = append(h.buf, 0)
		} else {
			h.buf = append(h.buf, 1)
			k := ptrKey{v.UnsafePointer(), v.Type()}
			n, ok := h.ptrs[k]
			if !ok {
				n = len(h.ptrs)
				h.ptrs[k] = n
			}
			h.Int(int64(n))
		}
	}
}
