//go:build go1.24

package mc

import "unsafe"

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
