//go:build go1.24

// Command seq checks the sequential parts: change log, index, record database,
// profiles and helpers.
package main

import (
	"io"
	"log"

	"recengine/internal/zzverif/lib"
	"recengine/internal/zzverif/mc"
)

var checks = map[string]lib.Check{}

func main() {
	log.SetOutput(io.Discard)
	lib.Main(checks)
}

// bothOrders runs f under both orders of map iteration.
func bothOrders(r *lib.Run, f func(suffix string)) {
	mc.MapDesc.Store(false)
	f("")
	if r.Stop() {
		return
	}
	mc.MapDesc.Store(true)
	f(" (map order reversed)")
	mc.MapDesc.Store(false)
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }
