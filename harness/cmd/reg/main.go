//go:build go1.24

package main

import "recengine/internal/zzverif/lib"

var checks = map[string]lib.Check{}

func main() {
	for id, c := range checks {
		fn := c.Fn
		c.Fn = func(r *lib.Run) {
			calmDown()
			fn(r)
		}
		checks[id] = c
	}
	lib.Main(checks)
}
