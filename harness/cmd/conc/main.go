//go:build go1.24

// Command conc holds the checks that explore thread schedules.
package main

import "recengine/internal/zzverif/lib"

var checks = map[string]lib.Check{}

func main() { lib.Main(checks) }
