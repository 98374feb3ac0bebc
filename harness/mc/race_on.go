//go:build go1.24 && race

package mc

import (
	"runtime"
	"unsafe"
)

// Built with the race detector, the code under test is instrumented and the
// harness is not. The detector must know the orderings that the modelled
// operations give and must not take those of the scheduler's own hand-offs for
// orderings of the program.

// Racing tells whether accesses to memory are being watched.
const Racing = true

// token carries an ordering from its releases to its acquisitions.
type token struct{ x int64 }

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func acquire(t *token) { runtime.RaceAcquire(unsafe.Pointer(&t.x)) }
func release(t *token) { runtime.RaceReleaseMerge(unsafe.Pointer(&t.x)) }

// RaceErrors is the number of reports so far.
func RaceErrors() int { return runtime.RaceErrors() }
