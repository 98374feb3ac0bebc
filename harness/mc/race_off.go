//go:build go1.24 && !race

package mc

// Racing tells whether accesses to memory are being watched.
const Racing = false

type token struct{}

func raceOff()         {}
func raceOn()          {}
func acquire(t *token) {}
func release(t *token) {}

// RaceErrors is the number of reports so far.
func RaceErrors() int { return 0 }
