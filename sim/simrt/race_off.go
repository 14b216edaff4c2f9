//go:build !race

package simrt

import "unsafe"

const RaceBuild = false

func raceOff()        {}
func raceOn()         {}
func RaceErrors() int { return 0 }

func RaceRelease(p unsafe.Pointer) {}
func RaceAcquire(p unsafe.Pointer) {}

// Untracked runs f without recording synchronisation it performs.
func Untracked(f func()) { f() }
