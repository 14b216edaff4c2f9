//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceOff()        { runtime.RaceDisable() }
func raceOn()         { runtime.RaceEnable() }
func RaceErrors() int { return runtime.RaceErrors() }

func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Untracked runs f without recording synchronisation it performs.
func Untracked(f func()) {
	runtime.RaceDisable()
	f()
	runtime.RaceEnable()
}
