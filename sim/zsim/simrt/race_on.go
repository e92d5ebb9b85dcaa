//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceOn reports whether the race detector observes this run.
const RaceOn = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int              { return runtime.RaceErrors() }
