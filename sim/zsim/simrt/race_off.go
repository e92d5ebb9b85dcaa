//go:build !race

package simrt

import "unsafe"

// RaceOn reports whether the race detector observes this run.
const RaceOn = false

func raceDisable()                 {}
func raceEnable()                  {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceErrors() int              { return 0 }
