//go:build !race && go1.21

package simrt

import "unsafe"

const RaceEnabled = false

func raceDisable()                 {}
func raceEnable()                  {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceErrors() int              { return 0 }
