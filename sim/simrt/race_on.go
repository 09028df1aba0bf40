//go:build race && go1.21

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int              { return runtime.RaceErrors() }
