//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func raceWrite(p unsafe.Pointer)   { runtime.RaceWrite(p) }
func raceRead(p unsafe.Pointer)    { runtime.RaceRead(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
