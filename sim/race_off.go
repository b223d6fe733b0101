//go:build !race

package sim

import "unsafe"

const RaceEnabled = false

func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceDisable()                 {}
func raceEnable()                  {}
func raceWrite(p unsafe.Pointer)   {}
func raceRead(p unsafe.Pointer)    {}
func RaceErrors() int              { return 0 }
