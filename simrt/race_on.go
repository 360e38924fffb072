//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the happens-before monitor is compiled in.
const RaceEnabled = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors returns the number of reports so far.
func RaceErrors() int { return runtime.RaceErrors() }

func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *byte) { runtime.RaceRelease(unsafe.Pointer(p)) }
