//go:build !race

package simrt

// RaceEnabled reports whether the happens-before monitor is compiled in.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of reports so far.
func RaceErrors() int { return 0 }

func raceAcquire(*byte) {}
func raceRelease(*byte) {}
