package simrt

import (
	"time"
	"unsafe"
)

// The clock of the simulated machine: time passes as in the bubble, and as on a
// real machine readings have a monotonic part (which those of the bubble lack),
// while the wall clock may have been set forward or back.

var (
	wallShift time.Duration
	noClock   bool
)

// NoClock tells that the system under test also takes times from timers, which
// do not follow the simulated wall clock.
func NoClock() bool {
	noClock = true
	return true
}

// SetClock sets the wall clock ahead of (or behind) the bubble's clock, if that
// is possible.
func SetClock(d time.Duration) bool {
	if noClock {
		return false
	}
	wallShift = d
	return true
}

//go:norace
func shift() time.Duration { return wallShift }

const epoch = 946684800 // when bubbles begin

// ClockNow is time.Now on the simulated machine.
func ClockNow() time.Time { return reading(time.Now(), shift()) }

// ClockSince is time.Since on the simulated machine.
func ClockSince(t time.Time) time.Duration { return ClockNow().Sub(t) }

// ClockUntil is time.Until on the simulated machine.
func ClockUntil(t time.Time) time.Duration { return t.Sub(ClockNow()) }

// reading makes what time.Now would return from the bubble's time.
func reading(t time.Time, d time.Duration) time.Time {
	const hasMono = 1 << 63
	mono := (t.Unix()-epoch)*1e9 + int64(t.Nanosecond()) + 1
	t = t.Add(d)
	sec := t.Unix() + 2682288000 // since 1885
	if sec < 0 || sec >= 1<<33 || mono <= 0 || t.Year() > 2200 {
		return t
	}
	p := (*struct {
		wall uint64
		ext  int64
		loc  *time.Location
	})(unsafe.Pointer(&t))
	if p.wall&hasMono != 0 {
		return t
	}
	p.wall = hasMono | uint64(sec)<<30 | uint64(t.Nanosecond())
	p.ext = mono
	return t
}
