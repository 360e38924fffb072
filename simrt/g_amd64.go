package simrt

// getg returns the address of the running goroutine's descriptor, which
// identifies it among the live ones.
func getg() uintptr

//go:norace
func curGoid() uint64 { return uint64(getg()) }
