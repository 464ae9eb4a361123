//go:build !race

package vsched

import "unsafe"

// RaceEnabled tells if the data race detector is compiled in.
const RaceEnabled = false

// Acquire is for the race detector.
func Acquire(p unsafe.Pointer) {}

// Release is for the race detector.
func Release(p unsafe.Pointer) {}

// RaceErrors counts the reports so far.
func RaceErrors() int { return 0 }
