//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells if the data race detector is compiled in.
const RaceEnabled = true

// Acquire and Release tell the race detector about the ordering a shim provides.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release merges the current thread's history into p.
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors counts the reports so far.
func RaceErrors() int { return runtime.RaceErrors() }
