//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

// the only happens-before edges the harness adds: a task that ended precedes
// whoever joined it, and all of a run precedes what follows it
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// RaceErrors counts the races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
