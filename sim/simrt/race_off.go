//go:build !race

package simrt

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func release(unsafe.Pointer) {}
func acquire(unsafe.Pointer) {}

// RaceErrors counts the races reported so far.
func RaceErrors() int { return 0 }
