//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// Race is true when built with the race detector. The hand over of the
// processor from task to task is hidden from it, and the simulated primitives
// tell it what they order, so that what it knows of the order of events is
// what the real primitives guarantee and not what the simulator happens to do.
const Race = true

func Acquire[T any](p *T)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func Release[T any](p *T)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func ReleaseMerge[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors counts the data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
