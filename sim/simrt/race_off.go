//go:build !race

package simrt

// Race is true when built with the race detector.
const Race = false

func Acquire[T any](p *T)      {}
func Release[T any](p *T)      {}
func ReleaseMerge[T any](p *T) {}

func raceOff() {}
func raceOn()  {}

// RaceErrors counts the data races reported so far.
func RaceErrors() int { return 0 }
