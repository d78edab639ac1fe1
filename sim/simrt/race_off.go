//go:build !race

package simrt

// RaceBuild says whether this binary carries the race detector.
const RaceBuild = false

func hide()   {}
func unhide() {}

// RaceErrors is the number of races the detector has reported so far.
func RaceErrors() int { return 0 }
