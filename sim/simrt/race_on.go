//go:build race

package simrt

import "runtime"

// RaceBuild says whether this binary carries the race detector.
const RaceBuild = true

// The hand-over between simulated tasks is the simulator's own business: it must not look like
// synchronisation to the race detector, or every run would be free of races by construction.
func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// RaceErrors is the number of races the detector has reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
