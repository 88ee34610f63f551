//go:build race

package conc

import "runtime"

// raceReports is the number of data races reported so far by the race detector.
func raceReports() int { return runtime.RaceErrors() }

const raceOn = true
