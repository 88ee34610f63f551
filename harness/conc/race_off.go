//go:build !race

package conc

func raceReports() int { return 0 }

const raceOn = false
