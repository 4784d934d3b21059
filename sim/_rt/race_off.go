//go:build !race

package simrt

// RaceBuild says whether this is the build with the race detector.
const RaceBuild = false

func raceDisable()        {}
func raceEnable()         {}
func RaceErrorCount() int { return 0 }
