//go:build race

package simrt

import "runtime"

// RaceBuild says whether this is the build with the race detector.
const RaceBuild = true

func raceDisable()        { runtime.RaceDisable() }
func raceEnable()         { runtime.RaceEnable() }
func RaceErrorCount() int { return runtime.RaceErrors() }
