//go:build race

package vsched

import "runtime"

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Race tells that the race detector is on.
const Race = true
