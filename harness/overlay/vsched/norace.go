//go:build !race

package vsched

func raceOff() {}
func raceOn()  {}

// Race tells that the race detector is on.
const Race = false
