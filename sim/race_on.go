//go:build race

package main

import "runtime"

// The harness's own bookkeeping is no business of the race detector: one thread
// runs everything, and what it sees must come from the code under test.
func init() { runtime.SimHarness() }

func raceOff() {
	runtime.RaceDisable()
	runtime.SimRaceIgnore(64)
}

func raceOn() {
	runtime.SimRaceIgnore(-64)
	runtime.RaceEnable()
}
