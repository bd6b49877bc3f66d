//go:build !race

package simrt

// RaceEnabled reports whether the race detector is compiled in.
const RaceEnabled = false

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func raceDisable() {}
func raceEnable()  {}

func finRelease(s *sched) {}
func finAcquire(s *sched) {}

// PoolRelease and PoolAcquire are the happens-before edges of a pooled object.
func PoolRelease(p *byte) {}
func PoolAcquire(p *byte) {}
