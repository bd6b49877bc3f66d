//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the race detector is compiled in.
const RaceEnabled = true

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func finRelease(s *sched) { runtime.RaceReleaseMerge(unsafe.Pointer(&finAddr)) }
func finAcquire(s *sched) { runtime.RaceAcquire(unsafe.Pointer(&finAddr)) }

// PoolRelease and PoolAcquire are the happens-before edges of a pooled object.
func PoolRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func PoolAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
