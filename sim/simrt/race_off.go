//go:build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
