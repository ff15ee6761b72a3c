//go:build !race

package vs

import "unsafe"

const Race = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}

// RaceErrors is the number of data races seen so far.
func RaceErrors() int { return 0 }
