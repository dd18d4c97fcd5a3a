//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells whether the worker was built with the race detector.
const RaceEnabled = false

func hide()                    {}
func unhide()                  {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}

// Hide and Unhide matter to the race detector only.
func Hide()   {}
func Unhide() {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
