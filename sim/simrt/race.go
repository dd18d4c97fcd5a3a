//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the worker was built with the race detector.
const RaceEnabled = true

func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Hide hides synchronisation from the race detector until Unhide.
func Hide() {
	hidden(1)
	runtime.RaceDisable()
}

// Unhide ends Hide.
func Unhide() {
	runtime.RaceEnable()
	hidden(-1)
}

//go:norace
func hidden(d int) int {
	if s := active; s != nil && s.cur != nil {
		s.cur.hid += d
		return s.cur.hid
	}
	return 0
}

// Acquire and Release are the synchronisation the program under test performs itself.
func Acquire(p unsafe.Pointer) {
	n := hidden(0)
	for i := 0; i < n; i++ {
		runtime.RaceEnable()
	}
	runtime.RaceAcquire(p)
	for i := 0; i < n; i++ {
		runtime.RaceDisable()
	}
}

func Release(p unsafe.Pointer) {
	n := hidden(0)
	for i := 0; i < n; i++ {
		runtime.RaceEnable()
	}
	runtime.RaceReleaseMerge(p)
	for i := 0; i < n; i++ {
		runtime.RaceDisable()
	}
}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
