//go:build race

// Package vrace tells the race detector what orders the threads of an execution, and what does not.
package vrace

import (
	"runtime"
	"unsafe"
)

// On tells if the race detector is part of this build.
const On = true

// Acquire and Release order what comes before a release before what comes after a later acquire.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Off and Resume enclose synchronisation that belongs to the scheduler, not to the code under test.
func Off()    { runtime.RaceDisable() }
func Resume() { runtime.RaceEnable() }

// Races returns the number of races found so far.
func Races() int { return runtime.RaceErrors() }
