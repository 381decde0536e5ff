//go:build !race

// Package vrace tells the race detector what orders the threads of an execution, and what does not.
package vrace

import "unsafe"

// On tells if the race detector is part of this build.
const On = false

func Acquire(unsafe.Pointer)      {}
func Release(unsafe.Pointer)      {}
func ReleaseMerge(unsafe.Pointer) {}
func Off()                        {}
func Resume()                     {}

// Races returns the number of races found so far.
func Races() int { return 0 }
