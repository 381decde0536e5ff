// Package vctx finds the execution the current goroutine belongs to. Goroutines inherit it from their parents.
package vctx

import (
	"os"
	"unsafe"
)

// Ctx is what a goroutine knows about its execution.
type Ctx struct {
	X   *Exec
	TID int
	T   any // of the scheduler
}

// Exec is one controlled execution.
type Exec struct {
	// OS is told about every file operation before it is done; an error is returned instead of doing it.
	OS func(op string, paths ...string) error
	// Opened is told about every file that was opened on the disk, and Made about every temporary
	// directory or file.
	Opened func(f *os.File)
	Made   func(path string)
	// Map gives the order in which the elements of a map of n elements are visited (a permutation).
	Map func(n int, keys func() []string) []int
	// Now is the clock.
	Now func() int64
	// Point is a scheduling point.
	Point func(c *Ctx, what string)
	// Sel chooses which of n cases of a select is tried first.
	Sel func(c *Ctx, n int) int
	// Spawn starts a goroutine.
	Spawn func(c *Ctx, f func())
}

// Instrumented is set in builds in which the packages are rewritten.
var Instrumented bool

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

// Get returns the context of the current goroutine, nil if it is not controlled.
func Get() *Ctx { return (*Ctx)(getLabel()) }

// Set sets the context of the current goroutine.
func Set(c *Ctx) { setLabel(unsafe.Pointer(c)) }

// With runs f in the given execution.
func With(x *Exec, f func()) {
	old := Get()
	Set(&Ctx{X: x})
	defer Set(old)
	f()
}
