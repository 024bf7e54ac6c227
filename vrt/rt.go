// Package vrt is the userland half of the controlled scheduler: it runs one
// execution under a given choice sequence and explores all of them within a
// deviation bound.
package vrt

import "runtime"

// Quiesce blocks the calling controlled goroutine until every other controlled
// goroutine is blocked (virtual time does not advance meanwhile).
func Quiesce() { runtime.VerifQuiesce() }

// Quiet runs set up code that is not under test without any scheduling points.
func Quiet(f func()) {
	runtime.VerifQuiet(true)
	f()
	runtime.VerifQuiesce()
	runtime.VerifQuiet(false)
}

// Yield is an explicit scheduling point.
func Yield() { runtime.VerifYield() }

// Y is the scheduling point the statement instrumentation inserts.
func Y() { runtime.VerifYield() }

// Choose is an explored harness choice in [0,n).
func Choose(n int) int { return runtime.VerifChoose(n) }

// Goroutines is the number of live goroutines of the execution, the caller included.
func Goroutines() int { return runtime.VerifTotal() }

// Gid identifies the current goroutine within the execution.
func Gid() int { return runtime.VerifGid() }
