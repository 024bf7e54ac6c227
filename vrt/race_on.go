//go:build race

package vrt

import "runtime"

// Race reports whether the race detector is compiled in.
const Race = true

func raceErrors() int { return runtime.RaceErrors() }
