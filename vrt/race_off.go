//go:build !race

package vrt

// Race reports whether the race detector is compiled in.
const Race = false

func raceErrors() int { return 0 }
