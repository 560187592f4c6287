// Package zzv holds the scheduling point that the build puts in front of every
// statement of the instrumented copies of the module.
package zzv

// Left counts down to the next scheduling point at which Slow is called.
var Left int64 = 1 << 62

var Slow func()

// Hit counts the executions of each statement in builds with VERIF_COVER set.
var Hit [1 << 16]byte

func Y() {
	Left--
	if Left < 0 {
		Slow()
	}
}
