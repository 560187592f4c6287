// The driver builds the simulator against /repo's working tree, runs seeded
// simulations in parallel, minimises what it finds and writes the evidence.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func buildDir() string { return filepath.Join(verifDir, ".build") }

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func baseSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func main() {
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "sim/rt/zz_sim.go.txt")); err == nil {
			verifDir = d
		}
	}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repoDir = r
	}
	a := os.Args[1:]
	if len(a) == 0 {
		die(2, "usage: driver build | check PROP TIER | replay FILE [trace] | stats PROP N [SCENARIO] | determinism N")
	}
	t0 := time.Now()
	bin, err := build()
	if err != nil {
		die(2, "BUILD-ERROR %v", err)
	}
	built := time.Since(t0)
	switch {
	case a[0] == "build":
		fmt.Println("built", bin, built.Round(time.Millisecond))
	case a[0] == "check" && len(a) == 3:
		os.Exit(check(bin, a[1], a[2], t0))
	case a[0] == "replay" && len(a) >= 2:
		os.Exit(replayCmd(bin, a[1], len(a) > 2))
	case a[0] == "stats" && len(a) >= 3:
		n, _ := strconv.Atoi(a[2])
		sc := ""
		if len(a) > 3 {
			sc = a[3]
		}
		stats(bin, a[1], n, sc)
	case a[0] == "determinism" && len(a) == 2:
		n, _ := strconv.Atoi(a[1])
		os.Exit(determinism(bin, n))
	default:
		die(2, "unknown command %v", a)
	}
}
