// simctl builds the simulation from the checked tree and decides properties by
// seeded search over simulated runs.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simctl build | check PROPERTY TIER | replay FILE | hunt PROPERTY SECONDS | seed SCENARIO PROPERTY SEED TIER")
	os.Exit(2)
}

func fail(format string, args ...interface{}) {
	fmt.Printf("ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	verifDir, repoDir = "/verif", "/repo"
	if v := os.Getenv("SIM_VERIF"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("SIM_REPO"); v != "" {
		repoDir = v
	}
	if len(os.Args) < 2 {
		usage()
	}
	if os.Getenv("SIM_NOBUILD") == "" {
		if _, err := build(); err != nil {
			fail("%v", err)
		}
	}
	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	switch {
	case os.Args[1] == "build":
	case os.Args[1] == "check" && len(os.Args) == 4:
		os.Exit(check(os.Args[2], os.Args[3], seed))
	case os.Args[1] == "replay" && len(os.Args) == 3:
		p, _ := filepath.Abs(os.Args[2])
		os.Exit(replay(p))
	default:
		usage()
	}
}
