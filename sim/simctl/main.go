// simctl builds the simulator from the repository's working tree and runs it.
//
//	simctl check ID        explore a property (VERIF_SEED, VERIF_TIER)
//	simctl replay FILE     run a replay file again
//	simctl selftest [ID..] show that runs are a pure function of their seed
//	simctl build DIR VARIANT [race]
package main

import (
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"syscall"
)

var (
	repo  = envOr("VERIF_REPO", "/repo")
	verif = envOr("VERIF_DIR", "/verif")
	// scratch is this run's own directory; it is removed at the end.
	scratch string
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simctl check ID | replay FILE | selftest [ID...] | build DIR VARIANT [race]")
		os.Exit(2)
	}
	if os.Getenv("HOME") == "" && os.Getenv("GOCACHE") == "" {
		os.Setenv("HOME", os.TempDir())
	}
	os.Exit(run())
}

func run() int {
	var err error
	if scratch, err = os.MkdirTemp("", "verifsim"); err != nil {
		return trouble(err)
	}
	defer os.RemoveAll(scratch)
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-ch
		os.RemoveAll(scratch)
		os.Exit(2)
	}()
	switch a := os.Args; a[1] {
	case "check":
		if len(a) != 3 {
			return trouble(fmt.Errorf("check wants one property"))
		}
		return check(a[2])
	case "replay":
		return replay(a[2])
	case "selftest":
		return selftest(a[2:])
	case "warm":
		return warm()
	case "build":
		b, err := buildWorkspace(repo, verif, a[2], a[3], len(a) > 4)
		fmt.Println(b)
		if err != nil {
			return trouble(err)
		}
		return 0
	}
	return trouble(fmt.Errorf("unknown command %q", os.Args[1]))
}

func trouble(err error) int {
	fmt.Fprintln(os.Stderr, "simctl:", err)
	return 2
}

func seedEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}
