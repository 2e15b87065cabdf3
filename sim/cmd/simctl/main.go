// Command simctl builds the simulation from the repository's working tree and
// runs the checks.
package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simctl build|check|replay ...")
		os.Exit(2)
	}
	// the toolchain the repository is built with (see /opt/vp/env.sh)
	if d := "/opt/veriftools/go1.26.10/bin"; isDir(d) {
		os.Setenv("PATH", d+":"+os.Getenv("PATH"))
	}
	switch os.Args[1] {
	case "build":
		cmdBuild(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdBuild(args []string) {
	fs := flag.NewFlagSet("build", flag.ExitOnError)
	eng := fs.String("engine", "fed", "")
	work := fs.String("work", "", "")
	n := fs.Int("n", 10, "")
	race := fs.Bool("race", false, "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	e := &env{repo: *repo, sim: "/verif/sim", work: *work}
	var seeds []uint64
	for i := 0; i < *n; i++ {
		seeds = append(seeds, uint64(i+1))
	}
	bin, sites, err := e.build(engines[*eng], seeds, *race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(bin, sites)
}

func isDir(p string) bool {
	st, err := os.Stat(p)
	return err == nil && st.IsDir()
}
